# The native solver between scenarios and runs: its options, its presolve and the basis kept for every scenario.  Interpreted, never executed.

@spec("solvers.cython_glpk.GLPKSolver", "__init__", props="C28")
def f(self, use_presolve=False, time_limit=None, iteration_limit=None, message_level="error",
      set_fixed_flows_once=False, set_fixed_costs_once=False, set_fixed_factors_once=False, use_unsafe_api=False):
    self.use_presolve = use_presolve
    self.use_unsafe_api = use_unsafe_api
    self.set_solver_options(time_limit, iteration_limit, message_level)
    self.has_presolved = False
    self.set_fixed_flows_once = set_fixed_flows_once
    self.set_fixed_costs_once = set_fixed_costs_once
    self.set_fixed_factors_once = set_fixed_factors_once


@spec("solvers.cython_glpk.GLPKSolver", "set_solver_options", props="C28", calls="glp_init_smcp")
def f(self, time_limit, iteration_limit, message_level):
    glp_init_smcp(__addr__(self.smcp))
    self.smcp.msg_lev = message_levels[message_level]
    if time_limit is not None:
        self.smcp.tm_lim = time_limit
    if iteration_limit is not None:
        self.smcp.it_lim = iteration_limit


@spec("solvers.cython_glpk.GLPKSolver", "setup", props="C01 C28")
def f(self, model):
    self.has_presolved = False


@spec("solvers.cython_glpk.GLPKSolver", "solve", props="C01 C28")
def f(self, model):
    if self.use_presolve and not self.has_presolved:
        self.smcp.presolve = GLP_ON
        self.has_presolved = True
    else:
        self.smcp.presolve = GLP_OFF


@spec("solvers.cython_glpk.BasisManager", "init_basis", props="C02")
def f(self, prob, nscenarios):
    self.row_stat = np.empty((nscenarios, glp_get_num_rows(prob)), dtype=np.int32)
    self.col_stat = np.empty((nscenarios, glp_get_num_cols(prob)), dtype=np.int32)


@spec("solvers.cython_glpk.BasisManager", "save_basis", props="C02")
def f(self, prob, global_id):
    nrows = glp_get_num_rows(prob)
    ncols = glp_get_num_cols(prob)
    for i in range(nrows):
        self.row_stat[global_id, i] = glp_get_row_stat(prob, i + 1)
    for i in range(ncols):
        self.col_stat[global_id, i] = glp_get_col_stat(prob, i + 1)


@spec("solvers.cython_glpk.BasisManager", "set_basis", props="C02", calls="glp_adv_basis glp_set_row_stat glp_set_col_stat")
def f(self, prob, is_first_solve, global_id):
    if is_first_solve:
        glp_adv_basis(prob, 0)
    else:
        nrows = glp_get_num_rows(prob)
        ncols = glp_get_num_cols(prob)
        for i in range(nrows):
            glp_set_row_stat(prob, i + 1, self.row_stat[global_id, i])
        for i in range(ncols):
            glp_set_col_stat(prob, i + 1, self.col_stat[global_id, i])


@spec("solvers.cython_glpk.CythonGLPKSolver", "solve", props="C01 C02", calls="_solve_scenario GLPKSolver.solve", selfcalls="_solve_scenario", keep="_solve_scenario",
      cells="self.is_first_solve self.has_presolved", why="the scenarios of the first step of a run start from a new basis")
def f(self, model):
    GLPKSolver.solve(self, model)
    for scenario_index in model.scenarios.combinations:
        self._solve_scenario(model, scenario_index)
    self.is_first_solve = False


@spec("solvers.cython_glpk.CythonGLPKSolver", "reset", props="C01", calls="", selfcalls="_update_nonstorage_constant_bounds _update_constant_agg_factors",
      keep="_update_nonstorage_constant_bounds _update_constant_agg_factors")
def f(self):
    self.is_first_solve = True
    self._update_nonstorage_constant_bounds()
    self._update_constant_agg_factors()


@spec("solvers.cython_glpk.CythonGLPKSolver", "_solve_scenario", props="C02", cells="", ret=False, calls="set_basis save_basis", keep="set_basis save_basis",
      cases=[{"self.use_unsafe_api": True}, {"self.use_unsafe_api": False}], why="a scenario is solved from its own basis, and only a solved one is kept")
def f(self, model, scenario_index):
    self.basis_manager.set_basis(self.prob, self.is_first_solve, scenario_index.global_id)
    if self.use_unsafe_api:
        simplex_ret = simplex_unsafe(self.prob, self.smcp)
    else:
        simplex_ret = simplex_safe(self.prob, self.smcp)
    status = glp_get_status(self.prob)
    if (status != GLP_OPT or simplex_ret != 0) and self.retry_solve:
        glp_std_basis(self.prob)
        if self.use_unsafe_api:
            simplex_ret = simplex_unsafe(self.prob, self.smcp)
        else:
            simplex_ret = simplex_safe(self.prob, self.smcp)
        status = glp_get_status(self.prob)
    if status != GLP_OPT or simplex_ret != 0:
        raise RuntimeError("failed")
    self.basis_manager.save_basis(self.prob, scenario_index.global_id)


@spec("solvers.cython_glpk.CythonGLPKEdgeSolver", "solve", props="C01 C02", calls="_solve_scenario GLPKSolver.solve", selfcalls="_solve_scenario", keep="_solve_scenario",
      cells="self.is_first_solve self.has_presolved", why="the scenarios of the first step of a run start from a new basis")
def f(self, model):
    GLPKSolver.solve(self, model)
    for scenario_index in model.scenarios.combinations:
        self._solve_scenario(model, scenario_index)
    self.is_first_solve = False


@spec("solvers.cython_glpk.CythonGLPKEdgeSolver", "reset", props="C01", calls="", selfcalls="_update_nonstorage_constant_bounds _update_constant_agg_factors",
      keep="_update_nonstorage_constant_bounds _update_constant_agg_factors")
def f(self):
    self.is_first_solve = True
    self._update_nonstorage_constant_bounds()
    self._update_constant_agg_factors()


@spec("solvers.cython_glpk.CythonGLPKEdgeSolver", "_solve_scenario", props="C02", cells="", ret=False, calls="set_basis save_basis", keep="set_basis save_basis",
      cases=[{"self.use_unsafe_api": True}, {"self.use_unsafe_api": False}], why="a scenario is solved from its own basis, and only a solved one is kept")
def f(self, model, scenario_index):
    self.basis_manager.set_basis(self.prob, self.is_first_solve, scenario_index.global_id)
    if self.use_unsafe_api:
        simplex_ret = simplex_unsafe(self.prob, self.smcp)
    else:
        simplex_ret = simplex_safe(self.prob, self.smcp)
    status = glp_get_status(self.prob)
    if (status != GLP_OPT or simplex_ret != 0) and self.retry_solve:
        glp_std_basis(self.prob)
        if self.use_unsafe_api:
            simplex_ret = simplex_unsafe(self.prob, self.smcp)
        else:
            simplex_ret = simplex_safe(self.prob, self.smcp)
        status = glp_get_status(self.prob)
    if status != GLP_OPT or simplex_ret != 0:
        raise RuntimeError("failed")
    self.basis_manager.save_basis(self.prob, scenario_index.global_id)

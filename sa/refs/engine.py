# Running: the solver chosen and its options, the result reported, the bisection search, several models at once.  Interpreted, never executed.

@spec("_model.Model", "__init__", props="C28", calls="Timestepper add_node", selfcalls="reset", keep="reset")
def f(self, **kwargs):
    self.graph = nx.DiGraph()
    self.metadata = {}
    self._file_hashes = {}
    solver_name = kwargs.pop('solver', None)
    solver_args = kwargs.pop('solver_args', {})
    start = kwargs.pop('start', '2015-01-01')
    end = kwargs.pop('end', '2015-12-31')
    timestep = kwargs.pop('timestep', 1)
    self.timestepper = Timestepper(start, end, timestep)
    self.data = {}
    self.dirty = True
    self.path = kwargs.pop('path', None)
    if self.path is not None:
        if os.path.exists(self.path) and (not os.path.isdir(self.path)):
            self.path = os.path.dirname(self.path)
    from pywr.solvers import solver_registry
    if solver_name is None:
        solver_name = os.environ.get('PYWR_SOLVER', None)
    if solver_name is not None:
        solver = None
        name1 = solver_name.lower()
        for cls in solver_registry:
            if name1 == cls.name.lower():
                solver = cls
        if solver is None:
            raise KeyError('Unrecognised solver: {}'.format(solver_name))
    else:
        solver = solver_registry[0]
    self.solver = solver(**solver_args)
    self.component_graph = nx.DiGraph()
    self.component_graph.add_node(ROOT_NODE)
    self.component_tree_flat = None
    self.tables = {}
    self.scenarios = ScenarioCollection(self)
    if kwargs:
        key = list(kwargs.keys())[0]
        raise TypeError("'{}' is an invalid keyword argument for this function".format(key))
    self._time_before = None
    self._time_after = None
    self.reset()


@spec("solvers:", "_parse_env_kwarg", props="C28")
def f(kwargs, keyword, env_name, env_type):
    if keyword not in kwargs:
        env_value = os.environ.get(env_name, None)
        if env_value is not None:
            if env_type is bool:
                kwargs[keyword] = env_value == '1' or env_value.lower() == 'true'
            elif env_type is str:
                kwargs[keyword] = env_value
            elif env_type is float:
                kwargs[keyword] = float(env_value)
            else:
                if not env_type is int:
                    raise NotImplementedError(f'Parsing environment variables of type {env_type} is not supported.')
                kwargs[keyword] = int(env_value)
    return kwargs


@spec("solvers.CythonGLPKSolver", "__init__", props="C28", calls="_parse_env_kwarg cy_CythonGLPKSolver", keep="_parse_env_kwarg")
def f(self, *args, **kwargs):
    super(CythonGLPKSolver, self).__init__(*args, **kwargs)
    kwargs = _parse_env_kwarg(kwargs, 'set_fixed_flows_once', 'PYWR_SOLVER_GLPK_FIXED_FLOWS_ONCE', bool)
    kwargs = _parse_env_kwarg(kwargs, 'set_fixed_costs_once', 'PYWR_SOLVER_GLPK_FIXED_COSTS_ONCE', bool)
    kwargs = _parse_env_kwarg(kwargs, 'set_fixed_factors_once', 'PYWR_SOLVER_GLPK_FIXED_FACTORS_ONCE', bool)
    kwargs = _parse_env_kwarg(kwargs, 'use_unsafe_api', 'PYWR_SOLVER_GLPK_UNSAFE_API', bool)
    self._cy_solver = cy_CythonGLPKSolver(**kwargs)


@spec("solvers.CythonGLPKEdgeSolver", "__init__", props="C28", calls="_parse_env_kwarg cy_CythonGLPKEdgeSolver", keep="_parse_env_kwarg")
def f(self, *args, **kwargs):
    super(CythonGLPKEdgeSolver, self).__init__(*args, **kwargs)
    kwargs = _parse_env_kwarg(kwargs, 'set_fixed_flows_once', 'PYWR_SOLVER_GLPK_FIXED_FLOWS_ONCE', bool)
    kwargs = _parse_env_kwarg(kwargs, 'set_fixed_costs_once', 'PYWR_SOLVER_GLPK_FIXED_COSTS_ONCE', bool)
    kwargs = _parse_env_kwarg(kwargs, 'set_fixed_factors_once', 'PYWR_SOLVER_GLPK_FIXED_FACTORS_ONCE', bool)
    kwargs = _parse_env_kwarg(kwargs, 'use_unsafe_api', 'PYWR_SOLVER_GLPK_UNSAFE_API', bool)
    self._cy_solver = cy_CythonGLPKEdgeSolver(**kwargs)


@spec("solvers.CythonLPSolveSolver", "__init__", props="C28", calls="_parse_env_kwarg cy_CythonLPSolveSolver", keep="_parse_env_kwarg")
def f(self, *args, **kwargs):
    super(CythonLPSolveSolver, self).__init__(*args, **kwargs)
    self._cy_solver = cy_CythonLPSolveSolver(**kwargs)


@spec("solvers.CythonGLPKSolver", "get settings", props="C28")
def f(self):
    return {'use_presolve': self.use_presolve, 'save_routes_flows': self.save_routes_flows, 'retry_solve': self.retry_solve, 'set_fixed_flows_once': self.set_fixed_flows_once, 'set_fixed_costs_once': self.set_fixed_costs_once, 'set_fixed_factors_once': self.set_fixed_factors_once}


@spec("solvers.CythonGLPKEdgeSolver", "get settings", props="C28")
def f(self):
    return {'use_presolve': self.use_presolve, 'retry_solve': self.retry_solve, 'set_fixed_flows_once': self.set_fixed_flows_once, 'set_fixed_costs_once': self.set_fixed_costs_once, 'set_fixed_factors_once': self.set_fixed_factors_once}


@spec("solvers.CythonLPSolveSolver", "get settings", props="C28")
def f(self):
    return {'save_routes_flows': self.save_routes_flows}


@spec("solvers.CythonGLPKSolver", "get stats", props="C28")
def f(self):
    return self._cy_solver.stats


@spec("solvers.CythonGLPKEdgeSolver", "get stats", props="C28")
def f(self):
    return self._cy_solver.stats


@spec("solvers.CythonLPSolveSolver", "get stats", props="C28")
def f(self):
    return self._cy_solver.stats


@spec("_model.Model", "run", props="C28", calls="ModelResult", selfcalls="setup reset _step finish", keep="setup reset _step finish")
def f(self):
    t0 = time.time()
    timestep = None
    try:
        if self.dirty or self.timestepper.dirty:
            self.setup()
        else:
            self.reset()
        t1 = time.time()
        for timestep in self.timestepper:
            self.timestep = timestep
            ret = self._step()
        t2 = time.time()
    except BaseException:
        try:
            self.finish()
        except Exception:
            pass
        raise
    else:
        self.finish()
    t3 = time.time()
    if timestep is None:
        raise RuntimeError('Nothing to run! Timestepper length is {}'.format(len(self.timestepper)))
    time_taken = t2 - t1
    time_taken_with_overhead = t3 - t0
    num_scenarios = len(self.scenarios.combinations)
    try:
        speed = (timestep.index + 1) * num_scenarios / time_taken
    except ZeroDivisionError:
        speed = float('nan')
    result = ModelResult(num_scenarios=num_scenarios, timestep=timestep, time_taken=time_taken, time_taken_before=self._time_before, time_taken_after=self._time_after, time_taken_with_overhead=time_taken_with_overhead, speed=speed, solver_name=self.solver.name, solver_settings=self.solver.settings, solver_stats=self.solver.stats, version=pywr.__version__)
    return result


@spec("_model.ModelResult", "__init__", props="C28")
def f(self, num_scenarios, timestep, time_taken, time_taken_before, time_taken_after, time_taken_with_overhead, speed, solver_name, solver_settings, solver_stats, version):
    self.timestep = timestep
    self.timesteps = timestep.index + 1
    self.time_taken = time_taken
    self.time_taken_before = time_taken_before
    self.time_taken_after = time_taken_after
    self.time_taken_with_overhead = time_taken_with_overhead
    self.speed = speed
    self.num_scenarios = num_scenarios
    self.solver_name = solver_name
    self.solver_settings = solver_settings
    self.solver_stats = solver_stats
    self.version = version


@spec("_model.ModelResult", "to_dict", props="C28")
def f(self):
    return {attr: value for attr, value in self.__dict__.items()}


@spec("_model.ModelResult", "to_dataframe", props="C28")
def f(self):
    d = self.to_dict()
    d['timestep'] = d['timestep'].datetime
    solver_settings = d.pop('solver_settings')
    for k, v in solver_settings.items():
        d['solver_settings.{}'.format(k)] = v
    solver_stats = d.pop('solver_stats')
    for k, v in solver_stats.items():
        d['solver_stats.{}'.format(k)] = v
    df = pandas.DataFrame(pandas.Series(d), columns=['Value'])
    return df


@spec("solvers.cython_glpk.CythonGLPKSolver", "__init__", props="C28")
def f(self, use_presolve=False, time_limit=None, iteration_limit=None, message_level='error', save_routes_flows=False, retry_solve=False, **kwargs):
    super().__init__(use_presolve, time_limit, iteration_limit, message_level, **kwargs)
    self.stats = None
    self.is_first_solve = True
    self.save_routes_flows = save_routes_flows
    self.retry_solve = retry_solve
    self.basis_manager = BasisManager()


@spec("solvers.cython_glpk.CythonGLPKEdgeSolver", "__init__", props="C28")
def f(self, use_presolve=False, time_limit=None, iteration_limit=None, message_level='error', save_routes_flows=False, retry_solve=False, **kwargs):
    super().__init__(use_presolve, time_limit, iteration_limit, message_level, **kwargs)
    self.stats = None
    self.is_first_solve = True
    self.retry_solve = retry_solve
    self.basis_manager = BasisManager()


@spec("solvers.cython_lpsolve.CythonLPSolveSolver", "__init__", props="C28")
def f(self, save_routes_flows=False):
    self.stats = None
    self.save_routes_flows = save_routes_flows


@spec("utils.bisect.BisectionSearchModel", "__init__", props="C29")
def f(self, **kwargs):
    self.bisect_parameter = kwargs.pop('bisect_parameter', None)
    self.bisect_epsilon = kwargs.pop('bisect_epsilon', None)
    self.error_on_infeasible = kwargs.pop('error_on_infeasible', True)
    super().__init__(**kwargs)


@spec("utils.bisect.BisectionSearchModel", "run", props="C29", calls="super.run set_double_variables", selfcalls="setup", keep="setup reset is_feasible")
def f(self):
    if self.bisect_epsilon is None:
        raise ValueError('Bisection epsilon is not defined.')
    if self.bisect_parameter is None:
        raise ValueError('Bisection parameter is not defined.')
    self.setup()
    param = self.parameters[self.bisect_parameter]
    if param.double_size != 1 or param.integer_size != 0:
        raise ValueError('Bisection is only supported using a parameter with only a single double variable (e.g ConstantParameter).')
    min_value = param.get_double_lower_bounds()[0]
    max_value = param.get_double_upper_bounds()[0]
    if min_value >= max_value:
        raise ValueError('Minimum bounds of the bisection parameter must be strictly greater than its maximum bounds.')
    if self.bisect_epsilon <= 0.0:
        raise ValueError('Bisection epsilon value must be greater than zero.')
    best_feasible = -np.inf
    while max_value - min_value > self.bisect_epsilon:
        current_value = (max_value + min_value) / 2
        param.set_double_variables(np.array([current_value]))
        super().run()
        if self.is_feasible():
            min_value = current_value
            best_feasible = max(best_feasible, current_value)
        else:
            max_value = current_value
    if np.isneginf(best_feasible):
        if self.error_on_infeasible:
            raise ValueError('No feasible solutions found during bisection. Trying lowering the bounds on the bisection parameter.')
        best_feasible = min_value
    param.set_double_variables(np.array([best_feasible]))
    ret = super().run()
    return ret


@spec("model.MultiModel", "add_model", props="C30")
def f(self, name, model):
    self.models[name] = model
    model.parent = self


@spec("model.MultiModel", "loads", props="C30", calls="load", keep="load load_from_dict")
def f(cls, data, model=None, path=None, solver=None):
    try:
        data = json.loads(data)
    except ValueError as e:
        message = e.args[0]
        if path:
            e.args = ('{} [{}]'.format(e.args[0], os.path.basename(path)),)
        raise e
    return cls.load(data, model, path, solver)


@spec("model.MultiModel", "load", props="C30", calls="loads load_from_dict", keep="loads load_from_dict")
def f(cls, data, model=None, path=None, solver=None):
    if isinstance(data, (str, bytes, os.PathLike)):
        path = data
        with open(path, 'r') as f:
            data = f.read()
        return cls.loads(data, model, path, solver)
    if isinstance(data, IOBase):
        data = data.read()
        return cls.loads(data, model, path, solver)
    return cls.load_from_dict(data, model=model, path=path, solver=solver)


@spec("model.MultiModel", "load_from_dict", props="C30", calls="load add_model", sets="start end delta", keep="load add_model", raises=True)
def f(cls, data, model=None, path=None, solver=None):
    data = copy.deepcopy(data)
    if model is None:
        model = cls()
    timestepper_data = data['timestepper']
    if path is not None:
        if os.path.exists(path) and (not os.path.isdir(path)):
            path = os.path.dirname(path)
    sub_model_paths = data['models']
    for sub_model_definition in sub_model_paths:
        sub_model_name = sub_model_definition['name']
        sub_model_filename = sub_model_definition.get('filename', None)
        sub_model_data = sub_model_definition.get('data', None)
        sub_model_solver = sub_model_definition.get('solver', solver)
        if sub_model_filename is not None and sub_model_data is not None:
            raise ValueError(f"Sub-model definition for '{sub_model_name}' cannot have both 'filename' and 'data' fields.")
        if sub_model_filename is not None:
            sub_model_path = sub_model_definition.get('path', None)
            if path is not None:
                sub_model_filename = os.path.join(path, sub_model_filename)
            sub_model = Model.load(sub_model_filename, path=sub_model_path, solver=sub_model_solver)
        else:
            if not sub_model_data is not None:
                raise ValueError(f"Sub-model definition for '{sub_model_name}' must have either 'filename' or 'data' field.")
            sub_model_path = sub_model_definition.get('path', None)
            if sub_model_path is None:
                sub_model_path = path
            elif path is not None:
                sub_model_path = os.path.join(path, sub_model_path)
            sub_model = Model.load(sub_model_data, path=sub_model_path, solver=sub_model_solver)
        sub_model.timestepper.start = timestepper_data['start']
        sub_model.timestepper.end = timestepper_data['end']
        sub_model.timestepper.delta = timestepper_data['timestep']
        model.add_model(sub_model_name, sub_model)
    return model


@spec("model.MultiModel", "get dirty", props="C30")
def f(self):
    return any((model.dirty or model.timestepper.dirty for model in self.models.values()))


@spec("model.MultiModel", "_check_scenarios", props="C30")
def f(self):
    sizes = []
    names = []
    combinations = []
    for model in self.models.values():
        sizes.append([s.size for s in model.scenarios.scenarios])
        names.append([s.name for s in model.scenarios.scenarios])
        combinations.append([list(si.indices) for si in model.scenarios.get_combinations()])
    for size in sizes:
        if size != sizes[0]:
            raise ValueError(f'Sub-models have inconsistent scenario sizes: {sizes[0]} vs {size}')
    for name in names:
        if name != names[0]:
            warnings.warn(f'Sub-models have inconsistent scenario names: {names[0]} vs {name}')
    for combination in combinations:
        if combination != combinations[0]:
            raise ValueError(f'Sub-models have inconsistent combinations defined: {combinations[0]} vs {combination}')


@spec("model.MultiModel", "setup", props="C30", calls="setup concat to_csv", selfcalls="_check_scenarios", keep="_check_scenarios setup")
def f(self, profile=False, profile_dump_filename=None):
    profilers = {}
    for name, model in self.models.items():
        profiler = model.setup(profile=profile)
        if profiler is not None:
            profilers[name] = profiler
    if len(profilers) > 0 and profile_dump_filename is not None:
        df = pandas.concat({n: p.to_dataframe() for n, p in profilers.items()}, names=['model', 'phase', 'class_name', 'name'])
        df.to_csv(profile_dump_filename)
    self._check_scenarios()


@spec("model.MultiModel", "reset", props="C30", calls="reset", keep="reset")
def f(self):
    for model in self.models.values():
        model.reset()


@spec("model.MultiModel", "_step", props="C30", calls="before solve after", keep="before solve after")
def f(self):
    rets = []
    for name, model in self.models.items():
        model.before()
        ret = model.solve()
        rets.append(ret)
        model.after()
    return rets


@spec("model.MultiModel", "run", props="C30", calls="finish", selfcalls="setup reset _step", keep="setup reset _step finish")
def f(self):
    t0 = time.time()
    timestep = None
    timesteppers = [m.timestepper for m in self.models.values()]
    try:
        if self.dirty:
            self.setup()
        else:
            self.reset()
        t1 = time.time()
        for timesteps in zip(*timesteppers):
            for model, timestep in zip(self.models.values(), timesteps):
                if timestep.datetime != timesteps[0].datetime:
                    raise RuntimeError('Timesteps are not synchronised across all sub-models.')
                model.timestep = timestep
            _ = self._step()
        t2 = time.time()
    except BaseException:
        for model in self.models.values():
            try:
                model.finish()
            except Exception:
                pass
        raise
    else:
        for model in self.models.values():
            model.finish()
    t3 = time.time()
    return




@spec("utils.bisect.BisectionSearchModel", "load_from_dict", props="C29", calls="super.load_from_dict", sets="bisect_parameter bisect_epsilon error_on_infeasible")
def f(cls, data, model=None, path=None, solver=None, **kwargs):
    model = super().load_from_dict(data, model=model, path=path, solver=solver, **kwargs)
    try:
        bisect_data = data["bisection"]
    except KeyError:
        pass
    else:
        model.bisect_parameter = bisect_data.get("parameter", None)
        model.bisect_epsilon = bisect_data.get("epsilon", None)
        model.error_on_infeasible = bisect_data.get("error_on_infeasible", True)
    return model

"""The linear programme every solver has to build and solve."""




@spec('solvers.cython_glpk.CythonGLPKSolver', 'setup', props='C08', lp=True, cells='self.routes self.non_storages self.non_storages_with_constant_bounds self.non_storages_with_dynamic_bounds self.nodes_with_dynamic_cost self.storages self.virtual_storages self.aggregated self.aggregated_with_factors self.aggregated_with_dynamic_factors self.aggregated_with_constant_factors self.routes_cost self.routes_cost_indptr self.num_routes self.num_nodes self.num_scenarios self.all_nodes self.idx_col_routes self.idx_row_non_storages self.idx_row_cross_domain self.idx_row_storages self.idx_row_virtual_storages self.idx_row_aggregated self.idx_row_aggregated_min_max self.node_costs_arr self.node_flows_arr self.route_flows_arr')
def f(self, model):
    super().setup(model)
    self.all_nodes = list(sorted(model.graph.nodes(), key=lambda n: n.fully_qualified_name))
    if not self.all_nodes:
        raise ModelStructureError('Model is empty')
    for n, _node in enumerate(self.all_nodes):
        _node._AbstractNode__data = AbstractNodeData()
        _node._AbstractNode__data.id = n
        if isinstance(_node, BaseLink):
            _node._AbstractNode__data.is_link = True
    self.num_nodes = len(self.all_nodes)
    self.node_costs_arr = cvarray(shape=(self.num_nodes,), itemsize=sizeof('double'), format='d')
    self.node_flows_arr = cvarray(shape=(self.num_nodes,), itemsize=sizeof('double'), format='d')
    routes = model.find_all_routes(BaseInput, BaseOutput, valid=(BaseLink, BaseInput, BaseOutput))
    cross_domain_routes = model.find_all_routes(BaseOutput, BaseInput, max_length=2, domain_match='different')
    nodes_with_dynamic_cost = []
    non_storages = []
    non_storages_with_dynamic_bounds = []
    non_storages_with_constant_bounds = []
    storages = []
    virtual_storages = []
    aggregated_with_factors = []
    aggregated_with_dynamic_factors = []
    aggregated_with_constant_factors = []
    aggregated = []
    for some_node in self.all_nodes:
        if isinstance(some_node, (BaseInput, BaseLink, BaseOutput)):
            non_storages.append(some_node)
        elif isinstance(some_node, VirtualStorage):
            virtual_storages.append(some_node)
        elif isinstance(some_node, Storage):
            storages.append(some_node)
        elif isinstance(some_node, AggregatedNode):
            if some_node.factors is not None:
                aggregated_with_factors.append(some_node)
                some_node._AggregatedNode__agg_factor_data = AggNodeFactorData()
            aggregated.append(some_node)
    if len(routes) == 0:
        raise ModelStructureError('Model has no valid routes')
    if len(non_storages) == 0:
        raise ModelStructureError('Model has no non-storage nodes')
    self.num_routes = len(routes)
    self.num_scenarios = len(model.scenarios.combinations)
    if self.save_routes_flows:
        self.route_flows_arr = cvarray(shape=(self.num_scenarios, self.num_routes), itemsize=sizeof('double'), format='d')
    else:
        self.route_flows_arr = cvarray(shape=(self.num_routes,), itemsize=sizeof('double'), format='d')
    glp_erase_prob(self.prob)
    glp_set_obj_dir(self.prob, GLP_MIN)
    self.idx_col_routes = glp_add_cols(self.prob, __cast__('int', len(routes)))
    cross_domain_cols = {}
    for cross_domain_route in cross_domain_routes:
        output, input = cross_domain_route
        conv_factor = input.get_conversion_factor()
        input_cols = [(n, conv_factor) for n, route in enumerate(routes) if route[0] is input]
        if output in cross_domain_cols:
            cross_domain_cols[output].extend(input_cols)
        else:
            cross_domain_cols[output] = input_cols
    for col, route in enumerate(routes):
        glp_set_col_bnds(self.prob, self.idx_col_routes + col, GLP_LO, 0.0, DBL_MAX)
    self.idx_row_non_storages = glp_add_rows(self.prob, len(non_storages))
    if len(cross_domain_cols) > 0:
        self.idx_row_cross_domain = glp_add_rows(self.prob, len(cross_domain_cols))
    for some_node in self.all_nodes:
        try:
            fixed_cost = some_node.has_fixed_cost
        except AttributeError:
            fixed_cost = False
        if self.set_fixed_costs_once and fixed_cost:
            cost = some_node.get_cost(None)
            data = some_node._AbstractNode__data
            self.node_costs_arr[data.id] = cost
        else:
            nodes_with_dynamic_cost.append(some_node)
    cross_domain_row = 0
    for row, node in enumerate(non_storages):
        node._AbstractNode__data.row = row
        if isinstance(node, BaseInput):
            cols = [n for n, route in enumerate(routes) if route[0] is node]
        elif isinstance(node, BaseOutput):
            cols = [n for n, route in enumerate(routes) if route[-1] is node]
        else:
            cols = [n for n, route in enumerate(routes) if node in route]
        if len(cols) == 0:
            raise ModelStructureError(f'{node.__class__.__name__} node "{node.name}" is not part of any routes.')
        ind = __cast__('int*', malloc((1 + len(cols)) * sizeof('int')))
        val = __cast__('double*', malloc((1 + len(cols)) * sizeof('double')))
        for n, c in enumerate(cols):
            ind[1 + n] = 1 + c
            val[1 + n] = 1
        glp_set_mat_row(self.prob, self.idx_row_non_storages + row, len(cols), ind, val)
        glp_set_row_bnds(self.prob, self.idx_row_non_storages + row, GLP_FX, 0.0, 0.0)
        if self.set_fixed_flows_once and node.has_constant_flows:
            non_storages_with_constant_bounds.append(node)
        else:
            non_storages_with_dynamic_bounds.append(node)
        if node in cross_domain_cols:
            col_vals = cross_domain_cols[node]
            ind = __cast__('int*', malloc((1 + len(col_vals) + len(cols)) * sizeof('int')))
            val = __cast__('double*', malloc((1 + len(col_vals) + len(cols)) * sizeof('double')))
            for n, c in enumerate(cols):
                ind[1 + n] = 1 + c
                val[1 + n] = -1
            for n, (c, v) in enumerate(col_vals):
                ind[1 + n + len(cols)] = 1 + c
                val[1 + n + len(cols)] = 1.0 / v
            glp_set_mat_row(self.prob, self.idx_row_cross_domain + cross_domain_row, len(col_vals) + len(cols), ind, val)
            glp_set_row_bnds(self.prob, self.idx_row_cross_domain + cross_domain_row, GLP_FX, 0.0, 0.0)
            cross_domain_row += 1
    if len(storages):
        self.idx_row_storages = glp_add_rows(self.prob, len(storages))
    for row, storage in enumerate(storages):
        cols_output = [n for n, route in enumerate(routes) if route[-1] in storage.outputs and route[0] not in storage.inputs]
        cols_input = [n for n, route in enumerate(routes) if route[0] in storage.inputs and route[-1] not in storage.outputs]
        ind = __cast__('int*', malloc((1 + len(cols_output) + len(cols_input)) * sizeof('int')))
        val = __cast__('double*', malloc((1 + len(cols_output) + len(cols_input)) * sizeof('double')))
        for n, c in enumerate(cols_output):
            ind[1 + n] = self.idx_col_routes + c
            val[1 + n] = 1
        for n, c in enumerate(cols_input):
            ind[1 + len(cols_output) + n] = self.idx_col_routes + c
            val[1 + len(cols_output) + n] = -1
        glp_set_mat_row(self.prob, self.idx_row_storages + row, len(cols_output) + len(cols_input), ind, val)
    if len(virtual_storages):
        self.idx_row_virtual_storages = glp_add_rows(self.prob, len(virtual_storages))
    for row, storage in enumerate(virtual_storages):
        cols = {}
        for n, route in enumerate(routes):
            for some_node in route:
                try:
                    i = storage.nodes.index(some_node)
                except ValueError:
                    pass
                else:
                    try:
                        cols[n] += storage.factors[i]
                    except KeyError:
                        cols[n] = storage.factors[i]
        ind = __cast__('int*', malloc((1 + len(cols)) * sizeof('int')))
        val = __cast__('double*', malloc((1 + len(cols)) * sizeof('double')))
        for n, (c, f) in enumerate(cols.items()):
            ind[1 + n] = self.idx_col_routes + c
            val[1 + n] = -f
        glp_set_mat_row(self.prob, self.idx_row_virtual_storages + row, len(cols), ind, val)
    if len(aggregated_with_factors):
        self.idx_row_aggregated = self.idx_row_virtual_storages + len(virtual_storages)
    for agg_node in aggregated_with_factors:
        nodes = agg_node.nodes
        row = glp_add_rows(self.prob, len(agg_node.nodes) - 1)
        agg_node._AggregatedNode__agg_factor_data.row = row
        cols = []
        ind_ptr = [0]
        first_node_cols = [0] + [n + 1 for n, route in enumerate(routes) if nodes[0] in route]
        agg_node._AggregatedNode__agg_factor_data.node_ind = len(first_node_cols)
        for i, node in enumerate(nodes[1:]):
            cols.extend(first_node_cols + [n + 1 for n, route in enumerate(routes) if node in route])
            ind_ptr.append(len(cols))
        agg_node._AggregatedNode__agg_factor_data.ind_ptr = cvarray(shape=(len(ind_ptr),), itemsize=sizeof('int'), format='i')
        for i, v in enumerate(ind_ptr):
            agg_node._AggregatedNode__agg_factor_data.ind_ptr[i] = v
        agg_node._AggregatedNode__agg_factor_data.inds = cvarray(shape=(len(cols),), itemsize=sizeof('int'), format='i')
        agg_node._AggregatedNode__agg_factor_data.vals = cvarray(shape=(len(cols),), itemsize=sizeof('double'), format='d')
        for i, v in enumerate(cols):
            agg_node._AggregatedNode__agg_factor_data.inds[i] = v
            agg_node._AggregatedNode__agg_factor_data.vals[i] = 1.0
        for n in range(len(nodes) - 1):
            glp_set_row_bnds(self.prob, row + n, GLP_FX, 0.0, 0.0)
        if self.set_fixed_factors_once and agg_node.has_constant_factors:
            aggregated_with_constant_factors.append(agg_node)
        else:
            aggregated_with_dynamic_factors.append(agg_node)
    if aggregated:
        self.idx_row_aggregated_min_max = glp_add_rows(self.prob, len(aggregated))
    for row, agg_node in enumerate(aggregated):
        row = self.idx_row_aggregated_min_max + row
        nodes = agg_node.nodes
        weights = agg_node.flow_weights
        if weights is None:
            weights = [1.0] * len(nodes)
        matrix = {}
        for some_node, w in zip(nodes, weights):
            if isinstance(some_node, BaseInput):
                cols = [n for n, route in enumerate(routes) if route[0] is some_node]
            elif isinstance(some_node, BaseOutput):
                cols = [n for n, route in enumerate(routes) if route[-1] is some_node]
            else:
                cols = [n for n, route in enumerate(routes) if some_node in route]
            for n in cols:
                matrix[n] = matrix.get(n, 0.0) + w
        length = len(matrix)
        ind = __cast__('int*', malloc((1 + length) * sizeof('int')))
        val = __cast__('double*', malloc((1 + length) * sizeof('double')))
        for i, col in enumerate(sorted(matrix)):
            ind[1 + i] = 1 + col
            val[1 + i] = matrix[col]
        glp_set_mat_row(self.prob, row, length, ind, val)
        glp_set_row_bnds(self.prob, row, GLP_FX, 0.0, 0.0)
    routes_cost = []
    routes_cost_indptr = [0]
    for col, route in enumerate(routes):
        route_cost = []
        route_cost.append(route[0]._AbstractNode__data.id)
        for some_node in route[1:-1]:
            if isinstance(some_node, BaseLink):
                route_cost.append(some_node._AbstractNode__data.id)
        route_cost.append(route[-1]._AbstractNode__data.id)
        routes_cost.extend(route_cost)
        routes_cost_indptr.append(len(routes_cost))
    self.routes_cost_indptr = np.array(routes_cost_indptr, dtype=np.int32)
    self.routes_cost = np.array(routes_cost, dtype=np.int32)
    self.routes = routes
    self.non_storages = non_storages
    self.non_storages_with_constant_bounds = non_storages_with_constant_bounds
    self.non_storages_with_dynamic_bounds = non_storages_with_dynamic_bounds
    self.nodes_with_dynamic_cost = nodes_with_dynamic_cost
    self.storages = storages
    self.virtual_storages = virtual_storages
    self.aggregated = aggregated
    self.aggregated_with_factors = aggregated_with_factors
    self.aggregated_with_dynamic_factors = aggregated_with_dynamic_factors
    self.aggregated_with_constant_factors = aggregated_with_constant_factors


@spec('solvers.cython_glpk.CythonGLPKSolver', 'reset', props='C08', lp=True)
def f(self):
    self._update_nonstorage_constant_bounds()
    self._update_constant_agg_factors()


@spec('solvers.cython_glpk.CythonGLPKSolver', '_update_nonstorage_constant_bounds', props='C08', lp=True)
def f(self):
    if self.non_storages_with_constant_bounds is None:
        return 0
    for node in self.non_storages_with_constant_bounds:
        row = node._AbstractNode__data.row
        min_flow = inf_to_dbl_max(node.get_constant_min_flow())
        if abs(min_flow) < 1e-08:
            min_flow = 0.0
        max_flow = inf_to_dbl_max(node.get_constant_max_flow())
        if abs(max_flow) < 1e-08:
            max_flow = 0.0
        glp_set_row_bnds(self.prob, self.idx_row_non_storages + row, constraint_type(min_flow, max_flow), min_flow, max_flow)


@spec('solvers.cython_glpk.CythonGLPKSolver', '_update_constant_agg_factors', props='C08', lp=True)
def f(self):
    if self.aggregated_with_constant_factors is None:
        return 0
    for agg_node in self.aggregated_with_constant_factors:
        factors_norm = agg_node.get_factors_norm(None)
        agg_data = agg_node._AggregatedNode__agg_factor_data
        inds = agg_data.inds
        vals = agg_data.vals
        indptr_array = agg_data.ind_ptr
        for n in range(len(agg_node.nodes) - 1):
            ptr = indptr_array[n]
            length = indptr_array[n + 1] - ptr
            for i in range(ptr + agg_data.node_ind, ptr + length):
                vals[i] = -factors_norm[n + 1]
            set_mat_row_safe(self.prob, agg_data.row + n, length - 1, __addr__(inds[ptr]), __addr__(vals[ptr]))


@spec('solvers.cython_glpk.CythonGLPKSolver', 'solve', props='C08', lp=True)
def f(self, model):
    GLPKSolver.solve(self, model)
    for scenario_index in model.scenarios.combinations:
        self._solve_scenario(model, scenario_index)


@spec('solvers.cython_glpk.CythonGLPKSolver', '_solve_scenario', props='C08', lp=True, cases=[{'self.use_unsafe_api': True}, {'self.use_unsafe_api': False}], cells='self.route_flows_arr')
def f(self, model, scenario_index):
    timestep = model.timestep
    routes = self.routes
    nroutes = len(routes)
    non_storages = self.non_storages
    non_storages_with_dynamic_bounds = self.non_storages_with_dynamic_bounds
    storages = self.storages
    virtual_storages = self.virtual_storages
    aggregated = self.aggregated
    t0 = time.perf_counter()
    node_costs = self.node_costs_arr
    for _node in self.nodes_with_dynamic_cost:
        data = _node._AbstractNode__data
        node_costs[data.id] = _node.get_cost(scenario_index)
    for col in range(nroutes):
        cost = 0.0
        for indptr in range(self.routes_cost_indptr[col], self.routes_cost_indptr[col + 1]):
            node_id = self.routes_cost[indptr]
            cost += node_costs[node_id]
        if abs(cost) < 1e-08:
            cost = 0.0
        if self.use_unsafe_api:
            set_obj_coef_unsafe(self.prob, self.idx_col_routes + col, cost)
        else:
            set_obj_coef_safe(self.prob, self.idx_col_routes + col, cost)
    self.stats['objective_update'] += time.perf_counter() - t0
    t0 = time.perf_counter()
    for agg_node in self.aggregated_with_dynamic_factors:
        factors_norm = agg_node.get_factors_norm(scenario_index)
        agg_data = agg_node._AggregatedNode__agg_factor_data
        inds = agg_data.inds
        vals = agg_data.vals
        indptr_array = agg_data.ind_ptr
        for n in range(len(agg_node.nodes) - 1):
            ptr = indptr_array[n]
            length = indptr_array[n + 1] - ptr
            for i in range(ptr + agg_data.node_ind, ptr + length):
                vals[i] = -factors_norm[n + 1]
            if self.use_unsafe_api:
                set_mat_row_unsafe(self.prob, agg_data.row + n, length - 1, __addr__(inds[ptr]), __addr__(vals[ptr]))
            else:
                set_mat_row_safe(self.prob, agg_data.row + n, length - 1, __addr__(inds[ptr]), __addr__(vals[ptr]))
    self.stats['constraint_update_factors'] += time.perf_counter() - t0
    t0 = time.perf_counter()
    for node in non_storages_with_dynamic_bounds:
        row = node._AbstractNode__data.row
        min_flow = inf_to_dbl_max(node.get_min_flow(scenario_index))
        if abs(min_flow) < 1e-08:
            min_flow = 0.0
        max_flow = inf_to_dbl_max(node.get_max_flow(scenario_index))
        if abs(max_flow) < 1e-08:
            max_flow = 0.0
        if self.use_unsafe_api:
            set_row_bnds_unsafe(self.prob, self.idx_row_non_storages + row, constraint_type(min_flow, max_flow), min_flow, max_flow)
        else:
            set_row_bnds_safe(self.prob, self.idx_row_non_storages + row, constraint_type(min_flow, max_flow), min_flow, max_flow)
    for row, agg_node in enumerate(aggregated):
        min_flow = inf_to_dbl_max(agg_node.get_min_flow(scenario_index))
        if abs(min_flow) < 1e-08:
            min_flow = 0.0
        max_flow = inf_to_dbl_max(agg_node.get_max_flow(scenario_index))
        if abs(max_flow) < 1e-08:
            max_flow = 0.0
        if self.use_unsafe_api:
            set_row_bnds_unsafe(self.prob, self.idx_row_aggregated_min_max + row, constraint_type(min_flow, max_flow), min_flow, max_flow)
        else:
            set_row_bnds_safe(self.prob, self.idx_row_aggregated_min_max + row, constraint_type(min_flow, max_flow), min_flow, max_flow)
    self.stats['bounds_update_nonstorage'] += time.perf_counter() - t0
    t0 = time.perf_counter()
    for row, storage in enumerate(storages):
        max_volume = storage.get_max_volume(scenario_index)
        min_volume = storage.get_min_volume(scenario_index)
        if max_volume == min_volume:
            if self.use_unsafe_api:
                set_row_bnds_unsafe(self.prob, self.idx_row_storages + row, GLP_FX, 0.0, 0.0)
            else:
                set_row_bnds_safe(self.prob, self.idx_row_storages + row, GLP_FX, 0.0, 0.0)
        else:
            avail_volume = max(storage._volume[scenario_index.global_id] - min_volume, 0.0)
            lb = -avail_volume / timestep.days
            ub = max(max_volume - storage._volume[scenario_index.global_id], 0.0) / timestep.days
            if abs(lb) < 1e-08:
                lb = 0.0
            if abs(ub) < 1e-08:
                ub = 0.0
            if self.use_unsafe_api:
                set_row_bnds_unsafe(self.prob, self.idx_row_storages + row, constraint_type(lb, ub), lb, ub)
            else:
                set_row_bnds_safe(self.prob, self.idx_row_storages + row, constraint_type(lb, ub), lb, ub)
    for row, storage in enumerate(virtual_storages):
        max_volume = storage.get_max_volume(scenario_index)
        min_volume = storage.get_min_volume(scenario_index)
        if max_volume == min_volume:
            if self.use_unsafe_api:
                set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages + row, GLP_FX, 0.0, 0.0)
            else:
                set_row_bnds_safe(self.prob, self.idx_row_virtual_storages + row, GLP_FX, 0.0, 0.0)
        elif not storage.active:
            if self.use_unsafe_api:
                set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages + row, GLP_FR, -DBL_MAX, DBL_MAX)
            else:
                set_row_bnds_safe(self.prob, self.idx_row_virtual_storages + row, GLP_FR, -DBL_MAX, DBL_MAX)
        else:
            avail_volume = max(storage._volume[scenario_index.global_id] - min_volume, 0.0)
            lb = -avail_volume / timestep.days
            ub = max(max_volume - storage._volume[scenario_index.global_id], 0.0) / timestep.days
            if abs(lb) < 1e-08:
                lb = 0.0
            if abs(ub) < 1e-08:
                ub = 0.0
            if self.use_unsafe_api:
                set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages + row, constraint_type(lb, ub), lb, ub)
            else:
                set_row_bnds_safe(self.prob, self.idx_row_virtual_storages + row, constraint_type(lb, ub), lb, ub)
    self.stats['bounds_update_storage'] += time.perf_counter() - t0
    t0 = time.perf_counter()
    self.basis_manager.set_basis(self.prob, self.is_first_solve, scenario_index.global_id)
    if self.use_unsafe_api:
        simplex_ret = simplex_unsafe(self.prob, self.smcp)
    else:
        simplex_ret = simplex_safe(self.prob, self.smcp)
    status = glp_get_status(self.prob)
    if (status != GLP_OPT or simplex_ret != 0) and self.retry_solve:
        print('Retrying solve with new basis.')
        glp_std_basis(self.prob)
        if self.use_unsafe_api:
            simplex_ret = simplex_unsafe(self.prob, self.smcp)
        else:
            simplex_ret = simplex_safe(self.prob, self.smcp)
        status = glp_get_status(self.prob)
    if status != GLP_OPT or simplex_ret != 0:
        print('Simplex solve returned: {} ({})'.format(simplex_status_string[simplex_ret], simplex_ret))
        print('Simplex status: {} ({})'.format(status_string[status], status))
        print('Scenario ID: {}'.format(scenario_index.global_id))
        print('Timestep index: {}'.format(timestep.index))
        self.dump_mps(b'pywr_glpk_debug.mps')
        self.dump_lp(b'pywr_glpk_debug.lp')
        self.smcp.msg_lev = GLP_MSG_DBG
        if self.use_unsafe_api:
            simplex_ret = simplex_unsafe(self.prob, self.smcp)
        else:
            simplex_ret = simplex_safe(self.prob, self.smcp)
        status = glp_get_status(self.prob)
        raise RuntimeError('Simplex solver failed with message: "{}", status: "{}".'.format(simplex_status_string[simplex_ret], status_string[status]))
    self.basis_manager.save_basis(self.prob, scenario_index.global_id)
    self.stats['lp_solve'] += time.perf_counter() - t0
    t0 = time.perf_counter()
    if self.save_routes_flows:
        route_flows = self.route_flows_arr[scenario_index.global_id, :]
    else:
        route_flows = self.route_flows_arr
    for col in range(0, self.num_routes):
        route_flows[col] = glp_get_col_prim(self.prob, col + 1)
    node_flows = self.node_flows_arr
    node_flows[:] = 0.0
    for n, route in enumerate(routes):
        flow = route_flows[n]
        if flow == 0:
            continue
        length = len(route)
        for m, _node in enumerate(route):
            data = _node._AbstractNode__data
            if m == 0 or m == length - 1 or data.is_link:
                node_flows[data.id] += flow
    for n in range(0, self.num_nodes):
        _node = self.all_nodes[n]
        _node.commit(scenario_index.global_id, node_flows[n])
    self.stats['result_update'] += time.perf_counter() - t0


@spec('solvers.cython_glpk.CythonGLPKEdgeSolver', 'setup', props='C08', lp=True, cells='self.non_storages self.non_storages_with_constant_bounds self.non_storages_with_dynamic_bounds self.nodes_with_dynamic_cost self.storages self.virtual_storages self.aggregated self.aggregated_with_factors self.aggregated_with_dynamic_factors self.aggregated_with_constant_factors self.num_edges self.num_nodes self.num_scenarios self.all_nodes self.all_edges self.idx_col_edges self.idx_row_non_storages self.idx_row_cross_domain self.idx_row_link_mass_bal self.idx_row_storages self.idx_row_virtual_storages self.idx_row_aggregated_min_max self.node_flows_arr self.edge_cost_arr self.edge_fixed_cost_arr self.edge_flows_arr')
def f(self, model):
    super().setup(model)
    self.all_nodes = list(sorted(model.graph.nodes(), key=lambda n: n.fully_qualified_name))
    self.all_edges = edges = list(model.graph.edges())
    if not self.all_nodes or not self.all_edges:
        raise ModelStructureError('Model is empty')
    for n, _node in enumerate(self.all_nodes):
        _node._AbstractNode__data = AbstractNodeData()
        _node._AbstractNode__data.id = n
        _node._AbstractNode__data.in_edges = []
        _node._AbstractNode__data.out_edges = []
        if isinstance(_node, BaseLink):
            _node._AbstractNode__data.is_link = True
    self.num_nodes = len(self.all_nodes)
    self.edge_cost_arr = cvarray(shape=(len(self.all_edges),), itemsize=sizeof('double'), format='d')
    self.edge_fixed_cost_arr = cvarray(shape=(len(self.all_edges),), itemsize=sizeof('double'), format='d')
    self.edge_flows_arr = cvarray(shape=(len(self.all_edges),), itemsize=sizeof('double'), format='d')
    self.node_flows_arr = cvarray(shape=(self.num_nodes,), itemsize=sizeof('double'), format='d')
    cross_domain_routes = model.find_all_routes(BaseOutput, BaseInput, max_length=2, domain_match='different')
    nodes_with_dynamic_cost = []
    link_nodes = []
    non_storages = []
    non_storages_with_dynamic_bounds = []
    non_storages_with_constant_bounds = []
    storages = []
    virtual_storages = []
    aggregated_with_factors = []
    aggregated_with_dynamic_factors = []
    aggregated_with_constant_factors = []
    aggregated = []
    for some_node in self.all_nodes:
        if isinstance(some_node, (BaseInput, BaseLink, BaseOutput)):
            non_storages.append(some_node)
            if isinstance(some_node, BaseLink):
                link_nodes.append(some_node)
        elif isinstance(some_node, VirtualStorage):
            virtual_storages.append(some_node)
        elif isinstance(some_node, Storage):
            storages.append(some_node)
        elif isinstance(some_node, AggregatedNode):
            if some_node.factors is not None:
                aggregated_with_factors.append(some_node)
                some_node._AggregatedNode__agg_factor_data = AggNodeFactorData()
            aggregated.append(some_node)
    if len(non_storages) == 0:
        raise ModelStructureError('Model has no non-storage nodes')
    self.num_edges = len(edges)
    self.num_scenarios = len(model.scenarios.combinations)
    self.num_storages = len(storages)
    glp_erase_prob(self.prob)
    glp_set_obj_dir(self.prob, GLP_MIN)
    self.idx_col_edges = glp_add_cols(self.prob, self.num_edges)
    for row, (start_node, end_node) in enumerate(self.all_edges):
        if start_node.domain != end_node.domain:
            continue
        start_node._AbstractNode__data.out_edges.append(row)
        end_node._AbstractNode__data.in_edges.append(row)
    cross_domain_cols = {}
    for cross_domain_route in cross_domain_routes:
        output, input = cross_domain_route
        conv_factor = input.get_conversion_factor()
        input_cols = [(n, conv_factor) for n in input._AbstractNode__data.out_edges]
        if output in cross_domain_cols:
            cross_domain_cols[output].extend(input_cols)
        else:
            cross_domain_cols[output] = input_cols
    for row, edge in enumerate(edges):
        glp_set_col_bnds(self.prob, self.idx_col_edges + row, GLP_LO, 0.0, DBL_MAX)
    self.idx_row_non_storages = glp_add_rows(self.prob, len(non_storages))
    if len(cross_domain_cols) > 0:
        self.idx_row_cross_domain = glp_add_rows(self.prob, len(cross_domain_cols))
    self.edge_fixed_cost_arr[...] = 0.0
    for some_node in self.all_nodes:
        try:
            fixed_cost = some_node.has_fixed_cost
        except AttributeError:
            fixed_cost = False
        if self.set_fixed_costs_once and fixed_cost:
            cost = some_node.get_cost(None)
            data = some_node._AbstractNode__data
            if data.is_link:
                cost /= 2
            for col in data.in_edges:
                self.edge_fixed_cost_arr[col] += cost
            for col in data.out_edges:
                self.edge_fixed_cost_arr[col] += cost
        else:
            nodes_with_dynamic_cost.append(some_node)
    cross_domain_row = 0
    for row, node in enumerate(non_storages):
        node._AbstractNode__data.row = row
        if isinstance(node, BaseInput):
            cols = node._AbstractNode__data.out_edges
            if len(node._AbstractNode__data.in_edges) != 0:
                raise ModelStructureError(f'Input node "{node.name}" should not have any upstream connections.')
        elif isinstance(node, BaseOutput):
            cols = node._AbstractNode__data.in_edges
            if len(node._AbstractNode__data.out_edges) != 0:
                raise ModelStructureError(f'Output node "{node.name}" should not have any downstream connections.')
        else:
            cols = node._AbstractNode__data.out_edges
        if len(cols) == 0:
            raise ModelStructureError(f'{node.__class__.__name__} node "{node.name}" does not have any valid connections.')
        ind = __cast__('int*', malloc((1 + len(cols)) * sizeof('int')))
        val = __cast__('double*', malloc((1 + len(cols)) * sizeof('double')))
        for n, c in enumerate(cols):
            ind[1 + n] = 1 + c
            val[1 + n] = 1
        glp_set_mat_row(self.prob, self.idx_row_non_storages + row, len(cols), ind, val)
        glp_set_row_bnds(self.prob, self.idx_row_non_storages + row, GLP_FX, 0.0, 0.0)
        if self.set_fixed_flows_once and node.has_constant_flows:
            non_storages_with_constant_bounds.append(node)
        else:
            non_storages_with_dynamic_bounds.append(node)
        if node in cross_domain_cols:
            col_vals = cross_domain_cols[node]
            ind = __cast__('int*', malloc((1 + len(col_vals) + len(cols)) * sizeof('int')))
            val = __cast__('double*', malloc((1 + len(col_vals) + len(cols)) * sizeof('double')))
            for n, c in enumerate(cols):
                ind[1 + n] = 1 + c
                val[1 + n] = -1
            for n, (c, v) in enumerate(col_vals):
                ind[1 + n + len(cols)] = 1 + c
                val[1 + n + len(cols)] = 1.0 / v
            glp_set_mat_row(self.prob, self.idx_row_cross_domain + cross_domain_row, len(col_vals) + len(cols), ind, val)
            glp_set_row_bnds(self.prob, self.idx_row_cross_domain + cross_domain_row, GLP_FX, 0.0, 0.0)
            cross_domain_row += 1
    if len(link_nodes) > 0:
        self.idx_row_link_mass_bal = glp_add_rows(self.prob, len(link_nodes))
    for row, some_node in enumerate(link_nodes):
        in_cols = some_node._AbstractNode__data.in_edges
        out_cols = some_node._AbstractNode__data.out_edges
        ind = __cast__('int*', malloc((1 + len(in_cols) + len(out_cols)) * sizeof('int')))
        val = __cast__('double*', malloc((1 + len(in_cols) + len(out_cols)) * sizeof('double')))
        for n, c in enumerate(in_cols):
            ind[1 + n] = 1 + c
            val[1 + n] = 1
        for n, c in enumerate(out_cols):
            ind[1 + len(in_cols) + n] = 1 + c
            val[1 + len(in_cols) + n] = -1
        glp_set_mat_row(self.prob, self.idx_row_link_mass_bal + row, len(in_cols) + len(out_cols), ind, val)
        glp_set_row_bnds(self.prob, self.idx_row_link_mass_bal + row, GLP_FX, 0.0, 0.0)
    if len(storages):
        self.idx_row_storages = glp_add_rows(self.prob, len(storages))
    for row, storage in enumerate(storages):
        cols_output = []
        for output in storage.outputs:
            cols_output.extend(output._AbstractNode__data.in_edges)
        cols_input = []
        for input in storage.inputs:
            cols_input.extend(input._AbstractNode__data.out_edges)
        ind = __cast__('int*', malloc((1 + len(cols_output) + len(cols_input)) * sizeof('int')))
        val = __cast__('double*', malloc((1 + len(cols_output) + len(cols_input)) * sizeof('double')))
        for n, c in enumerate(cols_output):
            ind[1 + n] = self.idx_col_edges + c
            val[1 + n] = 1
        for n, c in enumerate(cols_input):
            ind[1 + len(cols_output) + n] = self.idx_col_edges + c
            val[1 + len(cols_output) + n] = -1
        glp_set_mat_row(self.prob, self.idx_row_storages + row, len(cols_output) + len(cols_input), ind, val)
    if len(virtual_storages):
        self.idx_row_virtual_storages = glp_add_rows(self.prob, len(virtual_storages))
    for row, storage in enumerate(virtual_storages):
        cols = {}
        for i, some_node in enumerate(storage.nodes):
            if isinstance(some_node, BaseOutput):
                node_cols = some_node._AbstractNode__data.in_edges
            else:
                node_cols = some_node._AbstractNode__data.out_edges
            for n in node_cols:
                try:
                    cols[n] += storage.factors[i]
                except KeyError:
                    cols[n] = storage.factors[i]
        ind = __cast__('int*', malloc((1 + len(cols)) * sizeof('int')))
        val = __cast__('double*', malloc((1 + len(cols)) * sizeof('double')))
        for n, (c, f) in enumerate(cols.items()):
            ind[1 + n] = self.idx_col_edges + c
            val[1 + n] = -f
        glp_set_mat_row(self.prob, self.idx_row_virtual_storages + row, len(cols), ind, val)
    if len(aggregated_with_factors):
        self.idx_row_aggregated_with_factors = self.idx_row_virtual_storages + len(virtual_storages)
    for agg_node in aggregated_with_factors:
        nodes = agg_node.nodes
        row = glp_add_rows(self.prob, len(agg_node.nodes) - 1)
        agg_node._AggregatedNode__agg_factor_data.row = row
        cols = []
        ind_ptr = [0]
        if isinstance(nodes[0], BaseOutput):
            first_node_cols = [0] + [c + 1 for c in nodes[0]._AbstractNode__data.in_edges]
        else:
            first_node_cols = [0] + [c + 1 for c in nodes[0]._AbstractNode__data.out_edges]
        agg_node._AggregatedNode__agg_factor_data.node_ind = len(first_node_cols)
        for i, some_node in enumerate(nodes[1:]):
            if isinstance(some_node, BaseOutput):
                cols.extend(first_node_cols + [c + 1 for c in some_node._AbstractNode__data.in_edges])
            else:
                cols.extend(first_node_cols + [c + 1 for c in some_node._AbstractNode__data.out_edges])
            ind_ptr.append(len(cols))
        agg_node._AggregatedNode__agg_factor_data.ind_ptr = cvarray(shape=(len(ind_ptr),), itemsize=sizeof('int'), format='i')
        for i, v in enumerate(ind_ptr):
            agg_node._AggregatedNode__agg_factor_data.ind_ptr[i] = v
        agg_node._AggregatedNode__agg_factor_data.inds = cvarray(shape=(len(cols),), itemsize=sizeof('int'), format='i')
        agg_node._AggregatedNode__agg_factor_data.vals = cvarray(shape=(len(cols),), itemsize=sizeof('double'), format='d')
        for i, v in enumerate(cols):
            agg_node._AggregatedNode__agg_factor_data.inds[i] = v
            agg_node._AggregatedNode__agg_factor_data.vals[i] = 1.0
        for n in range(len(nodes) - 1):
            glp_set_row_bnds(self.prob, row + n, GLP_FX, 0.0, 0.0)
        if self.set_fixed_factors_once and agg_node.has_constant_factors:
            aggregated_with_constant_factors.append(agg_node)
        else:
            aggregated_with_dynamic_factors.append(agg_node)
    if aggregated:
        self.idx_row_aggregated_min_max = glp_add_rows(self.prob, len(aggregated))
    for row, agg_node in enumerate(aggregated):
        row = self.idx_row_aggregated_min_max + row
        nodes = agg_node.nodes
        weights = agg_node.flow_weights
        if weights is None:
            weights = [1.0] * len(nodes)
        matrix = {}
        for some_node, w in zip(nodes, weights):
            if isinstance(some_node, BaseOutput):
                node_cols = some_node._AbstractNode__data.in_edges
            else:
                node_cols = some_node._AbstractNode__data.out_edges
            for n in node_cols:
                matrix[n] = matrix.get(n, 0.0) + w
        length = len(matrix)
        ind = __cast__('int*', malloc((1 + length) * sizeof('int')))
        val = __cast__('double*', malloc((1 + length) * sizeof('double')))
        for i, col in enumerate(sorted(matrix)):
            ind[1 + i] = 1 + col
            val[1 + i] = matrix[col]
        glp_set_mat_row(self.prob, row, length, ind, val)
        glp_set_row_bnds(self.prob, row, GLP_FX, 0.0, 0.0)
    self.non_storages = non_storages
    self.non_storages_with_dynamic_bounds = non_storages_with_dynamic_bounds
    self.non_storages_with_constant_bounds = non_storages_with_constant_bounds
    self.nodes_with_dynamic_cost = nodes_with_dynamic_cost
    self.storages = storages
    self.virtual_storages = virtual_storages
    self.aggregated = aggregated
    self.aggregated_with_factors = aggregated_with_factors
    self.aggregated_with_dynamic_factors = aggregated_with_dynamic_factors
    self.aggregated_with_constant_factors = aggregated_with_constant_factors


@spec('solvers.cython_glpk.CythonGLPKEdgeSolver', 'reset', props='C08', lp=True)
def f(self):
    self._update_nonstorage_constant_bounds()
    self._update_constant_agg_factors()


@spec('solvers.cython_glpk.CythonGLPKEdgeSolver', '_update_nonstorage_constant_bounds', props='C08', lp=True)
def f(self):
    if self.non_storages_with_constant_bounds is None:
        return 0
    for node in self.non_storages_with_constant_bounds:
        row = node._AbstractNode__data.row
        min_flow = inf_to_dbl_max(node.get_constant_min_flow())
        if abs(min_flow) < 1e-08:
            min_flow = 0.0
        max_flow = inf_to_dbl_max(node.get_constant_max_flow())
        if abs(max_flow) < 1e-08:
            max_flow = 0.0
        glp_set_row_bnds(self.prob, self.idx_row_non_storages + row, constraint_type(min_flow, max_flow), min_flow, max_flow)


@spec('solvers.cython_glpk.CythonGLPKEdgeSolver', '_update_constant_agg_factors', props='C08', lp=True)
def f(self):
    if self.aggregated_with_constant_factors is None:
        return 0
    for agg_node in self.aggregated_with_constant_factors:
        factors_norm = agg_node.get_factors_norm(None)
        agg_data = agg_node._AggregatedNode__agg_factor_data
        inds = agg_data.inds
        vals = agg_data.vals
        indptr_array = agg_data.ind_ptr
        for n in range(len(agg_node.nodes) - 1):
            ptr = indptr_array[n]
            length = indptr_array[n + 1] - ptr
            for i in range(ptr + agg_data.node_ind, ptr + length):
                vals[i] = -factors_norm[n + 1]
            set_mat_row_safe(self.prob, agg_data.row + n, length - 1, __addr__(inds[ptr]), __addr__(vals[ptr]))


@spec('solvers.cython_glpk.CythonGLPKEdgeSolver', 'solve', props='C08', lp=True)
def f(self, model):
    GLPKSolver.solve(self, model)
    for scenario_index in model.scenarios.combinations:
        self._solve_scenario(model, scenario_index)


@spec('solvers.cython_glpk.CythonGLPKEdgeSolver', '_solve_scenario', props='C08', lp=True, cases=[{'self.use_unsafe_api': True}, {'self.use_unsafe_api': False}], cells='self.route_flows_arr')
def f(self, model, scenario_index):
    timestep = model.timestep
    edges = self.all_edges
    nedges = self.num_edges
    non_storages = self.non_storages
    non_storages_with_dynamic_bounds = self.non_storages_with_dynamic_bounds
    storages = self.storages
    virtual_storages = self.virtual_storages
    aggregated = self.aggregated
    t0 = time.perf_counter()
    fixed_edge_costs = self.edge_fixed_cost_arr
    edge_costs = self.edge_cost_arr
    for col in range(nedges):
        edge_costs[col] = fixed_edge_costs[col]
    for _node in self.nodes_with_dynamic_cost:
        cost = _node.get_cost(scenario_index)
        data = _node._AbstractNode__data
        if data.is_link:
            cost /= 2
        for col in data.in_edges:
            edge_costs[col] += cost
        for col in data.out_edges:
            edge_costs[col] += cost
    for col in range(nedges):
        if self.use_unsafe_api:
            set_obj_coef_unsafe(self.prob, self.idx_col_edges + col, edge_costs[col])
        else:
            set_obj_coef_safe(self.prob, self.idx_col_edges + col, edge_costs[col])
    self.stats['objective_update'] += time.perf_counter() - t0
    t0 = time.perf_counter()
    for agg_node in self.aggregated_with_dynamic_factors:
        factors_norm = agg_node.get_factors_norm(scenario_index)
        agg_data = agg_node._AggregatedNode__agg_factor_data
        inds = agg_data.inds
        vals = agg_data.vals
        indptr_array = agg_data.ind_ptr
        for n in range(len(agg_node.nodes) - 1):
            ptr = indptr_array[n]
            length = indptr_array[n + 1] - ptr
            for i in range(ptr + agg_data.node_ind, ptr + length):
                vals[i] = -factors_norm[n + 1]
            if self.use_unsafe_api:
                set_mat_row_unsafe(self.prob, agg_data.row + n, length - 1, __addr__(inds[ptr]), __addr__(vals[ptr]))
            else:
                set_mat_row_safe(self.prob, agg_data.row + n, length - 1, __addr__(inds[ptr]), __addr__(vals[ptr]))
    self.stats['constraint_update_factors'] += time.perf_counter() - t0
    t0 = time.perf_counter()
    for node in non_storages_with_dynamic_bounds:
        row = node._AbstractNode__data.row
        min_flow = inf_to_dbl_max(node.get_min_flow(scenario_index))
        if abs(min_flow) < 1e-08:
            min_flow = 0.0
        max_flow = inf_to_dbl_max(node.get_max_flow(scenario_index))
        if abs(max_flow) < 1e-08:
            max_flow = 0.0
        if self.use_unsafe_api:
            set_row_bnds_unsafe(self.prob, self.idx_row_non_storages + row, constraint_type(min_flow, max_flow), min_flow, max_flow)
        else:
            set_row_bnds_safe(self.prob, self.idx_row_non_storages + row, constraint_type(min_flow, max_flow), min_flow, max_flow)
    for row, agg_node in enumerate(aggregated):
        min_flow = inf_to_dbl_max(agg_node.get_min_flow(scenario_index))
        if abs(min_flow) < 1e-08:
            min_flow = 0.0
        max_flow = inf_to_dbl_max(agg_node.get_max_flow(scenario_index))
        if abs(max_flow) < 1e-08:
            max_flow = 0.0
        if self.use_unsafe_api:
            set_row_bnds_unsafe(self.prob, self.idx_row_aggregated_min_max + row, constraint_type(min_flow, max_flow), min_flow, max_flow)
        else:
            set_row_bnds_safe(self.prob, self.idx_row_aggregated_min_max + row, constraint_type(min_flow, max_flow), min_flow, max_flow)
    self.stats['bounds_update_nonstorage'] += time.perf_counter() - t0
    t0 = time.perf_counter()
    for row, storage in enumerate(storages):
        max_volume = storage.get_max_volume(scenario_index)
        min_volume = storage.get_min_volume(scenario_index)
        if max_volume == min_volume:
            if self.use_unsafe_api:
                set_row_bnds_unsafe(self.prob, self.idx_row_storages + row, GLP_FX, 0.0, 0.0)
            else:
                set_row_bnds_safe(self.prob, self.idx_row_storages + row, GLP_FX, 0.0, 0.0)
        else:
            avail_volume = max(storage._volume[scenario_index.global_id] - min_volume, 0.0)
            lb = -avail_volume / timestep.days
            ub = max(max_volume - storage._volume[scenario_index.global_id], 0.0) / timestep.days
            if abs(lb) < 1e-08:
                lb = 0.0
            if abs(ub) < 1e-08:
                ub = 0.0
            if self.use_unsafe_api:
                set_row_bnds_unsafe(self.prob, self.idx_row_storages + row, constraint_type(lb, ub), lb, ub)
            else:
                set_row_bnds_safe(self.prob, self.idx_row_storages + row, constraint_type(lb, ub), lb, ub)
    for row, storage in enumerate(virtual_storages):
        max_volume = storage.get_max_volume(scenario_index)
        min_volume = storage.get_min_volume(scenario_index)
        if max_volume == min_volume:
            if self.use_unsafe_api:
                set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages + row, GLP_FX, 0.0, 0.0)
            else:
                set_row_bnds_safe(self.prob, self.idx_row_virtual_storages + row, GLP_FX, 0.0, 0.0)
        elif not storage.active:
            if self.use_unsafe_api:
                set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages + row, GLP_FR, -DBL_MAX, DBL_MAX)
            else:
                set_row_bnds_safe(self.prob, self.idx_row_virtual_storages + row, GLP_FR, -DBL_MAX, DBL_MAX)
        else:
            avail_volume = max(storage._volume[scenario_index.global_id] - min_volume, 0.0)
            lb = -avail_volume / timestep.days
            ub = max(max_volume - storage._volume[scenario_index.global_id], 0.0) / timestep.days
            if abs(lb) < 1e-08:
                lb = 0.0
            if abs(ub) < 1e-08:
                ub = 0.0
            if self.use_unsafe_api:
                set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages + row, constraint_type(lb, ub), lb, ub)
            else:
                set_row_bnds_safe(self.prob, self.idx_row_virtual_storages + row, constraint_type(lb, ub), lb, ub)
    self.stats['bounds_update_storage'] += time.perf_counter() - t0
    t0 = time.perf_counter()
    self.basis_manager.set_basis(self.prob, self.is_first_solve, scenario_index.global_id)
    if self.use_unsafe_api:
        simplex_ret = simplex_unsafe(self.prob, self.smcp)
    else:
        simplex_ret = simplex_safe(self.prob, self.smcp)
    status = glp_get_status(self.prob)
    if (status != GLP_OPT or simplex_ret != 0) and self.retry_solve:
        print('Retrying solve with new basis.')
        glp_std_basis(self.prob)
        if self.use_unsafe_api:
            simplex_ret = simplex_unsafe(self.prob, self.smcp)
        else:
            simplex_ret = simplex_safe(self.prob, self.smcp)
        status = glp_get_status(self.prob)
    if status != GLP_OPT or simplex_ret != 0:
        print('Simplex solve returned: {} ({})'.format(simplex_status_string[simplex_ret], simplex_ret))
        print('Simplex status: {} ({})'.format(status_string[status], status))
        print('Scenario ID: {}'.format(scenario_index.global_id))
        print('Timestep index: {}'.format(timestep.index))
        self.dump_mps(b'pywr_glpk_debug.mps')
        self.dump_lp(b'pywr_glpk_debug.lp')
        self.smcp.msg_lev = GLP_MSG_DBG
        if self.use_unsafe_api:
            simplex_ret = simplex_unsafe(self.prob, self.smcp)
        else:
            simplex_ret = simplex_safe(self.prob, self.smcp)
        status = glp_get_status(self.prob)
        raise RuntimeError('Simplex solver failed with message: "{}", status: "{}".'.format(simplex_status_string[simplex_ret], status_string[status]))
    self.basis_manager.save_basis(self.prob, scenario_index.global_id)
    self.stats['lp_solve'] += time.perf_counter() - t0
    t0 = time.perf_counter()
    edge_flows = self.edge_flows_arr
    for col in range(self.num_edges):
        edge_flows[col] = glp_get_col_prim(self.prob, col + 1)
    node_flows = self.node_flows_arr
    node_flows[:] = 0.0
    for n, edge in enumerate(edges):
        flow = edge_flows[n]
        if flow == 0:
            continue
        for _node in edge:
            data = _node._AbstractNode__data
            if data.is_link:
                node_flows[data.id] += flow / 2
            else:
                node_flows[data.id] += flow
    for n in range(0, self.num_nodes):
        _node = self.all_nodes[n]
        _node.commit(scenario_index.global_id, node_flows[n])
    self.stats['result_update'] += time.perf_counter() - t0


@spec('solvers.cython_lpsolve.CythonLPSolveSolver', 'setup', props='C08', lp=True, cells='self.routes self.storages self.virtual_storages self.aggregated self.num_routes self.num_scenarios self.idx_col_routes self.idx_row_cross_domain self.idx_row_storages self.idx_row_virtual_storages self.idx_row_aggregated self.idx_row_aggregated_min_max self.idx_col_demands self.idx_row_supplys self.supplys self.demands self.aggregated_min_max self.route_flows_arr')
def f(self, model):
    if not model.graph.nodes():
        raise ModelStructureError('Model is empty')
    routes = model.find_all_routes(BaseInput, BaseOutput, valid=(BaseLink, BaseInput, BaseOutput))
    cross_domain_routes = model.find_all_routes(BaseOutput, BaseInput, max_length=2, domain_match='different')
    supplys = []
    demands = []
    storages = []
    virtual_storages = []
    aggregated = []
    aggregated_min_max = []
    for some_node in model.graph.nodes():
        if isinstance(some_node, (BaseInput, BaseLink)):
            supplys.append(some_node)
        if isinstance(some_node, BaseOutput):
            demands.append(some_node)
        if isinstance(some_node, VirtualStorage):
            virtual_storages.append(some_node)
        elif isinstance(some_node, Storage):
            storages.append(some_node)
        elif isinstance(some_node, AggregatedNode):
            if some_node.factors is not None:
                if not some_node.has_fixed_factors:
                    raise ValueError('{} has one or more factors defined by a parameter. This is not allowed                                         when using the lpsolve solver. Please use the glpk or glpk-edge solver                                         instead'.format(some_node.name))
                aggregated.append(some_node)
            aggregated_min_max.append(some_node)
    if len(routes) == 0:
        raise ModelStructureError('Model has no valid routes')
    if len(supplys) + len(demands) == 0:
        raise ModelStructureError('Model has no non-storage nodes')
    ret = resize_lp(self.prob, 0, 0)
    if ret == FALSE:
        return -1
    set_minim(self.prob)
    self.num_routes = len(routes)
    self.num_scenarios = len(model.scenarios.combinations)
    if self.save_routes_flows:
        self.route_flows_arr = cvarray(shape=(self.num_scenarios, self.num_routes), itemsize=sizeof('double'), format='d')
    else:
        self.route_flows_arr = cvarray(shape=(self.num_routes,), itemsize=sizeof('double'), format='d')
    self.idx_col_routes = get_Norig_columns(self.prob) + 1
    self.idx_col_demands = self.idx_col_routes + len(routes)
    ret = resize_lp(self.prob, 0, len(routes) + len(demands))
    ret = set_add_rowmode(self.prob, TRUE)
    cross_domain_cols = {}
    for cross_domain_route in cross_domain_routes:
        demand, supply = cross_domain_route
        conv_factor = supply.get_conversion_factor()
        supply_cols = [(n, conv_factor) for n, route in enumerate(routes) if route[0] is supply]
        if demand in cross_domain_cols:
            cross_domain_cols[demand].extend(supply_cols)
        else:
            cross_domain_cols[demand] = supply_cols
    for col, route in enumerate(routes):
        ret = add_columnex(self.prob, 0, NULL, NULL)
        ret = set_lowbo(self.prob, self.idx_col_routes + col, 0.0)
    for col, demand in enumerate(demands):
        ret = add_columnex(self.prob, 0, NULL, NULL)
        ret = set_lowbo(self.prob, self.idx_col_demands + col, 0.0)
    self.idx_row_supplys = get_Norig_rows(self.prob) + 1
    ret = resize_lp(self.prob, get_Norig_rows(self.prob) + len(supplys), get_Norig_columns(self.prob))
    for col, supply in enumerate(supplys):
        if isinstance(supply, BaseInput):
            cols = [n for n, route in enumerate(routes) if route[0] is supply]
        else:
            cols = [n for n, route in enumerate(routes) if supply in route]
        if len(cols) == 0:
            raise ModelStructureError(f'{supply.__class__.__name__} node "{supply.name}" is not part of any routes.')
        ind = __cast__('int*', malloc(len(cols) * sizeof('int')))
        val = __cast__('double*', malloc(len(cols) * sizeof('double')))
        for n, c in enumerate(cols):
            ind[n] = 1 + c
            val[n] = 1
        ret = add_constraintex(self.prob, len(cols), val, ind, GE, 0.0)
        free(ind)
        free(val)
    self.idx_row_demands = get_Norig_rows(self.prob) + 1
    ret = resize_lp(self.prob, get_Norig_rows(self.prob) + len(demands), get_Norig_columns(self.prob))
    if len(cross_domain_cols) > 0:
        self.idx_row_cross_domain = get_Norig_rows(self.prob) + 1
        ret = resize_lp(self.prob, get_Norig_rows(self.prob) + len(cross_domain_cols), get_Norig_columns(self.prob))
    cross_domain_col = 0
    for col, demand in enumerate(demands):
        cols = [n for n, route in enumerate(routes) if route[-1] is demand]
        if len(cols) == 0:
            raise ModelStructureError(f'{demand.__class__.__name__} node "{demand.name}" is not part of any routes.')
        ind = __cast__('int*', malloc((1 + len(cols)) * sizeof('int')))
        val = __cast__('double*', malloc((1 + len(cols)) * sizeof('double')))
        for n, c in enumerate(cols):
            ind[n] = 1 + c
            val[n] = 1
        ind[len(cols)] = self.idx_col_demands + col
        val[len(cols)] = -1
        ret = add_constraintex(self.prob, len(cols) + 1, val, ind, EQ, 0.0)
        free(ind)
        free(val)
    for col, demand in enumerate(demands):
        if demand in cross_domain_cols:
            col_vals = cross_domain_cols[demand]
            ind = __cast__('int*', malloc((1 + len(col_vals)) * sizeof('int')))
            val = __cast__('double*', malloc((1 + len(col_vals)) * sizeof('double')))
            for n, (c, v) in enumerate(col_vals):
                ind[n] = 1 + c
                val[n] = 1.0 / v
            ind[len(col_vals)] = self.idx_col_demands + col
            val[len(col_vals)] = -1
            add_constraintex(self.prob, len(col_vals) + 1, val, ind, EQ, 0.0)
            cross_domain_col += 1
            free(ind)
            free(val)
    if len(storages):
        self.idx_row_storages = get_Norig_rows(self.prob) + 1
        ret = resize_lp(self.prob, get_Norig_rows(self.prob) + len(storages), get_Norig_columns(self.prob))
    for col, storage in enumerate(storages):
        cols_output = [n for n, demand in enumerate(demands) if demand in storage.outputs]
        cols_input = [n for n, route in enumerate(routes) if route[0] in storage.inputs]
        ind = __cast__('int*', malloc((len(cols_output) + len(cols_input)) * sizeof('int')))
        val = __cast__('double*', malloc((len(cols_output) + len(cols_input)) * sizeof('double')))
        for n, c in enumerate(cols_output):
            ind[n] = self.idx_col_demands + c
            val[n] = 1
        for n, c in enumerate(cols_input):
            ind[len(cols_output) + n] = self.idx_col_routes + c
            val[len(cols_output) + n] = -1
        add_constraintex(self.prob, len(cols_output) + len(cols_input), val, ind, EQ, 0.0)
        free(ind)
        free(val)
    if len(virtual_storages):
        self.idx_row_virtual_storages = get_Norig_rows(self.prob) + 1
        ret = resize_lp(self.prob, get_Norig_rows(self.prob) + len(virtual_storages), get_Norig_columns(self.prob))
    for col, storage in enumerate(virtual_storages):
        cols = {}
        for n, route in enumerate(routes):
            for some_node in route:
                try:
                    i = storage.nodes.index(some_node)
                except ValueError:
                    pass
                else:
                    try:
                        cols[n] += storage.factors[i]
                    except KeyError:
                        cols[n] = storage.factors[i]
        ind = __cast__('int*', malloc(len(cols) * sizeof('int')))
        val = __cast__('double*', malloc(len(cols) * sizeof('double')))
        for n, (c, f) in enumerate(cols.items()):
            ind[n] = self.idx_col_routes + c
            val[n] = -f
        add_constraintex(self.prob, len(cols), val, ind, EQ, 0.0)
        free(ind)
        free(val)
    if len(aggregated):
        self.idx_row_aggregated = get_Norig_rows(self.prob) + 1
    for agg_node in aggregated:
        nodes = agg_node.nodes
        factors = [f.get_double_variables()[0] for f in agg_node.factors]
        assert len(nodes) == len(factors)
        ret = resize_lp(self.prob, get_Norig_rows(self.prob) + len(agg_node.nodes) - 1, get_Norig_columns(self.prob))
        row = get_Norig_rows(self.prob) + 1
        cols = []
        for node in nodes:
            cols.append([n for n, route in enumerate(routes) if node in route])
        f0 = factors[0]
        factors_norm = [f0 / f for f in factors]
        for n in range(len(nodes) - 1):
            length = len(cols[0]) + len(cols[n + 1])
            ind = __cast__('int*', malloc(length * sizeof('int')))
            val = __cast__('double*', malloc(length * sizeof('double')))
            for i, c in enumerate(cols[0]):
                ind[i] = 1 + c
                val[i] = 1.0
            for i, c in enumerate(cols[n + 1]):
                ind[len(cols[0]) + i] = 1 + c
                val[len(cols[0]) + i] = -factors_norm[n + 1]
            add_constraintex(self.prob, length, val, ind, EQ, 0.0)
            free(ind)
            free(val)
    if aggregated_min_max:
        self.idx_row_aggregated_min_max = get_Norig_rows(self.prob) + 1
        ret = resize_lp(self.prob, get_Norig_rows(self.prob) + len(aggregated_min_max), get_Norig_columns(self.prob))
    for row, agg_node in enumerate(aggregated_min_max):
        row = self.idx_row_aggregated_min_max + row
        nodes = agg_node.nodes
        weights = agg_node.flow_weights
        if weights is None:
            weights = [1.0] * len(nodes)
        matrix = {}
        for node, w in zip(nodes, weights):
            if isinstance(node, BaseInput):
                cols = [n for n, route in enumerate(routes) if route[0] is node]
            elif isinstance(node, BaseOutput):
                cols = [n for n, route in enumerate(routes) if route[-1] is node]
            else:
                cols = [n for n, route in enumerate(routes) if node in route]
            for n in cols:
                matrix[n] = matrix.get(n, 0.0) + w
        length = len(matrix)
        ind = __cast__('int*', malloc(length * sizeof('int')))
        val = __cast__('double*', malloc(length * sizeof('double')))
        for i, col in enumerate(matrix):
            ind[i] = 1 + col
            val[i] = matrix[col]
        add_constraintex(self.prob, length, val, ind, EQ, 0.0)
        free(ind)
        free(val)
    self.stats = {'total': 0.0, 'lp_solve': 0.0, 'result_update': 0.0, 'bounds_update_routes': 0.0, 'bounds_update_nonstorage': 0.0, 'bounds_update_storage': 0.0, 'number_of_rows': get_Nrows(self.prob), 'number_of_cols': get_Ncolumns(self.prob), 'number_of_nonzero': get_nonzeros(self.prob), 'number_of_routes': len(routes), 'number_of_nodes': len(model.nodes)}
    ret = set_add_rowmode(self.prob, FALSE)
    self.routes = routes
    self.supplys = supplys
    self.demands = demands
    self.storages = storages
    self.virtual_storages = virtual_storages
    self.aggregated = aggregated
    self.aggregated_min_max = aggregated_min_max


@spec('solvers.cython_lpsolve.CythonLPSolveSolver', 'solve', props='C08', lp=True)
def f(self, model):
    for scenario_index in model.scenarios.combinations:
        self._solve_scenario(model, scenario_index)


@spec('solvers.cython_lpsolve.CythonLPSolveSolver', '_solve_scenario', props='C08', lp=True, cells='self.route_flows_arr')
def f(self, model, scenario_index):
    timestep = model.timestep
    routes = self.routes
    supplys = self.supplys
    demands = self.demands
    storages = self.storages
    virtual_storages = self.virtual_storages
    t0 = time.perf_counter()
    for col, route in enumerate(routes):
        cost = route[0].get_cost(scenario_index)
        for node in route[1:-1]:
            if isinstance(node, BaseLink):
                cost += node.get_cost(scenario_index)
        set_obj(self.prob, self.idx_col_routes + col, cost)
    self.stats['bounds_update_routes'] += time.perf_counter() - t0
    t0 = time.perf_counter()
    for col, supply in enumerate(supplys):
        min_flow = inf_to_dbl_max(supply.get_min_flow(scenario_index))
        max_flow = inf_to_dbl_max(supply.get_max_flow(scenario_index))
        set_row_bnds(self.prob, self.idx_row_supplys + col, min_flow, max_flow)
    for col, demand in enumerate(demands):
        min_flow = inf_to_dbl_max(demand.get_min_flow(scenario_index))
        max_flow = inf_to_dbl_max(demand.get_max_flow(scenario_index))
        cost = demand.get_cost(scenario_index)
        set_bounds(self.prob, self.idx_col_demands + col, min_flow, max_flow)
        set_obj(self.prob, self.idx_col_demands + col, cost)
    self.stats['bounds_update_nonstorage'] += time.perf_counter() - t0
    t0 = time.perf_counter()
    for col, storage in enumerate(storages):
        max_volume = storage.get_max_volume(scenario_index)
        min_volume = storage.get_min_volume(scenario_index)
        if max_volume == min_volume:
            set_row_bnds(self.prob, self.idx_row_storages + col, 0.0, 0.0)
        else:
            volume = storage._volume[scenario_index.global_id]
            set_row_bnds(self.prob, self.idx_row_storages + col, -max(volume - min_volume, 0.0) / timestep.days,
                         max(max_volume - volume, 0.0) / timestep.days)
    for col, storage in enumerate(virtual_storages):
        max_volume = storage.get_max_volume(scenario_index)
        min_volume = storage.get_min_volume(scenario_index)
        if max_volume == min_volume:
            set_row_bnds(self.prob, self.idx_row_virtual_storages + col, 0.0, 0.0)
        elif not storage.active:
            set_row_bnds(self.prob, self.idx_row_virtual_storages + col, -DBL_MAX, DBL_MAX)
        else:
            volume = storage._volume[scenario_index.global_id]
            set_row_bnds(self.prob, self.idx_row_virtual_storages + col, -max(volume - min_volume, 0.0) / timestep.days,
                         max(max_volume - volume, 0.0) / timestep.days)
    for col, agg_node in enumerate(self.aggregated_min_max):
        min_flow = inf_to_dbl_max(agg_node.get_min_flow(scenario_index))
        max_flow = inf_to_dbl_max(agg_node.get_max_flow(scenario_index))
        set_row_bnds(self.prob, self.idx_row_aggregated_min_max + col, min_flow, max_flow)
    self.stats['bounds_update_storage'] += time.perf_counter() - t0
    t0 = time.perf_counter()
    status = solve(self.prob)
    if status != OPTIMAL:
        raise RuntimeError(get_statustext(self.prob, status))
    self.stats['lp_solve'] += time.perf_counter() - t0
    t0 = time.perf_counter()
    get_ptr_variables(self.prob, __addr__(ptr_var))
    if self.save_routes_flows:
        route_flows = self.route_flows_arr[scenario_index.global_id, :]
    else:
        route_flows = self.route_flows_arr
    for col in range(0, len(routes)):
        route_flows[col] = ptr_var[col]
    change_in_storage = []
    result = {}
    for col, route in enumerate(routes):
        flow = route_flows[col]
        route[0].commit(scenario_index.global_id, flow)
        route[-1].commit(scenario_index.global_id, flow)
        for node in route[1:-1]:
            if isinstance(node, BaseLink):
                node.commit(scenario_index.global_id, flow)
    self.stats['result_update'] += time.perf_counter() - t0
    return (route_flows, change_in_storage)


# -- the helpers every edit goes through ---------------------------------------------

@spec('solvers.cython_glpk:', 'inf_to_dbl_max', props='C08', why="infinite limits are the solver's largest number")
def f(a):
    if a == inf:
        return DBL_MAX
    if a == -inf:
        return -DBL_MAX
    return a


@spec('solvers.cython_lpsolve:', 'inf_to_dbl_max', props='C08', why="infinite limits are the solver's largest number")
def f(a):
    if a == inf:
        return DBL_MAX
    if a == -inf:
        return -DBL_MAX
    return a


@spec('solvers.cython_glpk:', 'dbl_max_to_inf', props='C08', why="the solver's largest number is an infinite limit")
def f(a):
    if a == DBL_MAX:
        return inf
    if a == -DBL_MAX:
        return -inf
    return a


@spec('solvers.cython_lpsolve:', 'dbl_max_to_inf', props='C08', why="the solver's largest number is an infinite limit")
def f(a):
    if a == DBL_MAX:
        return inf
    if a == -DBL_MAX:
        return -inf
    return a


@spec('solvers.cython_glpk:', 'constraint_type', props='C08', why="the bounds that apply are the finite ones")
def f(a, b):
    if abs(a - b) < 1e-8:
        return GLP_FX
    if b == DBL_MAX and a == -DBL_MAX:
        return GLP_FR
    if b == DBL_MAX:
        return GLP_LO
    if a == -DBL_MAX:
        return GLP_UP
    return GLP_DB


@spec('solvers.cython_lpsolve:', 'set_row_bnds', props='C08', lp=True, why="the bounds that apply are the finite ones")
def f(prob, row, a, b):
    if a == b:
        set_constr_type(prob, row, EQ)
        set_rh(prob, row, a)
    elif b == DBL_MAX and a == -DBL_MAX:
        set_constr_type(prob, row, FR)
        set_rh(prob, row, 0.0)
    elif b == DBL_MAX:
        set_constr_type(prob, row, GE)
        set_rh(prob, row, a)
    else:
        set_constr_type(prob, row, LE)
        set_rh(prob, row, b)
        if a != -DBL_MAX:
            set_rh_range(prob, row, b - a)


@spec('solvers.cython_glpk:', 'set_obj_coef_unsafe', props='C08', lp=True)
def f(P, j, coef):
    glp_set_obj_coef(P, j, coef)


@spec('solvers.cython_glpk:', 'set_row_bnds_unsafe', props='C08', lp=True)
def f(P, i, type, lb, ub):
    glp_set_row_bnds(P, i, type, lb, ub)


@spec('solvers.cython_glpk:', 'set_col_bnds_unsafe', props='C08', lp=True)
def f(P, i, type, lb, ub):
    glp_set_col_bnds(P, i, type, lb, ub)


@spec('solvers.cython_glpk:', 'set_mat_row_unsafe', props='C08', lp=True)
def f(P, i, len, ind, val):
    glp_set_mat_row(P, i, len, ind, val)


@spec('solvers.cython_glpk:', 'set_obj_coef_safe', props='C08', lp=True, raises=True)
def f(P, j, coef):
    if isnan(coef):
        raise GLPKError("")
    if setjmp(error_ctx):
        raise GLPKInternalError("")
    glp_set_obj_coef(P, j, coef)


@spec('solvers.cython_glpk:', 'set_row_bnds_safe', props='C08', lp=True, raises=True)
def f(P, i, type, lb, ub):
    if isnan(lb) or isnan(ub):
        raise GLPKError("")
    if setjmp(error_ctx):
        raise GLPKInternalError("")
    glp_set_row_bnds(P, i, type, lb, ub)


@spec('solvers.cython_glpk:', 'set_col_bnds_safe', props='C08', lp=True, raises=True)
def f(P, i, type, lb, ub):
    if isnan(lb) or isnan(ub):
        raise GLPKError("")
    if setjmp(error_ctx):
        raise GLPKInternalError("")
    glp_set_col_bnds(P, i, type, lb, ub)


@spec('solvers.cython_glpk:', 'set_mat_row_safe', props='C08', lp=True, raises=True)
def f(P, i, len, ind, val):
    if len == 0:
        raise GLPKError("")
    for j in range(len):
        if isnan(val[j + 1]):
            raise GLPKError("")
    if setjmp(error_ctx):
        raise GLPKInternalError("")
    glp_set_mat_row(P, i, len, ind, val)

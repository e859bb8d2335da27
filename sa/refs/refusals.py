# Input that is refused.  Interpreted, never executed.

@spec("_core.Node", "set conversion_factor", props="C26")
def f(self, value):
    self._conversion_factor_param = None
    if isinstance(value, Parameter):
        raise ValueError('Conversion factor can not be a Parameter.')
    self._conversion_factor = value
    self.model.dirty = True


@spec("_model.Model", "check_graph", props="C26")
def f(self):
    all_nodes = set(self.graph.nodes())
    routes = self.find_all_routes(BaseInput, BaseOutput, valid=(BaseLink, BaseInput, BaseOutput))
    seen = set()
    for route in routes:
        for node in route:
            seen.add(node)
    isolated_nodes = all_nodes ^ seen
    for node in isolated_nodes:
        if node.allow_isolated is False:
            raise ModelStructureError('Node is not part of a valid route: {}'.format(node.name))


@spec("_model.Model", "find_all_routes", props="C26")
def f(self, type1, type2, valid=None, max_length=None, domain_match='strict'):
    nodes = sorted(self.graph.nodes(), key=lambda n: n.name)
    if inspect.isclass(type1):
        type1_nodes = []
        for node in nodes:
            if isinstance(node, type1):
                type1_nodes.append(node)
    else:
        type1_nodes = [type1]
    if inspect.isclass(type2):
        type2_nodes = []
        for node in nodes:
            if isinstance(node, type2):
                type2_nodes.append(node)
    else:
        type2_nodes = [type2]
    all_routes = []
    for node1 in type1_nodes:
        for node2 in type2_nodes:
            for route in nx.all_simple_paths(self.graph, node1, node2, cutoff=max_length):
                is_valid = True
                if valid is not None and len(route) > 2:
                    for node in route[1:-1]:
                        if not isinstance(node, valid):
                            is_valid = False
                if domain_match == 'strict':
                    for node in route[1:]:
                        if node.domain != route[0].domain:
                            is_valid = False
                elif domain_match == 'different':
                    domains_found = set()
                    for node in route:
                        domains_found.add(node.domain)
                    if len(domains_found) < 2:
                        is_valid = False
                else:
                    if not domain_match == 'any':
                        raise ValueError("domain_match '{}' not understood.".format(domain_match))
                    pass
                if max_length is not None:
                    if len(route) > max_length:
                        is_valid = False
                if is_valid:
                    all_routes.append(route)
    all_routes = sorted(all_routes, key=lambda r: tuple((n.fully_qualified_name for n in r)))
    return all_routes


@spec("_model.Model", "flatten_component_tree", props="C26")
def f(self, rebuild=False):
    if self.component_tree_flat is None or rebuild is True:
        self.component_tree_flat = []
        G = self.component_graph
        ncycles = len(list(nx.simple_cycles(G)))
        if ncycles != 0:
            raise ModelStructureError("Cyclical ({}) dependencies found in the model's components.".format(ncycles))
        for n in nx.nodes_with_selfloops(G):
            raise ModelStructureError('Component "{}" contains a self-loop.'.format(n))
        for node in nx.dfs_postorder_nodes(G, ROOT_NODE):
            if node == ROOT_NODE:
                continue
            self.component_tree_flat.append(node)
        self.component_tree_flat = self.component_tree_flat[::-1]
    return self.component_tree_flat


@spec("_model.Model", "check", props="C26")
def f(self):
    for node in self.nodes:
        node.check()
    self.check_graph()
    orphans = self.find_orphaned_parameters()
    if orphans:
        warnings.warn('Model has {} orphaned parameters'.format(len(orphans)), OrphanedParameterWarning)


@spec("_model.Model", "find_orphaned_parameters", props="C26")
def f(self):
    all_parameters = set(self.parameters)
    visited = set()
    for parameter in self.components:
        if parameter.parents:
            visited.add(parameter)
    for node in self.graph.nodes():
        for component in node.components:
            visited.add(component)
    orphans = all_parameters - visited
    return orphans


@spec("_model.Model", "loads", props="C26")
def f(cls, data, model=None, path=None, **kwargs):
    try:
        data = json.loads(data)
    except ValueError as e:
        message = e.args[0]
        if path:
            e.args = ('{} [{}]'.format(e.args[0], os.path.basename(path)),)
        raise e
    return cls.load(data, model, path, **kwargs)


@spec("_model.Model", "_load_includes", props="C26")
def f(cls, data, path=None):
    if 'includes' in data:
        for filename in data['includes']:
            _, ext = os.path.splitext(filename)
            if path is not None:
                if os.path.isdir(path):
                    folder = path
                else:
                    folder = os.path.dirname(path)
                filename = os.path.join(folder, filename)
            ext = ext.lower()
            if ext == '.json':
                cls._load_json_include(data, filename)
            else:
                if not ext == '.py':
                    raise NotImplementedError(f'Include file type "{ext}" not supported.')
                cls._load_py_include(filename)


@spec("_model.Model", "_load_json_include", props="C26")
def f(cls, data, filename):
    with open(filename, 'r') as f:
        try:
            include_data = json.loads(f.read())
        except ValueError as e:
            message = e.args[0]
            e.args = ('{} [{}]'.format(e.args[0], os.path.basename(filename)),)
            raise e
    for key, value in include_data.items():
        if isinstance(value, list):
            try:
                data[key].extend(value)
            except KeyError:
                data[key] = value
        else:
            if not isinstance(value, dict):
                raise TypeError('Invalid type for key "{}" in include "{}".'.format(key, filename))
            try:
                data[key].update(value)
            except KeyError:
                data[key] = value
    return None


@spec("h5tools.H5Store", "__init__", props="C26")
def f(self, filename, filter_kwds=None, mode='r', title='', metadata=None, create_directories=False):
    self._opened = False
    if isinstance(filename, (str, os.PathLike)):
        self.filename = filename
        import sys
        if filter_kwds:
            if sys.version_info[0] == 2 and 'complib' in filter_kwds:
                filter_kwds['complib'] = filter_kwds['complib'].encode()
            filters = tables.Filters(**filter_kwds)
        else:
            filters = None
        if create_directories:
            try:
                os.makedirs(os.path.dirname(filename))
            except OSError as exception:
                import errno
                if exception.errno != errno.EEXIST:
                    raise
        self.file = tables.open_file(filename, mode=mode, filters=filters, title=title)
        self._opened = True
    else:
        if not isinstance(filename, tables.File):
            raise TypeError(f'{self.__class__.__name__} must be initialised with a filename to open or an open tables.File')
        self.file = filename
        assert self.file.isopen
        self.filename = self.file.filename
        self._opened = False
    if metadata is not None and self.file.mode != 'r':
        for k, v in metadata.items():
            setattr(self.file.root._v_attrs, k, v)


@spec("hashes:", "check_hash", props="C26")
def f(filename, hash, cache=None, algorithm='md5', **kwargs):
    if cache is not None:
        if (cached_hash := cache.get((filename, algorithm))) is not None:
            if cached_hash.lower() == hash.lower():
                return
            raise HashMismatchError(f'Hash mismatch using {algorithm} on file: "{filename}"')
    actual_hash = compute_hash(filename, algorithm=algorithm, **kwargs)
    if hash.lower() != actual_hash.lower():
        raise HashMismatchError('Hash mismatch using {} on file: "{}"'.format(algorithm, filename))
    if cache is not None:
        cache[filename, algorithm] = actual_hash


@spec("nodes.VirtualStorage", "check", props="C26")
def f(self):
    super(VirtualStorage, self).check()
    if self.cost not in (0.0, None):
        raise NotImplementedError('VirtualStorage does not currently support a non-zero cost.')


@spec("nodes.RollingVirtualStorage", "check", props="C26")
def f(self):
    super().check()
    if self.cost not in (0.0, None):
        raise NotImplementedError('RollingVirtualStorage does not currently support a non-zero cost.')


@spec("optimisation:", "cache_variable_parameters", props="C26")
def f(model):
    variables = []
    variable_map = [0]
    for var in model.variables:
        size = var.double_size + var.integer_size
        if size <= 0:
            raise ValueError('Variable parameter "{}" does not have a size > 0.'.format(var.name))
        variable_map.append(variable_map[-1] + size)
        variables.append(var)
    return (variables, variable_map)


@spec("optimisation.platypus:", "count_constraints", props="C26")
def f(constraints):
    count = 0
    for c in constraints:
        if c.is_double_bounded_constraint:
            count += 2
        else:
            if not c.is_constraint:
                raise ValueError(f'Constraint "{c.name}" has no bounds defined.')
            count += 1
    return count


@spec("optimisation.platypus.PlatypusWrapper", "_make_constraints", props="C26")
def f(self, constraints):
    ic = 0
    for c in constraints:
        if c.is_double_bounded_constraint:
            self.problem.constraints[ic] = platypus.Constraint('>=', value=c.constraint_lower_bounds)
            self.problem.constraints[ic + 1] = platypus.Constraint('<=', value=c.constraint_upper_bounds)
            ic += 2
        elif c.is_equality_constraint:
            self.problem.constraints[ic] = platypus.Constraint('==', value=c.constraint_lower_bounds)
            ic += 1
        elif c.is_lower_bounded_constraint:
            self.problem.constraints[ic] = platypus.Constraint('>=', value=c.constraint_lower_bounds)
            ic += 1
        else:
            if not c.is_upper_bounded_constraint:
                raise RuntimeError(f'The bounds of constraint "{c.name}" could not be identified correctly.')
            self.problem.constraints[ic] = platypus.Constraint('<=', value=c.constraint_upper_bounds)
            ic += 1


@spec("parameters._parameters.ArrayIndexedScenarioMonthlyFactorsParameter", "load", props="C26")
def f(cls, model, data):
    scenario = data.pop('scenario', None)
    if scenario is not None:
        scenario = model.scenarios[scenario]
    if isinstance(data['values'], list):
        values = np.asarray(data.pop('values'), np.float64)
    else:
        if not isinstance(data['values'], dict):
            raise TypeError('Unexpected type for "values" in {}'.format(cls.__name__))
        values = load_parameter_values(model, data.pop('values'))
    if isinstance(data['factors'], list):
        factors = np.asarray(data.pop('factors'), np.float64)
    else:
        if not isinstance(data['factors'], dict):
            raise TypeError('Unexpected type for "factors" in {}'.format(cls.__name__))
        factors = load_parameter_values(model, data.pop('factors'))
    return cls(model, scenario, values, factors, **data)


@spec("parameters.parameters.InterpolatedVolumeParameter", "load", props="C26")
def f(cls, model, data):
    node = model.nodes[data.pop('node')]
    volumes = data.pop('volumes')
    if isinstance(volumes, list):
        volumes = np.asarray(volumes, np.float64)
    else:
        if not isinstance(volumes, dict):
            raise TypeError('Unexpected type for "volumes" in {}'.format(cls.__name__))
        volumes = load_parameter_values(model, volumes)
    values = data.pop('values')
    if isinstance(values, list):
        values = np.asarray(values, np.float64)
    else:
        if not isinstance(values, dict):
            raise TypeError('Unexpected type for "values" in {}'.format(cls.__name__))
        values = load_parameter_values(model, values)
    interp_kwargs = data.pop('interp_kwargs', None)
    return cls(model, node, volumes, values, interp_kwargs=interp_kwargs, **data)


@spec("solvers.cython_lpsolve.CythonLPSolveSolver", "__cinit__", props="C26")
def f(self):
    self.prob = make_lp(0, 0)
    if self.prob is NULL:
        raise MemoryError()
    set_verbose(self.prob, CRITICAL)




@spec("parameters._control_curves.ControlCurveInterpolatedParameter", "__init__", props="C26")
def f(self, model, storage_node, control_curves, values=None, parameters=None, **kwargs):
    super().__init__(model, storage_node, control_curves, **kwargs)
    nvalues = len(self.control_curves) + 2
    if values is not None:
        if len(values) != nvalues:
            raise ValueError('Length of values')
    elif parameters is not None:
        if len(parameters) != nvalues:
            raise ValueError('Length of parameters')
    else:
        raise ValueError('One of values or parameters keywords must be given.')


@spec("parameters._control_curves.ControlCurveParameter", "__init__", props="C26", cases=[
      {"?": ["arg:upper_bounds is None", "arg:lower_bounds is None"]},
      {"?": ["not arg:upper_bounds is None", "arg:lower_bounds is None", "not arg:values is None"]},
      {"?": ["arg:upper_bounds is None", "not arg:lower_bounds is None", "not arg:values is None"]}])
def f(self, model, storage_node, control_curves, values=None, parameters=None,
      variable_indices=None, upper_bounds=None, lower_bounds=None, **kwargs):
    super().__init__(model, storage_node, control_curves, **kwargs)
    nvalues = len(self.control_curves) + 1
    if values is not None:
        if len(values) != nvalues:
            raise ValueError('Length of values')
        self.values = values
    elif parameters is not None:
        if len(parameters) != nvalues:
            raise ValueError('Length of parameters')
    else:
        self.values = np.arange(nvalues)
    if variable_indices is not None:
        self.variable_indices = variable_indices
        self.double_size = len(variable_indices)
    else:
        self.double_size = 0
    if upper_bounds is not None:
        if self.values is None or variable_indices is None:
            raise ValueError('Upper bounds')
        if len(upper_bounds) != self.double_size:
            raise ValueError('Length of upper_bounds')
    if lower_bounds is not None:
        if self.values is None or variable_indices is None:
            raise ValueError('Lower bounds')
        if len(lower_bounds) != self.double_size:
            raise ValueError('Length of lower_bounds')


@spec("parameters._polynomial.Polynomial1DParameter", "__init__", props="C26")
def f(self, model, coefficients, *args, **kwargs):
    self._other_node = kwargs.pop('node', None)
    self._storage_node = kwargs.pop('storage_node', None)
    self._parameter = kwargs.pop('parameter', None)
    arg_check = [
        self._other_node is not None,
        self._storage_node is not None,
        self._parameter is not None,
    ]
    if arg_check.count(True) > 1:
        raise ValueError('Only one of "node", "storage_node" or "parameter" keywords should be given.')
    super(Polynomial1DParameter, self).__init__(model, *args, **kwargs)


@spec("parameters.parameters.ScenarioWrapperParameter", "__init__", props="C26")
def f(self, model, scenario, parameters, **kwargs):
    super().__init__(model, **kwargs)
    if scenario.size != len(parameters):
        raise ValueError("The number of parameters must equal the size of the scenario.")


@spec("recorders._recorders.AggregatedRecorder", "__init__", props="C26 C13")
def f(self, model, recorders, **kwargs):
    agg_func = kwargs.pop('recorder_agg_func', kwargs.get('agg_func'))
    if isinstance(agg_func, str):
        agg_func = _agg_func_lookup[agg_func.lower()]
    elif callable(agg_func):
        self.recorder_agg_func = agg_func
        agg_func = AggFuncs.CUSTOM
    else:
        raise ValueError("Unrecognised recorder aggregation function: \"{}\".".format(agg_func))
    self._recorder_agg_func = agg_func
    super(AggregatedRecorder, self).__init__(model, **kwargs)


@spec("recorders.events.EventRecorder", "__init__", props="C26")
def f(self, model, threshold, minimum_event_length=1, tracked_parameter=None, **kwargs):
    self.event_agg_func = kwargs.pop("event_agg_func", kwargs.get("agg_func"))
    super(EventRecorder, self).__init__(model, **kwargs)
    if minimum_event_length < 1:
        raise ValueError('Keyword "minimum_event_length" must be >= 1')


@spec("recorders.recorders.TablesRecorder", "_add_parameter", props="C26", keep="load_parameter")
def f(self, parameter):
    try:
        where, param = parameter
    except (TypeError, ValueError):
        where = None
        param = parameter
    if isinstance(param, str):
        param = load_parameter(self.model, param)
    if not param.name:
        raise ValueError("Can only record named Parameter objects")


@spec("recorders.recorders.TablesRecorder", "_remove_parameter", props="C26")
def f(self, parameter):
    if isinstance(parameter, str):
        parameter = self.model.parameters[parameter]
    index = None
    for n, (where, param) in enumerate(self.parameters):
        if param is parameter:
            index = n
    if index is None:
        raise KeyError("Parameter is not in TablesRecorder: {}".format(parameter))


@spec("recorders._tables_recorders.TablesRecorder2", "_add_parameter", props="C26", keep="load_parameter")
def f(self, parameter):
    try:
        where, param = parameter
    except (TypeError, ValueError):
        where = None
        param = parameter
    if isinstance(param, str):
        param = load_parameter(self.model, param)
    if not param.name:
        raise ValueError("Can only record named Parameter objects")


@spec("recorders._tables_recorders.TablesRecorder2", "_remove_parameter", props="C26")
def f(self, parameter):
    if isinstance(parameter, str):
        parameter = self.model.parameters[parameter]
    index = None
    for n, (where, param) in enumerate(self.parameters):
        if param is parameter:
            index = n
    if index is None:
        raise KeyError("Parameter is not in TablesRecorder: {}".format(parameter))

# Names: look-ups by name, name collisions, references in a document.  Interpreted, never executed.


@spec("_model.NodeIterator", "_nodes", props="C24", calls="yield")
def f(self, hide_children=True):
    for node in self.model.graph.nodes():
        if hide_children is False or node.parent is None:
            yield node
    return


@spec("_model.NodeIterator", "__getitem__", props="C24", raises=True, keep="_nodes")
def f(self, key):
    for node in self._nodes():
        if node.name == key:
            return node
    for node in self._nodes(hide_children=False):
        if node.name == key:
            return node
    raise KeyError("'{}'".format(key))


@spec("_model.NodeIterator", "__delitem__", props="C24", calls="remove_node append delitem", selfcalls="delitem")
def f(self, key):
    if isinstance(key, str):
        node = self[key]
    else:
        node = key
    nodes_to_delete = []
    for node2 in self.model.graph.nodes():
        if node2.parent == node:
            nodes_to_delete.append(node2)
    for node2 in nodes_to_delete:
        del self[node2]
    self.model.graph.remove_node(node)
    self.model.dirty = True


@spec("_model.NodeIterator", "keys", props="C24", calls="yield", keep="_nodes")
def f(self):
    for node in self._nodes():
        yield node.name


@spec("_model.NodeIterator", "values", props="C24", calls="yield", keep="_nodes")
def f(self):
    for node in self._nodes():
        yield node


@spec("_model.NodeIterator", "items", props="C24", calls="yield", keep="_nodes")
def f(self):
    for node in self._nodes():
        yield (node.name, node)


@spec("_model.NodeIterator", "__len__", props="C24", keep="_nodes")
def f(self):
    return len(list(self._nodes()))


@spec("_model.NodeIterator", "__contains__", props="C24", keep="_nodes")
def f(self, value):
    for node in self._nodes():
        if node.name == value or node == value:
            return True
    return False


@spec("_model.NodeIterator", "__iter__", props="C24", keep="_nodes")
def f(self):
    return iter(list(self._nodes()))


@spec("_model.NodeIterator", "__next__", props="C24")
def f(self):
    return self.next()


@spec("_model.NodeIterator", "next", props="C24", raises=True)
def f(self):
    if self.position == 0:
        self.nodes = list(self._nodes())
        self.length = len(self.nodes)
    if self.position < self.length:
        node = self.nodes[self.position]
        self.position += 1
        return node
    raise StopIteration()


@spec("_model.NamedIterator", "__init__", props="C24")
def f(self, objects=None):
    if objects:
        self._objects = list(objects)
    else:
        self._objects = []


@spec("_model.NamedIterator", "__getitem__", props="C24", raises=True)
def f(self, key):
    for obj in self._objects:
        if obj.name == key:
            return obj
    raise KeyError("'{}'".format(key))


@spec("_model.NamedIterator", "__delitem__", props="C24", calls="remove")
def f(self, key):
    obj = self[key]
    self._objects.remove(obj)


@spec("_model.NamedIterator", "__setitem__", props="C24", calls="append")
def f(self, key, obj):
    self._objects.append(obj)


@spec("_model.NamedIterator", "keys", props="C24", calls="yield")
def f(self):
    for obj in self._objects:
        yield obj.name


@spec("_model.NamedIterator", "values", props="C24", calls="yield")
def f(self):
    for obj in self._objects:
        yield obj


@spec("_model.NamedIterator", "items", props="C24", calls="yield")
def f(self):
    for obj in self._objects:
        yield (obj.name, obj)


@spec("_model.NamedIterator", "__len__", props="C24")
def f(self):
    return len(self._objects)


@spec("_model.NamedIterator", "__iter__", props="C24")
def f(self):
    return iter(self._objects)


@spec("_model.NamedIterator", "__contains__", props="C24")
def f(self, value):
    for obj in self._objects:
        if obj.name == value or obj == value:
            return True
    return False


@spec("_model.NamedIterator", "append", props="C24", calls="append")
def f(self, obj):
    self._objects.append(obj)


@spec("_component.Component", "get name", props="C24")
def f(self):
    return self._name


@spec("_component.Component", "set name", props="C24", raises=True)
def f(self, name):
    if name is not None and name in self.model.components.keys():
        raise ValueError('A component with the name "{}" already exists.'.format(name))
    self._name = name


@spec("_core.AbstractNode", "get name", props="C24")
def f(self):
    return self._name


@spec("_core.AbstractNode", "set name", props="C24", raises=True)
def f(self, name):
    if name in self.model.nodes.keys():
        raise ValueError('A node with the name "{}" already exists.'.format(name))
    self._name = name


@spec("_model.Model", "pre_load_node", props="C24", calls="pre_load")
def f(self, node_name):
    try:
        node = self.nodes[node_name]
    except KeyError:
        node_data = self._nodes_to_load[node_name]
        node_type = node_data.pop('type').lower()
        cls = NodeMeta.node_registry[node_type]
        node = cls.pre_load(self, node_data)
    return node


@spec("_model.Model", "finalise_node", props="C24", calls="finalise_load")
def f(self, node_name):
    node = self.nodes[node_name]
    node.finalise_load()


@spec("_model.Model", "get components", props="C24", calls="NamedIterator")
def f(self):
    return NamedIterator((n for n in self.component_graph.nodes() if n != ROOT_NODE))


@spec("_model.Model", "get recorders", props="C24", calls="NamedIterator")
def f(self):
    return NamedIterator((n for n in self.components if isinstance(n, Recorder)))


@spec("_model.Model", "get parameters", props="C24", calls="NamedIterator")
def f(self):
    return NamedIterator((n for n in self.components if isinstance(n, BaseParameter)))


@spec("_model.Model", "get variables", props="C24", calls="NamedIterator")
def f(self):
    return NamedIterator((n for n in self.parameters if n.is_variable))


@spec("_model.Model", "get constraints", props="C24", calls="NamedIterator")
def f(self):
    return NamedIterator((n for n in self.recorders if n.is_constraint))


@spec("_model.Model", "get objectives", props="C24", calls="NamedIterator")
def f(self):
    return NamedIterator((n for n in self.recorders if n.is_objective))


@spec("_model.Model", "get nodes", props="C24", calls="NodeIterator")
def f(self):
    return NodeIterator(self)


@spec("domains.groundwater.KeatingAquifer", "_pre_load_parameter", props="C24", calls="super._pre_load_parameter setitem")
def f(cls, key, value, param_data, non_param_data):
    if key == 'area' and isinstance(value, numbers.Number):
        non_param_data[key] = value
    else:
        super()._pre_load_parameter(key, value, param_data, non_param_data)


@spec("nodes.Loadable", "_pre_load_parameter", props="C24", calls="__setitem__ setitem")
def f(cls, key, value, param_data, non_param_data):
    param_data[key] = value


@spec("nodes.Loadable", "pre_load", props="C24", keep="load_parameter_values _pre_load_parameter pre_load_node", calls="_pre_load_parameter pre_load_node load_parameter_values setitem")
def f(cls, model, data):
    param_data = {}
    non_param_data = {}
    for key, value in data.items():
        if key in cls.__parameter_attributes__:
            cls._pre_load_parameter(key, value, param_data, non_param_data)
        elif key in cls.__node_attributes__:
            if isinstance(value, list):
                node = [model.pre_load_node(n) for n in value]
            else:
                node = model.pre_load_node(value)
            non_param_data[key] = node
        elif key in cls.__parameter_value_attributes__:
            if isinstance(value, (float, int)):
                non_param_data[key] = value
            else:
                non_param_data[key] = load_parameter_values(model, value)
        else:
            non_param_data[key] = value
    obj = cls(model=model, **non_param_data)
    obj._Loadable__parameters_to_load = param_data
    return obj


@spec("nodes.Loadable", "finalise_load", props="C24", keep="load_parameter", calls="load_parameter setattr")
def f(self):
    for key, parameter_data in self._Loadable__parameters_to_load.items():
        if isinstance(parameter_data, list):
            parameter = [load_parameter(self.model, d) for d in parameter_data]
        else:
            parameter = load_parameter(self.model, parameter_data)
        setattr(self, key, parameter)
    del self._Loadable__parameters_to_load


@spec("parameters._parameters.Parameter", "register", props="C24", calls="setitem")
def f(cls):
    parameter_registry[cls.__name__.lower()] = cls


@spec("parameters._parameters.Parameter", "unregister", props="C24")
def f(cls):
    del parameter_registry[cls.__name__.lower()]


@spec("recorders._recorders.Recorder", "register", props="C24", calls="setitem")
def f(cls):
    recorder_registry[cls.__name__.lower()] = cls


@spec("recorders._recorders.Recorder", "unregister", props="C24")
def f(cls):
    del recorder_registry[cls.__name__.lower()]


@spec("parameters._parameters:", "get_parameter_from_registry", props="C24", raises=True)
def f(parameter_type):
    key = parameter_type.lower()
    try:
        return parameter_registry[key]
    except KeyError:
        pass
    if key.endswith("parameter"):
        key = key.replace("parameter", "")
    else:
        key = key + "parameter"
    try:
        return parameter_registry[key]
    except KeyError:
        raise TypeError('Unknown parameter type: "{}"'.format(parameter_type))


@spec("parameters._parameters:", "load_parameter", props="C24", keep="load_parameter load_parameter_values get_parameter_from_registry", calls="load setitem pop", raises=True)
def f(model, data, parameter_name=None):
    if isinstance(data, str):
        try:
            parameter = model.parameters[data]
        except KeyError:
            parameter = None
        if parameter is None:
            if hasattr(model, "_parameters_to_load"):
                name = data
                try:
                    data = model._parameters_to_load.pop(name)
                except KeyError:
                    raise KeyError("Unknown parameter: '{}'".format(data))
                parameter = load_parameter(model, data)
            else:
                raise KeyError("Unknown parameter: '{}'".format(data))
    elif isinstance(data, (float, int)) or data is None:
        parameter = data
    else:
        tags = data.pop("tags", None)
        try:
            parameter_type = data['type']
        except KeyError:
            return float(load_parameter_values(model, data))
        try:
            parameter_name = data["name"]
        except:
            pass
        cls = get_parameter_from_registry(parameter_type)
        kwargs = dict([(k, v) for k, v in data.items()])
        del kwargs["type"]
        if "name" in kwargs:
            del kwargs["name"]
        parameter = cls.load(model, kwargs)
        if tags is not None:
            parameter.tags = tags
    if parameter_name is not None:
        parameter.name = parameter_name
        model.parameters[parameter_name] = parameter
    return parameter


@spec("recorders._recorders:", "load_recorder", props="C24", keep="load_recorder", calls="load pop", raises=True)
def f(model, data, recorder_name=None):
    recorder = None
    if isinstance(data, str):
        recorder_name = data
    for rec in model.recorders:
        if rec.name == recorder_name:
            recorder = rec
            break
    if recorder is None and isinstance(data, str):
        if hasattr(model, "_recorders_to_load"):
            try:
                data = model._recorders_to_load.pop(recorder_name)
            except KeyError:
                raise KeyError("Unknown recorder: '{}'".format(data))
            recorder = load_recorder(model, data)
        else:
            raise KeyError("Unknown recorder: '{}'".format(data))
    if recorder is None:
        recorder_type = data['type']
        name = recorder_type.lower()
        try:
            cls = recorder_registry[name]
        except KeyError:
            if name.endswith("recorder"):
                name = name.replace("recorder", "")
            else:
                name += "recorder"
            try:
                cls = recorder_registry[name]
            except KeyError:
                raise NotImplementedError('Unrecognised recorder type "{}"'.format(recorder_type))
        del data["type"]
        recorder = cls.load(model, data)
    return recorder


@spec("_model.Model", "load_from_dict", props="C24 C25", keep="collect_components load_components load_dataframe _load_includes", calls="connect Scenario load_dataframe pre_load_node finalise_node setitem _load_includes", raises=True)
def f(cls, data, model=None, path=None, solver=None, solver_args=None):
    data = copy.deepcopy(data)
    try:
        minimum_version = data['metadata']['minimum_version']
    except KeyError:
        warnings.warn('Missing "minimum_version" item in metadata.', ModelDocumentWarning)
    else:
        minimum_version = parse_version(minimum_version)
        pywr_version = parse_version(pywr.__version__)
        if pywr_version < minimum_version:
            warnings.warn('Document requires version {} or newer, but only have {}.'.format(minimum_version, pywr_version), RuntimeWarning)
    cls._load_includes(data, path)
    if solver_args is None:
        solver_args = {}
    solver_name = solver
    if solver is None:
        if 'solver' in data:
            solver_data = data.pop('solver')
            solver_name = solver_data.pop('name')
            solver_args = solver_data
    try:
        timestepper_data = data['timestepper']
    except KeyError:
        start = end = None
        timestep = 1
    else:
        start = pandas.to_datetime(timestepper_data['start'])
        end = pandas.to_datetime(timestepper_data['end'])
        timestep = timestepper_data['timestep']
    if model is None:
        model = cls(solver=solver_name, solver_args=solver_args, start=start, end=end, timestep=timestep, path=path)
    model.metadata = data['metadata']
    try:
        scenarios_data = data['scenarios']
    except KeyError:
        pass
    else:
        for scen_data in scenarios_data:
            scen_name = scen_data['name']
            size = scen_data['size']
            ensemble_names = scen_data.pop('ensemble_names', None)
            s_slice = scen_data.pop('slice', None)
            if s_slice:
                s_slice = slice(*s_slice)
            Scenario(model, scen_name, size=size, slice=s_slice, ensemble_names=ensemble_names)
    try:
        scenario_combinations = data['scenario_combinations']
    except KeyError:
        pass
    else:
        model.scenarios.user_combinations = scenario_combinations
    try:
        tables_data = data['tables']
    except KeyError:
        pass
    else:
        for table_name, table_data in tables_data.items():
            model.tables[table_name] = load_dataframe(model, table_data)
    nodes_to_load = {}
    for node_data in data['nodes']:
        node_name = node_data['name']
        if node_name in nodes_to_load:
            raise ValueError('A node with the name "{}" already exists.'.format(node_name))
        nodes_to_load[node_name] = node_data
    model._nodes_to_load = nodes_to_load

    def collect_components(data, key):
        components_data = data.get(key, {})
        for name, component_data in components_data.items():
            component_data['name'] = name
        return components_data
    model._parameters_to_load = collect_components(data, 'parameters')
    model._recorders_to_load = collect_components(data, 'recorders')

    def load_components(components_to_load, load_component):
        while True:
            try:
                name, component_data = components_to_load.popitem()
            except KeyError:
                break
            try:
                component = load_component(model, component_data, name)
            except Exception as err:
                raise
            yield component
    for node_name in list(nodes_to_load.keys()):
        node = model.pre_load_node(node_name)
    load_components(model._recorders_to_load, load_recorder)
    for parameter in load_components(model._parameters_to_load, load_parameter):
        if not isinstance(parameter, BaseParameter):
            raise TypeError('Named parameters cannot be literal values. Use type `constant` instead.')
    for node_name in list(nodes_to_load.keys()):
        model.finalise_node(node_name)
    del model._recorders_to_load
    del model._parameters_to_load
    del model._nodes_to_load
    for edge_data in data['edges']:
        node_from_name = edge_data[0]
        node_to_name = edge_data[1]
        if len(edge_data) > 2:
            slot_from, slot_to = edge_data[2:]
        else:
            slot_from = slot_to = None
        node_from = model.nodes[node_from_name]
        node_to = model.nodes[node_to_name]
        node_from.connect(node_to, from_slot=slot_from, to_slot=slot_to)
    return model


@spec("recorders._recorders.Recorder", "__init__", props="C24", cells="self._name")
def f(self, model, agg_func="mean", ignore_nan=False, is_objective=None, epsilon=1.0,
      name=None, constraint_lower_bounds=None, constraint_upper_bounds=None, **kwargs):
    if name is None:
        name = self.__class__.__name__.lower()
    super(Recorder, self).__init__(model, name=name, **kwargs)


@spec("recorders._recorders.NodeRecorder recorders._recorders.StorageRecorder", "__init__", props="C24", cells="self._name self._node self.node")
def f(self, model, node, name=None, **kwargs):
    if name is None:
        name = "{}.{}".format(self.__class__.__name__.lower(), node.name)
    super().__init__(model, name=name, **kwargs)
    self._node = node


@spec("recorders._recorders.ParameterRecorder recorders._recorders.IndexParameterRecorder", "__init__", props="C24", cells="self._name self._param")
def f(self, model, param, name=None, **kwargs):
    if name is None:
        name = "{}.{}".format(self.__class__.__name__.lower(), param.name)
    super().__init__(model, name=name, **kwargs)
    self._param = param

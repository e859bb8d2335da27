# Registration of dependencies between components (property C04).  Only the edges are compared:
# a.children.add(b) and b.parents.add(a) are the same edge.


@spec("parameters._parameters.IndexedArrayParameter", "__init__", props="C04", edges=True, cells="", ret=False)
def f(self, model, index_parameter, params, **kwargs):
    super().__init__(model, **kwargs)
    self.index_parameter = index_parameter
    self.params = []
    for p in params:
        if not isinstance(p, Parameter):
            p = ConstantParameter(model, p)
        self.params.append(p)
    for p in self.params:
        self.children.add(p)
    self.children.add(index_parameter)


@spec("parameters._parameters.AggregatedParameter parameters._parameters.AggregatedIndexParameter", "__init__", props="C04", edges=True, cells="", ret=False)
def f(self, model, parameters, agg_func=None, **kwargs):
    super().__init__(model, **kwargs)
    self.agg_func = agg_func
    self.parameters = list(parameters)
    for p in self.parameters:
        self.children.add(p)


@spec("parameters._parameters.AggregatedParameter parameters._parameters.AggregatedIndexParameter", "add", props="C04", edges=True, cells="")
def f(self, parameter):
    self.children.add(parameter)


@spec("parameters._parameters.AggregatedParameter parameters._parameters.AggregatedIndexParameter", "remove", props="C04", edges=True, cells="")
def f(self, parameter):
    self.children.remove(parameter)


@spec("parameters._parameters.DivisionParameter", "set numerator", props="C04", edges=True, cells="self._numerator")
def f(self, parameter):
    if self._numerator is not None:
        self.children.remove(self._numerator)
    self._numerator = parameter
    self.children.add(parameter)


@spec("parameters._parameters.DivisionParameter", "set denominator", props="C04", edges=True, cells="self._denominator")
def f(self, parameter):
    if self._denominator is not None:
        self.children.remove(self._denominator)
    self._denominator = parameter
    self.children.add(parameter)


@spec("parameters._parameters.NegativeParameter parameters._parameters.MaxParameter parameters._parameters.MinParameter "
      "parameters._parameters.OffsetParameter parameters._parameters.PiecewiseIntegralParameter",
      "__init__", props="C04", edges=True, cells="self.parameter")
def f(self, model, parameter, *args, **kwargs):
    super().__init__(model, *args, **kwargs)
    self.parameter = parameter
    self.children.add(parameter)


@spec("parameters.parameters.ScaledProfileParameter", "__init__", props="C04", edges=True, cells="self.profile")
def f(self, model, scale, profile, *args, **kwargs):
    super().__init__(model, *args, **kwargs)
    self.profile = profile
    self.children.add(profile)


@spec("parameters.parameters.ScenarioWrapperParameter", "__init__", props="C04", edges=True, cells="")
def f(self, model, scenario, parameters, **kwargs):
    super().__init__(model, **kwargs)
    for p in parameters:
        self.children.add(p)


@spec("parameters._polynomial.Polynomial1DParameter", "__init__", props="C04", edges=True, cells="")
def f(self, model, coefficients, *args, **kwargs):
    self._parameter = kwargs.pop('parameter', None)
    super().__init__(model, *args, **kwargs)
    if self._parameter is not None:
        self.children.add(self._parameter)


@spec("parameters._polynomial.Polynomial2DStorageParameter", "__init__", props="C04", edges=True, cells="self._parameter")
def f(self, model, coefficients, storage_node, parameter, *args, **kwargs):
    self._parameter = parameter
    super().__init__(model, *args, **kwargs)
    self.children.add(parameter)


@spec("parameters._hydropower.HydropowerTargetParameter recorders._hydropower.HydropowerRecorder recorders._hydropower.TotalHydroEnergyRecorder",
      "set water_elevation_parameter", props="C04", edges=True, cells="self._water_elevation_parameter")
def f(self, parameter):
    if self._water_elevation_parameter is not None:
        self.children.remove(self._water_elevation_parameter)
    self._water_elevation_parameter = parameter
    self.children.add(parameter)


@spec("parameters._hydropower.HydropowerTargetParameter", "set target", props="C04", edges=True, cells="self._target")
def f(self, parameter):
    if self._target is not None:
        self.children.remove(self._target)
    self._target = parameter
    self.children.add(parameter)


@spec("parameters._hydropower.HydropowerTargetParameter", "set max_flow", props="C04", edges=True, cells="self._max_flow")
def f(self, parameter):
    if self._max_flow is not None:
        self.children.remove(self._max_flow)
    self._max_flow = parameter
    self.children.add(parameter)


@spec("parameters._hydropower.HydropowerTargetParameter", "set min_flow", props="C04", edges=True, cells="self._min_flow")
def f(self, parameter):
    if self._min_flow is not None:
        self.children.remove(self._min_flow)
    self._min_flow = parameter
    self.children.add(parameter)


@spec("parameters._thresholds.AbstractThresholdParameter", "set threshold", props="C04", edges=True, cells="self._threshold_parameter")
def f(self, value):
    if self._threshold_parameter is not None:
        self.children.remove(self._threshold_parameter)
        self._threshold_parameter = None
    if isinstance(value, Parameter):
        self._threshold_parameter = value
        self.children.add(value)


@spec("parameters._thresholds.MultipleThresholdIndexParameter", "__init__", props="C04", edges=True, cells="")
def f(self, model, node, thresholds, use_max_flow=False, **kwargs):
    super().__init__(model, **kwargs)
    from pywr.parameters import ConstantParameter
    self.thresholds = []
    for t in thresholds:
        if not isinstance(t, Parameter):
            t = ConstantParameter(model, t)
        self.thresholds.append(t)
    for t in self.thresholds:
        self.children.add(t)


@spec("parameters._thresholds.MultipleThresholdParameterIndexParameter", "__init__", props="C04", edges=True, cells="self.parameter")
def f(self, model, parameter, thresholds, use_max_flow=False, **kwargs):
    super().__init__(model, **kwargs)
    self.parameter = parameter
    self.children.add(parameter)
    from pywr.parameters import ConstantParameter
    self.thresholds = []
    for t in thresholds:
        if not isinstance(t, Parameter):
            t = ConstantParameter(model, t)
        self.thresholds.append(t)
    for t in self.thresholds:
        self.children.add(t)


@spec("parameters._thresholds.ParameterThresholdParameter", "__init__", props="C04", edges=True, cells="self.param")
def f(self, model, param, *args, **kwargs):
    super().__init__(model, *args, **kwargs)
    self.param = param
    self.children.add(param)


@spec("parameters._thresholds.RecorderThresholdParameter", "__init__", props="C04", edges=True, cells="self.recorder")
def f(self, model, recorder, *args, initial_value=1, **kwargs):
    super().__init__(model, *args, **kwargs)
    self.recorder = recorder
    self.children.add(recorder)


@spec("parameters._control_curves.BaseControlCurveParameter parameters._control_curves.ControlCurveIndexParameter",
      "set control_curves", props="C04", edges=True, cells="")
def f(self, control_curves):
    if isinstance(control_curves, Parameter):
        control_curves = [control_curves]
    if self._control_curves is not None:
        for c in self._control_curves:
            self.children.remove(c)
    new = []
    for c in control_curves:
        if isinstance(c, (float, int)):
            c = ConstantParameter(self.model, c)
        self.children.add(c)
        new.append(c)
    self._control_curves = new


@spec("parameters._control_curves.ControlCurveInterpolatedParameter parameters._control_curves.ControlCurveParameter",
      "__init__", props="C04", edges=True, cells="", keep="control_curves")
def f(self, model, storage_node, control_curves, values=None, parameters=None, **kwargs):
    super().__init__(model, storage_node, control_curves, **kwargs)
    self.parameters = None
    if values is None and parameters is not None:
        self.parameters = list(parameters)
        for p in self.parameters:
            self.children.add(p)


@spec("parameters._control_curves.WeightedAverageProfileParameter", "__init__", props="C04", edges=True, cells="self.profiles")
def f(self, model, storages, profiles, **kwargs):
    super().__init__(model, **kwargs)
    self.profiles = profiles
    for p in profiles:
        self.children.add(p)


@spec("recorders.recorders.TablesRecorder recorders._tables_recorders.TablesRecorder2", "_add_parameter", props="C04 C16", edges=True, cells="", keep="load_parameter")
def f(self, parameter):
    try:
        where, param = parameter
    except (TypeError, ValueError):
        where = None
        param = parameter
    if isinstance(param, str):
        param = load_parameter(self.model, param)
    self.children.add(param)


@spec("recorders.recorders.TablesRecorder recorders._tables_recorders.TablesRecorder2", "_remove_parameter", props="C04 C16", edges=True, cells="")
def f(self, parameter):
    if isinstance(parameter, str):
        parameter = self.model.parameters[parameter]
    self.children.remove(parameter)


@spec("recorders.events.EventRecorder", "__init__", props="C04", edges=True, cells="")
def f(self, model, threshold, minimum_event_length=1, tracked_parameter=None, **kwargs):
    super().__init__(model, **kwargs)
    self.threshold = threshold
    self.children.add(threshold)
    self.tracked_parameter = tracked_parameter
    if tracked_parameter is not None:
        self.children.add(tracked_parameter)


@spec("recorders.events.EventDurationRecorder recorders.events.EventStatisticRecorder", "__init__", props="C04", edges=True, cells="")
def f(self, model, event_recorder, **kwargs):
    super().__init__(model, **kwargs)
    self.event_recorder = event_recorder
    self.children.add(event_recorder)


@spec("recorders._recorders.AggregatedRecorder", "__init__", props="C04", edges=True, cells="")
def f(self, model, recorders, **kwargs):
    super().__init__(model, **kwargs)
    self.recorders = list(recorders)
    for rec in self.recorders:
        self.children.add(rec)


@spec("recorders._recorders.ParameterRecorder recorders._recorders.IndexParameterRecorder", "__init__", props="C04", edges=True, cells="")
def f(self, model, param, name=None, **kwargs):
    super().__init__(model, name=name, **kwargs)
    self._param = param
    self.children.add(param)


@spec("recorders._recorders.NumpyArrayNormalisedStorageRecorder", "__init__", props="C04", edges=True, cells="")
def f(self, *args, **kwargs):
    self.parameter = kwargs.pop('parameter')
    super().__init__(*args, **kwargs)
    self.children.add(self.parameter)


@spec("recorders._recorders.AnnualCountIndexThresholdRecorder", "__init__", props="C04", edges=True, cells="")
def f(self, model, parameters, name, threshold, *args, **kwargs):
    super().__init__(model, name=name, *args, **kwargs)
    self.parameters = parameters
    for p in parameters:
        self.children.add(p)


@spec("_component.GraphInterface", "add", props="C04", calls="add_edge", cells="", why="children are evaluated before the component, parents after it")
def f(self, item):
    if isinstance(item, Component):
        if self is self.obj.children:
            self.obj.model.component_graph.add_edge(item, self.obj)
        else:
            self.obj.model.component_graph.add_edge(self.obj, item)


@spec("_component.GraphInterface", "remove", props="C04", calls="remove_edge", cells="")
def f(self, item):
    if isinstance(item, Component):
        if self is self.obj.children:
            self.obj.model.component_graph.remove_edge(item, self.obj)
        else:
            self.obj.model.component_graph.remove_edge(self.obj, item)


@spec("_component.Component", "__init__", props="C04", calls="add_edge", cells="self.parents self.children self.model", ret=False,
      why="every component is reached from the root")
def f(self, model, name=None, comment=None, tags=None):
    self.model = model
    self.name = name
    model.component_graph.add_edge(ROOT_NODE, self)
    self.parents = GraphInterface(self)
    self.children = GraphInterface(self)


@spec("_component.GraphInterface", "get _members", props="C04", why="the components this one depends on, or that depend on it")
def f(self):
    if self is self.obj.children:
        return [n for n in self.obj.model.component_graph.predecessors(self.obj) if n != ROOT_NODE]
    else:
        return [x for x in self.obj.model.component_graph.successors(self.obj)]


@spec("parameter_property:", "parameter_property.parameter.fset", props="C04", edges=True, cells="",
      why="the dependency follows the attribute")
def f(self, parameter):
    if getattr(self, private_name) is not None:
        self.children.remove(getattr(self, private_name))
    self.children.add(parameter)
    setattr(self, private_name, parameter)


@spec("_component.GraphInterface", "clear", props="C04")
def f(self):
    for n in self._members:
        if self is self.obj.children:
            self.graph.remove_edge(n, self.obj)
        else:
            self.graph.remove_edge(self.obj, n)



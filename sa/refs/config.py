# Constructors: what a component is configured with is kept under the attribute of the same meaning.  Interpreted, never executed.


@spec("_component.GraphInterface", "__init__", props="C04")
def f(self, obj):
    self.obj = obj


@spec("_core.Scenario", "__init__", props="C02")
def f(self, model, name, size=1, slice=None, ensemble_names=None):
    self._name = name
    if size < 1:
        raise ValueError('Size must be greater than or equal to 1.')
    self._size = size
    self._model = model
    self.slice = slice
    self.ensemble_names = ensemble_names
    model.scenarios.add_scenario(self)


@spec("_core.ScenarioCollection", "__init__", props="C02")
def f(self, model):
    self.model = model
    self._scenarios = []
    self.combinations = None
    self.user_combinations = None


@spec("_core.ScenarioIndex", "__init__", props="C02")
def f(self, global_id, indices):
    self.global_id = global_id
    self._indices = indices


@spec("_core.Timestep", "__init__", props="C18 C02")
def f(self, period, index, days):
    self.period = period
    self.index = index
    if days <= 0:
        raise ValueError('The days argument must be > 0.')
    self.days = days
    self.dayofyear = period.dayofyear
    self.day = period.day
    self.month = period.month
    self.year = period.year
    self.is_leap_year = is_leap_year(self.year)
    self.end_year = self.period.end_time.year
    i = self.dayofyear - 1
    if not self.is_leap_year:
        if i > 58:
            i += 1
    self.dayofyear_index = i
    if self.dayofyear_index >= 364:
        self.week_index = 51
    else:
        self.week_index = self.dayofyear_index // 7


@spec("_core.Domain", "__init__", props="C11")
def f(self, name):
    self.name = name


@spec("_core.AbstractNode", "__cinit__", props="C17 C11")
def f(self):
    self._allow_isolated = False
    self.virtual = False


@spec("_core.AbstractNode", "__init__", props="C11")
def f(self, model, name, comment=None, **kwargs):
    self._model = model
    self.name = name
    self.comment = comment
    self._parent = kwargs.pop('parent', None)
    self._domain = kwargs.pop('domain', None)
    self.tags = kwargs.pop('tags', {})
    self._recorders = []
    self._flow = np.empty([0], np.float64)
    if kwargs:
        raise TypeError("__init__() got an unexpected keyword argument '{}'".format(list(kwargs.items())[0]))


@spec("_core.Node", "__cinit__", props="C17 C11")
def f(self):
    self._min_flow = 0.0
    self._max_flow = inf
    self._cost = 0.0
    self._conversion_factor = 1.0
    self._min_flow_param = None
    self._max_flow_param = None
    self._cost_param = None
    self._conversion_factor_param = None
    self._domain = None


@spec("_core.AggregatedNode", "__cinit__", props="C17 C11")
def f(self):
    self._allow_isolated = True
    self.virtual = True
    self._factors = None
    self._flow_weights = None
    self._min_flow = 0.0
    self._max_flow = inf
    self._min_flow_param = None
    self._max_flow_param = None


@spec("_core.Storage", "__cinit__", props="C17 C11")
def f(self):
    self.initial_volume = None
    self.initial_volume_pc = None
    self._min_volume = 0.0
    self._max_volume = 0.0
    self._cost = 0.0
    self._min_volume_param = None
    self._max_volume_param = None
    self._level_param = None
    self._area_param = None
    self._cost_param = None
    self._domain = None
    self._allow_isolated = True


@spec("_core.AggregatedStorage", "__cinit__", props="C17 C11")
def f(self):
    self._allow_isolated = True
    self.virtual = True


@spec("_core.VirtualStorage", "__cinit__", props="C17 C11")
def f(self):
    self._allow_isolated = True
    self.virtual = True
    self.active = True


@spec("_core.RollingVirtualStorage", "__cinit__", props="C17 C11")
def f(self):
    self._memory_pointer = 0


@spec("_core.ShadowStorage", "__init__", props="C11")
def f(self, model, other_model, node, *args, **kwargs):
    AbstractStorage.__init__(self, model, *args, **kwargs)
    self.other_model = other_model
    self.node = node
    self._other_model = None
    self._other_model_node = None


@spec("_core.ShadowNode", "__init__", props="C11")
def f(self, model, other_model, node, *args, **kwargs):
    AbstractNode.__init__(self, model, *args, **kwargs)
    self.other_model = other_model
    self.node = node
    self._other_model = None
    self._other_model_node = None


@spec("domains.Domain", "__init__", props="C11")
def f(self, name='default', **kwargs):
    super(Domain, self).__init__(name)
    self.color = kwargs.pop('color', '#FF6600')


@spec("domains.groundwater.KeatingAquifer", "__init__", props="C11")
def f(self, model, name, num_streams, num_additional_inputs, stream_flow_levels, transmissivity, coefficient, levels, volumes=None, area=None, storativity=None, **kwargs):
    super(KeatingAquifer, self).__init__(model, name, inputs=num_streams + num_additional_inputs, **kwargs)
    if not num_streams > 0:
        raise ValueError('Keating aquifer must have at least one stream outflow')
    if len(stream_flow_levels) != num_streams:
        raise ValueError('Stream flow levels must have `num_streams` items')
    for i in stream_flow_levels:
        if len(i) != len(transmissivity):
            raise ValueError('Items in stream flow levels should have the same length as transmissivity')
    if not isinstance(coefficient, numbers.Number):
        raise ValueError('Coefficient must be a scalar')
    if volumes is None:
        if not isinstance(area, numbers.Number):
            raise ValueError('Area must be a scalar')
        if len(storativity) != len(levels) - 1:
            raise ValueError('Storativity must have one less item than levels')
        heights = [levels[n + 1] - levels[n] for n in range(0, len(levels) - 1)]
        volumes = [0.0]
        for n, (s, h) in enumerate(zip(storativity, heights)):
            volumes.append(volumes[-1] + area * s * h * 0.001)
    elif len(volumes) != len(levels):
        raise ValueError('Volumes must have the same length as levels')
    self.area = area
    if len(levels) != len(volumes):
        raise ValueError('Levels and volumes must have the same length')
    self._volumes = volumes
    self._levels = levels
    self._level_to_volume = interp1d(levels, volumes)
    self.max_volume = max(volumes)
    self.min_volume = min(volumes)
    self.level = InterpolatedVolumeParameter(model, self, volumes, levels)
    for n, node in enumerate(self.inputs[0:num_streams]):
        parameter = KeatingStreamFlowParameter(model, self, stream_flow_levels[n], transmissivity, coefficient)
        node.max_flow = parameter
        node.min_flow = parameter


@spec("domains.river.RiverDomainMixin", "__init__", props="C11")
def f(self, *args, **kwargs):
    if 'color' not in kwargs:
        self.color = '#6ECFF6'
    super(RiverDomainMixin, self).__init__(*args, **kwargs)


@spec("domains.river.Catchment", "__init__", props="C11")
def f(self, *args, **kwargs):
    self.color = '#82CA9D'
    flow = kwargs.pop('flow', 0.0)
    super(Catchment, self).__init__(*args, **kwargs)
    self.flow = flow


@spec("domains.river.Reservoir", "__init__", props="C11")
def f(self, model, *args, **kwargs):
    control_curve = pop_kwarg_parameter(kwargs, 'control_curve', None)
    above_curve_cost = kwargs.pop('above_curve_cost', None)
    cost = kwargs.pop('cost', 0.0)
    if above_curve_cost is not None:
        if control_curve is None:
            control_curve = ConstantParameter(model, 1.0)
        elif not isinstance(control_curve, Parameter):
            control_curve = ConstantParameter(model, control_curve)
        if not not isinstance(cost, Parameter):
            raise ValueError('If an above_curve_cost is given cost must not be a Parameter.')
        kwargs['cost'] = ControlCurveParameter(model, self, control_curve, [above_curve_cost, cost])
    else:
        kwargs['cost'] = cost
    super(Reservoir, self).__init__(model, *args, **kwargs)


@spec("domains.river.River", "__init__", props="C11")
def f(self, *args, **kwargs):
    super(River, self).__init__(*args, **kwargs)


@spec("domains.river.RiverSplit", "__init__", props="C11")
def f(self, model, *args, nsteps=1, **kwargs):
    factors = kwargs.pop('factors')
    extra_slots = len(factors) - 1
    costs = kwargs.pop('costs', [0.0])
    max_flows = kwargs.pop('max_flows', [None])
    super(RiverSplit, self).__init__(model, nsteps, *args, extra_slots=extra_slots, factors=factors, costs=costs, max_flows=max_flows, **kwargs)


@spec("domains.river.RiverSplitWithGauge", "__init__", props="C11")
def f(self, model, *args, mrf=0.0, cost=0.0, mrf_cost=0.0, **kwargs):
    super(RiverSplitWithGauge, self).__init__(model, *args, nsteps=2, max_flows=[mrf, None], costs=[mrf_cost, cost], **kwargs)


@spec("domains.river.RiverGauge", "__init__", props="C11")
def f(self, *args, **kwargs):
    cost = kwargs.pop('cost', 0.0)
    kwargs['costs'] = [kwargs.pop('mrf_cost', 0.0), cost]
    kwargs['max_flows'] = [kwargs.pop('mrf', 0.0), None]
    super(RiverGauge, self).__init__(*args, nsteps=2, **kwargs)


@spec("nodes.Drawable", "__init__", props="C11")
def f(self, *args, **kwargs):
    self.position = kwargs.pop('position', {})
    self.color = kwargs.pop('color', 'black')
    self.visible = kwargs.pop('visible', True)
    super(Drawable, self).__init__(*args, **kwargs)


@spec("nodes.Loadable", "__init__", props="C11")
def f(self, *args, **kwargs):
    super().__init__(*args, **kwargs)
    self._Loadable__parameters_to_load = None


@spec("nodes.NodeMeta", "__init__", props="C11")
def f(cls, name, bases, dct):
    super(NodeMeta, cls).__init__(name, bases, dct)
    cls.node_registry[name.lower()] = cls


@spec("nodes.Node", "__init__", props="C11", keep="pop_kwarg_parameter __init__")
def f(self, model, name, **kwargs):
    color = kwargs.pop('color', 'black')
    min_flow = pop_kwarg_parameter(kwargs, 'min_flow', 0.0)
    if min_flow is None:
        min_flow = 0.0
    max_flow = pop_kwarg_parameter(kwargs, 'max_flow', float('inf'))
    cost = pop_kwarg_parameter(kwargs, 'cost', 0.0)
    conversion_factor = pop_kwarg_parameter(kwargs, 'conversion_factor', 1.0)
    super(Node, self).__init__(model, name, **kwargs)
    self.slots = {}
    self.color = color
    self.min_flow = min_flow
    self.max_flow = max_flow
    self.cost = cost
    self.conversion_factor = conversion_factor



@spec("nodes.Input", "__init__", props="C11")
def f(self, *args, **kwargs):
    super(Input, self).__init__(*args, **kwargs)
    self.color = '#F26C4F'


@spec("nodes.Output", "__init__", props="C11")
def f(self, *args, **kwargs):
    kwargs['color'] = kwargs.pop('color', '#FFF467')
    super(Output, self).__init__(*args, **kwargs)


@spec("nodes.Link", "__init__", props="C11")
def f(self, *args, **kwargs):
    kwargs['color'] = kwargs.pop('color', '#A0A0A0')
    super(Link, self).__init__(*args, **kwargs)


@spec("nodes.Storage", "__init__", props="C11", keep="pop_kwarg_parameter __init__")
def f(self, model, name, outputs=1, inputs=1, *args, **kwargs):
    min_volume = pop_kwarg_parameter(kwargs, 'min_volume', 0.0)
    if min_volume is None:
        min_volume = 0.0
    max_volume = pop_kwarg_parameter(kwargs, 'max_volume', 0.0)
    initial_volume = kwargs.pop('initial_volume', None)
    initial_volume_pc = kwargs.pop('initial_volume_pc', None)
    cost = pop_kwarg_parameter(kwargs, 'cost', 0.0)
    level = pop_kwarg_parameter(kwargs, 'level', None)
    area = pop_kwarg_parameter(kwargs, 'area', None)
    super(Storage, self).__init__(model, name, **kwargs)
    self.outputs = []
    for n in range(0, outputs):
        self.outputs.append(StorageOutput(model, name='[output{}]'.format(n), parent=self))
    self.inputs = []
    for n in range(0, inputs):
        self.inputs.append(StorageInput(model, name='[input{}]'.format(n), parent=self))
    self.min_volume = min_volume
    self.max_volume = max_volume
    self.initial_volume = initial_volume
    self.initial_volume_pc = initial_volume_pc
    self.cost = cost
    self.level = level
    self.area = area
    for node in self.outputs:
        self.model.graph.add_node(node)
    for node in self.inputs:
        self.model.graph.add_node(node)


@spec("nodes.VirtualStorage", "__init__", props="C11", keep="pop_kwarg_parameter __init__")
def f(self, model, name, nodes, **kwargs):
    min_volume = pop_kwarg_parameter(kwargs, 'min_volume', 0.0)
    if min_volume is None:
        min_volume = 0.0
    max_volume = pop_kwarg_parameter(kwargs, 'max_volume', 0.0)
    initial_volume = kwargs.pop('initial_volume', None)
    initial_volume_pc = kwargs.pop('initial_volume_pc', None)
    cost = pop_kwarg_parameter(kwargs, 'cost', 0.0)
    factors = kwargs.pop('factors', None)
    super(VirtualStorage, self).__init__(model, name, **kwargs)
    self.min_volume = min_volume
    self.max_volume = max_volume
    self.initial_volume = initial_volume
    self.initial_volume_pc = initial_volume_pc
    self.cost = cost
    self.nodes = nodes
    if factors is None:
        self.factors = [1.0 for i in range(len(nodes))]
    else:
        self.factors = factors


@spec("nodes.RollingVirtualStorage", "__init__", props="C11", keep="pop_kwarg_parameter __init__")
def f(self, model, name, nodes, **kwargs):
    min_volume = pop_kwarg_parameter(kwargs, 'min_volume', 0.0)
    if min_volume is None:
        min_volume = 0.0
    max_volume = pop_kwarg_parameter(kwargs, 'max_volume', 0.0)
    initial_volume = kwargs.pop('initial_volume', 0.0)
    initial_volume_pc = kwargs.pop('initial_volume_pc', None)
    cost = pop_kwarg_parameter(kwargs, 'cost', 0.0)
    factors = kwargs.pop('factors', None)
    days = kwargs.pop('days', None)
    timesteps = kwargs.pop('timesteps', 0)
    if not timesteps and (not days):
        raise ValueError('Either `timesteps` or `days` must be specified.')
    super().__init__(model, name, **kwargs)
    self.min_volume = min_volume
    self.max_volume = max_volume
    self.initial_volume = initial_volume
    self.initial_volume_pc = initial_volume_pc
    self.cost = cost
    self.nodes = nodes
    self.days = days
    self.timesteps = timesteps
    if factors is None:
        self.factors = [1.0 for i in range(len(nodes))]
    else:
        self.factors = factors


@spec("nodes.AnnualVirtualStorage", "__init__", props="C11")
def f(self, *args, **kwargs):
    self.reset_day = kwargs.pop('reset_day', 1)
    self.reset_month = kwargs.pop('reset_month', 1)
    self.reset_to_initial_volume = kwargs.pop('reset_to_initial_volume', False)
    self._last_reset_year = None
    for node in kwargs['nodes']:
        if isinstance(node, LossLink):
            raise TypeError(f"You cannot use the node '{node.name}' as it is a compound node")
    super(AnnualVirtualStorage, self).__init__(*args, **kwargs)


@spec("nodes.SeasonalVirtualStorage", "__init__", props="C11")
def f(self, *args, **kwargs):
    self.end_day = kwargs.pop('end_day', 31)
    self.end_month = kwargs.pop('end_month', 12)
    self._last_active_year = None
    super().__init__(*args, **kwargs)


@spec("nodes.MonthlyVirtualStorage", "__init__", props="C11")
def f(self, *args, **kwargs):
    self.months = kwargs.pop('months', 1)
    self.initial_months = kwargs.pop('initial_months', 0)
    self.reset_to_initial_volume = kwargs.pop('reset_to_initial_volume', False)
    self._count = self.initial_months - 1
    self._last_month = None
    super(MonthlyVirtualStorage, self).__init__(*args, **kwargs)


@spec("nodes.PiecewiseLink", "__init__", props="C11")
def f(self, model, nsteps, *args, **kwargs):
    self.allow_isolated = True
    name = kwargs.pop('name')
    costs = kwargs.pop('costs', None)
    max_flows = kwargs.pop('max_flows', None)
    self.sub_domain = Domain()
    self.input = Input(model, name='{} Input'.format(name), parent=self)
    self.output = Output(model, name='{} Output'.format(name), parent=self)
    self.sub_output = Output(model, name='{} Sub Output'.format(name), parent=self, domain=self.sub_domain)
    self.sub_output.connect(self.input)
    self.sublinks = []
    for i in range(nsteps):
        sublink = Input(model, name='{} Sublink {}'.format(name, i), parent=self, domain=self.sub_domain)
        self.sublinks.append(sublink)
        sublink.connect(self.sub_output)
        self.output.connect(self.sublinks[-1])
    super().__init__(model, *args, name=name, **kwargs)
    if costs is not None:
        self.costs = costs
    if max_flows is not None:
        self.max_flows = max_flows


@spec("nodes.MultiSplitLink", "__init__", props="C11")
def f(self, model, nsteps, *args, **kwargs):
    self.allow_isolated = True
    costs = kwargs.pop('costs', None)
    max_flows = kwargs.pop('max_flows', None)
    extra_slots = kwargs.pop('extra_slots', 1)
    if extra_slots < 1:
        raise ValueError('extra_slots must be at least 1.')
    self.slot_names = list(kwargs.pop('slot_names', range(extra_slots + 1)))
    if extra_slots + 1 != len(self.slot_names):
        raise ValueError('slot_names must be one more than the number of extra_slots.')
    factors = kwargs.pop('factors', None)
    super(MultiSplitLink, self).__init__(model, nsteps + extra_slots, *args, **kwargs)
    self._extra_inputs = []
    self._extra_outputs = []
    n = len(self.sublinks) - extra_slots
    for i in range(extra_slots):
        otpt = Output(self.model, '{} Extra Output {}'.format(self.name, i), domain=self.sub_domain, parent=self)
        inpt = Input(self.model, '{} Extra Input {}'.format(self.name, i), parent=self)
        otpt.connect(inpt)
        self.sublinks[n + i].connect(otpt)
        self._extra_inputs.append(inpt)
        self._extra_outputs.append(otpt)
    if costs is not None:
        self.costs = costs + [0.0] * extra_slots
    if max_flows is not None:
        self.max_flows = max_flows + [None] * extra_slots
    if factors is not None:
        if extra_slots + 1 != len(factors):
            raise ValueError('factors must have a length equal to extra_slots.')
        nodes = []
        valid_factors = []
        for r, nd in zip(factors, self.sublinks[n - 1:]):
            if r is not None:
                nodes.append(nd)
                valid_factors.append(r)
        agg = AggregatedNode(self.model, '{} Agg'.format(self.name), nodes)
        agg.factors = valid_factors


@spec("nodes.AggregatedStorage", "__init__", props="C11")
def f(self, model, name, storage_nodes, **kwargs):
    super(AggregatedStorage, self).__init__(model, name, **kwargs)
    self.storage_nodes = storage_nodes


@spec("nodes.AggregatedNode", "__init__", props="C11")
def f(self, model, name, nodes, flow_weights=None, **kwargs):
    super(AggregatedNode, self).__init__(model, name, **kwargs)
    self.nodes = nodes
    self.flow_weights = flow_weights


@spec("nodes.BreakLink", "__init__", props="C11")
def f(self, model, name, **kwargs):
    storage_name = '{} (storage)'.format(name)
    link_name = '{} (link)'.format(name)
    assert storage_name not in model.nodes
    assert link_name not in model.nodes
    self.storage = Storage(model, name=storage_name, min_volume=0, max_volume=0, initial_volume=0, cost=0)
    self.link = Link(model, name=link_name)
    self.storage.connect(self.link)
    super(BreakLink, self).__init__(model, name, **kwargs)


@spec("nodes.DelayNode", "__init__", props="C11")
def f(self, model, name, **kwargs):
    self.allow_isolated = True
    output_name = '{} Output'.format(name)
    input_name = '{} Input'.format(name)
    param_name = '{} - delay parameter'.format(name)
    assert output_name not in model.nodes
    assert input_name not in model.nodes
    assert param_name not in model.parameters
    days = kwargs.pop('days', 0)
    timesteps = kwargs.pop('timesteps', 0)
    initial_flow = kwargs.pop('initial_flow', 0.0)
    self.output = Output(model, name=output_name, parent=self)
    self.delay_param = FlowDelayParameter(model, self.output, timesteps=timesteps, days=days, initial_flow=initial_flow, name=param_name)
    self.input = Input(model, name=input_name, min_flow=self.delay_param, max_flow=self.delay_param, parent=self)
    super().__init__(model, name, **kwargs)


@spec("nodes.LossLink", "__init__", props="C11")
def f(self, model, name, **kwargs):
    self.allow_isolated = True
    output_name = '{} Output'.format(name)
    gross_name = '{} Gross'.format(name)
    net_name = '{} Net'.format(name)
    agg_name = '{} Aggregated'.format(name)
    assert output_name not in model.nodes
    assert gross_name not in model.nodes
    assert net_name not in model.nodes
    assert agg_name not in model.nodes
    self.output = Output(model, name=output_name, parent=self)
    self.gross = Link(model, name=gross_name, parent=self)
    self.net = Link(model, name=net_name, parent=self)
    self.gross.connect(self.output)
    self.gross.connect(self.net)
    self.agg = AggregatedNode(model, name=agg_name, nodes=[self.net, self.output])
    self.loss_factor_type = kwargs.pop('loss_factor_type', 'net')
    self.loss_factor = kwargs.pop('loss_factor', 0.0)
    super().__init__(model, name, **kwargs)


@spec("optimisation.ModelCache", "__init__", props="C14")
def f(self):
    self.model = None
    self.variables = None
    self.variable_map = None
    self.objectives = None
    self.constraints = None


@spec("optimisation.BaseOptimisationWrapper", "__init__", props="C14")
def f(self, pywr_model_json, *args, **kwargs):
    uid = kwargs.pop('uid', None)
    self.pywr_model_klass = kwargs.pop('model_klass', Model)
    self.pywr_model_kwargs = kwargs.pop('model_kwargs', {})
    super(BaseOptimisationWrapper, self).__init__(*args, **kwargs)
    self.pywr_model_json = pywr_model_json
    if uid is None:
        uid = uuid.uuid4().hex
    self.uid = uid
    self.run_stats = None


@spec("optimisation.platypus.PlatypusWrapper", "__init__", props="C14")
def f(self, *args, **kwargs):
    super(PlatypusWrapper, self).__init__(*args, **kwargs)
    m = self.model
    variables, variable_map = cache_variable_parameters(m)
    objectives = cache_objectives(m)
    constraints = cache_constraints(m)
    if len(variables) < 1:
        raise ValueError('At least one variable must be defined.')
    if len(objectives) < 1:
        raise ValueError('At least one objective must be defined.')
    self.problem = platypus.Problem(variable_map[-1], len(objectives), count_constraints(constraints))
    self.problem.function = self.evaluate
    self.problem.wrapper = self
    self._make_variables(variables)
    self._make_constraints(constraints)


@spec("optimisation.platypus.PywrRandomGenerator", "__init__", props="C14")
def f(self, *args, **kwargs):
    self.wrapper = kwargs.pop('wrapper', None)
    self.use_current = kwargs.pop('use_current', True)
    self.solutions = kwargs.pop('solutions', None)
    super().__init__(*args, **kwargs)
    self._wrapped_generated = False
    self._solution_pointer = 0


@spec("parameters._activation_functions.BinaryStepParameter", "__init__", props="C11")
def f(self, model, value=0.0, lower_bounds=-1.0, upper_bounds=1.0, output=1.0, **kwargs):
    super(BinaryStepParameter, self).__init__(model, **kwargs)
    self._value = value
    self.output = output
    self.double_size = 1
    self.integer_size = 0
    self._lower_bounds = lower_bounds
    self._upper_bounds = upper_bounds
    self.is_constant = True


@spec("parameters._activation_functions.RectifierParameter", "__init__", props="C11")
def f(self, model, value=0.0, lower_bounds=-1.0, upper_bounds=1.0, min_output=0.0, max_output=1.0, **kwargs):
    super(RectifierParameter, self).__init__(model, **kwargs)
    self._value = value
    self.min_output = min_output
    self.max_output = max_output
    self.double_size = 1
    self.integer_size = 0
    self._lower_bounds = lower_bounds
    self._upper_bounds = upper_bounds
    self.is_constant = True


@spec("parameters._activation_functions.LogisticParameter", "__init__", props="C11")
def f(self, model, value=0.0, lower_bounds=-6.0, upper_bounds=6.0, max_output=1.0, growth_rate=1.0, **kwargs):
    super(LogisticParameter, self).__init__(model, **kwargs)
    self._value = value
    self.max_output = max_output
    self.growth_rate = growth_rate
    self.double_size = 1
    self.integer_size = 0
    self._lower_bounds = lower_bounds
    self._upper_bounds = upper_bounds
    self.is_constant = True


@spec("parameters._control_curves.BaseControlCurveParameter", "__init__", props="C11")
def f(self, model, storage_node, control_curves, **kwargs):
    super(BaseControlCurveParameter, self).__init__(model, **kwargs)
    self.control_curves = control_curves
    if storage_node is None:
        raise ValueError('storage_node is required')
    self._storage_node = storage_node


@spec("parameters._control_curves.ControlCurvePiecewiseInterpolatedParameter", "__init__", props="C11")
def f(self, model, storage_node, control_curves, values, minimum=0.0, maximum=1.0, **kwargs):
    super(ControlCurvePiecewiseInterpolatedParameter, self).__init__(model, storage_node, control_curves, **kwargs)
    self.values = np.array(values, dtype=np.float64)
    self.minimum = minimum
    self.maximum = maximum


@spec("parameters._control_curves.ControlCurveIndexParameter", "__init__", props="C11")
def f(self, model, storage_node, control_curves, **kwargs):
    super(ControlCurveIndexParameter, self).__init__(model, **kwargs)
    self.storage_node = storage_node
    self.control_curves = control_curves


@spec("parameters._hydropower.HydropowerTargetParameter", "__init__", props="C11")
def f(self, model, target, water_elevation_parameter=None, max_flow=None, min_flow=None, turbine_elevation=0.0, efficiency=1.0, density=1000, min_head=0.0, flow_unit_conversion=1.0, energy_unit_conversion=1e-06, **kwargs):
    super(HydropowerTargetParameter, self).__init__(model, **kwargs)
    self.target = target
    self.water_elevation_parameter = water_elevation_parameter
    self.max_flow = max_flow
    self.min_flow = min_flow
    self.min_head = min_head
    self.turbine_elevation = turbine_elevation
    self.efficiency = efficiency
    self.density = density
    self.flow_unit_conversion = flow_unit_conversion
    self.energy_unit_conversion = energy_unit_conversion


@spec("parameters._parameters.TypeNotFoundError", "__init__", props="C11")
def f(self, data):
    data_str = json.dumps(data)
    if len(data_str) > 1000:
        data_summary = f'{data_str[:500]} ... {data_str[-500:]}'
    else:
        data_summary = data_str
    return f"Unable to find key 'type' in {data_summary}"


@spec("parameters._parameters.Parameter", "__init__", props="C11")
def f(self, *args, is_variable=False, **kwargs):
    super(Parameter, self).__init__(*args, **kwargs)
    self.is_variable = is_variable
    self.double_size = 0
    self.integer_size = 0
    self.is_constant = False


@spec("parameters._parameters.ConstantParameter", "__init__", props="C11")
def f(self, model, value, lower_bounds=0.0, upper_bounds=np.inf, scale=1.0, offset=0.0, **kwargs):
    super(ConstantParameter, self).__init__(model, **kwargs)
    self._value = value
    self.scale = scale
    self.offset = offset
    self.double_size = 1
    self.integer_size = 0
    self.is_constant = True
    self._lower_bounds = np.ones(self.double_size) * lower_bounds
    self._upper_bounds = np.ones(self.double_size) * upper_bounds


@spec("parameters._parameters.DataFrameParameter", "__init__", props="C11")
def f(self, model, dataframe, scenario=None, timestep_offset=0, **kwargs):
    super(DataFrameParameter, self).__init__(model, **kwargs)
    self.dataframe = dataframe
    self.scenario = scenario
    self.timestep_offset = timestep_offset


@spec("parameters._parameters.ArrayIndexedParameter", "__init__", props="C11")
def f(self, model, values, *args, **kwargs):
    super(ArrayIndexedParameter, self).__init__(model, *args, **kwargs)
    self.values = np.asarray(values, dtype=np.float64)


@spec("parameters._parameters.ArrayIndexedScenarioParameter", "__init__", props="C11")
def f(self, model, scenario, values, *args, **kwargs):
    super(ArrayIndexedScenarioParameter, self).__init__(model, *args, **kwargs)
    values = np.asarray(values, dtype=np.float64)
    if values.ndim != 2:
        raise ValueError('Values must be two dimensional.')
    if scenario._size != values.shape[1]:
        raise ValueError('The size of the second dimension of values must equal the size of the scenario.')
    self.values = values
    self._scenario = scenario


@spec("parameters._parameters.TablesArrayParameter", "__init__", props="C11")
def f(self, model, h5file, node, where='/', scenario=None, timestep_offset=0, **kwargs):
    super(TablesArrayParameter, self).__init__(model, **kwargs)
    self.h5file = h5file
    self.h5store = None
    self.node = node
    self.where = where
    self.scenario = scenario
    self.timestep_offset = timestep_offset
    self._values_dbl = None
    self._values_int = None
    self._scenario_index = -1
    self._scenario_ids = None


@spec("parameters._parameters.ConstantScenarioParameter", "__init__", props="C11")
def f(self, model, scenario, values, *args, **kwargs):
    super(ConstantScenarioParameter, self).__init__(model, *args, **kwargs)
    if scenario._size != len(values):
        raise ValueError('The number of values must equal the size of the scenario.')
    self._values = np.empty(scenario._size)
    for i in range(scenario._size):
        self._values[i] = values[i]
    self._scenario = scenario


@spec("parameters._parameters.ArrayIndexedScenarioMonthlyFactorsParameter", "__init__", props="C11")
def f(self, model, scenario, values, factors, *args, **kwargs):
    super(ArrayIndexedScenarioMonthlyFactorsParameter, self).__init__(model, *args, **kwargs)
    values = np.asarray(values, dtype=np.float64)
    factors = np.asarray(factors, dtype=np.float64)
    if factors.ndim != 2:
        raise ValueError('Factors must be two dimensional.')
    if factors.shape[0] != scenario._size:
        raise ValueError('First dimension of factors must be the same size as scenario.')
    if factors.shape[1] != 12:
        raise ValueError('Second dimension of factors must be 12.')
    self._scenario = scenario
    self._values = values
    self._factors = factors


@spec("parameters._parameters.DailyProfileParameter", "__init__", props="C11")
def f(self, model, values, *args, **kwargs):
    super(DailyProfileParameter, self).__init__(model, *args, **kwargs)
    v = np.squeeze(np.array(values))
    if v.ndim != 1:
        raise ValueError('values must be 1-dimensional.')
    if len(values) != 366:
        raise ValueError('366 values must be given for a daily profile.')
    self._values = v


@spec("parameters._parameters.WeeklyProfileParameter", "__init__", props="C11")
def f(self, model, values, *args, **kwargs):
    super(WeeklyProfileParameter, self).__init__(model, *args, **kwargs)
    v = np.squeeze(np.array(values))
    if v.ndim != 1:
        raise ValueError('values must be 1-dimensional.')
    if len(values) == 53:
        values = values[:52]
        warnings.warn('Truncating 53 week profile to 52 weeks.')
    if len(values) != 52:
        raise ValueError('52 values must be given for a weekly profile.')
    self._values = v


@spec("parameters._parameters.MonthlyProfileParameter", "__init__", props="C11")
def f(self, model, values, lower_bounds=0.0, upper_bounds=np.inf, interp_day=None, **kwargs):
    super(MonthlyProfileParameter, self).__init__(model, **kwargs)
    self.double_size = 12
    self.integer_size = 0
    if len(values) != self.double_size:
        raise ValueError('12 values must be given for a monthly profile.')
    self._values = np.array(values)
    self.interp_day = interp_day
    if np.isscalar(lower_bounds):
        lb = np.ones(self.double_size) * lower_bounds
    else:
        lb = np.array(lower_bounds)
        if len(lb) != self.double_size:
            raise ValueError('Lower bounds must be a scalar or array like of 12 values.')
    self._lower_bounds = lb
    if np.isscalar(upper_bounds):
        ub = np.ones(self.double_size) * upper_bounds
    else:
        ub = np.array(upper_bounds)
        if len(ub) != self.double_size:
            raise ValueError('Upper bounds must be a scalar or array like of 12 values.')
    self._upper_bounds = ub


@spec("parameters._parameters.ScenarioMonthlyProfileParameter", "__init__", props="C11")
def f(self, model, scenario, values, **kwargs):
    super(ScenarioMonthlyProfileParameter, self).__init__(model, **kwargs)
    if values.ndim != 2:
        raise ValueError('Factors must be two dimensional.')
    if scenario._size != values.shape[0]:
        raise ValueError('First dimension of factors must be the same size as scenario.')
    if values.shape[1] != 12:
        raise ValueError('Second dimension of factors must be 12.')
    self._scenario = scenario
    self._values = np.array(values)


@spec("parameters._parameters.ScenarioWeeklyProfileParameter", "__init__", props="C11")
def f(self, model, scenario, values, *args, **kwargs):
    super().__init__(model, *args, **kwargs)
    values = np.array(values)
    if values.ndim != 2:
        raise ValueError('Factors must be two dimensional.')
    if scenario._size != values.shape[0]:
        raise ValueError('First dimension of factors must be the same size as scenario.')
    if values.shape[1] != 52:
        raise ValueError('52 values must be given for a weekly profile.')
    self._values = values
    self._scenario = scenario


@spec("parameters._parameters.ScenarioDailyProfileParameter", "__init__", props="C11")
def f(self, model, scenario, values, *args, **kwargs):
    super().__init__(model, *args, **kwargs)
    values = np.array(values)
    if values.ndim != 2:
        raise ValueError('Factors must be two dimensional.')
    if scenario._size != values.shape[0]:
        raise ValueError('First dimension of factors must be the same size as scenario.')
    if values.shape[1] != 366:
        raise ValueError('366 values must be given for a daily profile.')
    self._values = values
    self._scenario = scenario


@spec("parameters._parameters.UniformDrawdownProfileParameter", "__init__", props="C11")
def f(self, model, reset_day=1, reset_month=1, residual_days=0, **kwargs):
    super().__init__(model, **kwargs)
    self.reset_day = reset_day
    self.reset_month = reset_month
    self.residual_days = residual_days


@spec("parameters._parameters.RbfProfileParameter", "__init__", props="C11")
def f(self, model, days_of_year, values, lower_bounds=0.0, upper_bounds=np.inf, rbf_kwargs=None, variable_days_of_year_range=0, variable_days_lower_bounds=None, variable_days_upper_bounds=None, min_value=-np.inf, max_value=np.inf, **kwargs):
    super(RbfProfileParameter, self).__init__(model, **kwargs)
    if len(days_of_year) != len(values):
        raise ValueError(f'The length of values ({len(values)}) must equal the length of `days_of_year` ({len(days_of_year)}).')
    self.variable_days_of_year_range = variable_days_of_year_range
    self.double_size = len(values)
    self._values = np.array(values, dtype=np.float64)
    self.days_of_year = days_of_year
    self.min_value = min_value
    self.max_value = max_value
    if np.isscalar(lower_bounds):
        lb = np.ones(self.double_size) * lower_bounds
    else:
        lb = np.array(lower_bounds)
        if len(lb) != self.double_size:
            raise ValueError('Lower bounds must be a scalar or array like with length equivalent to rbf values')
    self._lower_bounds = lb
    if np.isscalar(upper_bounds):
        ub = np.ones(self.double_size) * upper_bounds
    else:
        ub = np.array(upper_bounds)
        if len(ub) != self.double_size:
            raise ValueError('Upper bounds must be a scalar or array like with length equivalent to rbf values')
    self._upper_bounds = ub
    if variable_days_lower_bounds is not None and variable_days_upper_bounds is not None:
        if np.any(np.array(variable_days_lower_bounds, dtype=np.int32) <= 1):
            raise ValueError('Lower bound cannot be <= 1.')
        if np.any(np.array(variable_days_upper_bounds, dtype=np.int32) > 365):
            raise ValueError('The upper bound cannot be > 365')
        for l2, u1 in zip(variable_days_lower_bounds[1:], variable_days_upper_bounds[:-1]):
            if u1 >= l2:
                raise ValueError('Upper and lower bounds of the variable days range cannot overlap')
        self.integer_size = len(values) - 1
        self._doy_lower_bounds = np.array(variable_days_lower_bounds, dtype=np.int32)
        self._doy_upper_bounds = np.array(variable_days_upper_bounds, dtype=np.int32)
    elif self.variable_days_of_year_range > 0:
        if np.any(np.diff(self.days_of_year) <= 2 * self.variable_days_of_year_range):
            raise ValueError(f'The days of the year are too close together for the given `variable_days_of_year_range`. This could cause the optimised daysof the year to overlap and become out of order.  Either increase thespacing of the days of the year or reduce `variable_days_of_year_range` toless than half the closest distance between the days of the year.')
        self.integer_size = len(values) - 1
        self._doy_lower_bounds = np.array([d - self.variable_days_of_year_range for d in self.days_of_year[1:]], dtype=np.int32)
        self._doy_upper_bounds = np.array([d + self.variable_days_of_year_range for d in self.days_of_year[1:]], dtype=np.int32)
    else:
        self.integer_size = 0
    if rbf_kwargs is not None:
        self.rbf_kwargs = rbf_kwargs
    else:
        self.rbf_kwargs = {}


@spec("parameters._parameters.ConstantScenarioIndexParameter", "__init__", props="C11")
def f(self, model, scenario, values, *args, **kwargs):
    super(ConstantScenarioIndexParameter, self).__init__(model, *args, **kwargs)
    if scenario._size != len(values):
        raise ValueError('The number of values must equal the size of the scenario.')
    self._values = np.empty(scenario._size, dtype=np.int32)
    for i in range(scenario._size):
        self._values[i] = values[i]
    self._scenario = scenario


@spec("parameters._parameters.AnnualHarmonicSeriesParameter", "__init__", props="C11")
def f(self, model, mean, amplitudes, phases, *args, **kwargs):
    if len(amplitudes) != len(phases):
        raise ValueError('The number  of amplitudes and phases must be the same.')
    n = len(amplitudes)
    self.mean = mean
    self._amplitudes = np.array(amplitudes)
    self._phases = np.array(phases)
    self._mean_lower_bounds = kwargs.pop('mean_lower_bounds', 0.0)
    self._mean_upper_bounds = kwargs.pop('mean_upper_bounds', np.inf)
    self._amplitude_lower_bounds = np.ones(n) * kwargs.pop('amplitude_lower_bounds', 0.0)
    self._amplitude_upper_bounds = np.ones(n) * kwargs.pop('amplitude_upper_bounds', np.inf)
    self._phase_lower_bounds = np.ones(n) * kwargs.pop('phase_lower_bounds', 0.0)
    self._phase_upper_bounds = np.ones(n) * kwargs.pop('phase_upper_bounds', np.pi * 2)
    super(AnnualHarmonicSeriesParameter, self).__init__(model, *args, **kwargs)
    self.double_size = 1 + 2 * n
    self._value_cache = 0.0
    self._ts_index_cache = -1


@spec("parameters._parameters.DivisionParameter", "__init__", props="C11")
def f(self, model, numerator, denominator, **kwargs):
    super().__init__(model, **kwargs)
    self._numerator = None
    self._denominator = None
    self.numerator = numerator
    self.denominator = denominator


@spec("parameters._parameters.DeficitParameter", "__init__", props="C11")
def f(self, model, node, *args, **kwargs):
    super(DeficitParameter, self).__init__(model, *args, **kwargs)
    self.node = node


@spec("parameters._parameters.FlowParameter", "__init__", props="C11")
def f(self, model, node, *args, **kwargs):
    self.initial_value = kwargs.pop('initial_value', 0)
    super().__init__(model, *args, **kwargs)
    self.node = node


@spec("parameters._parameters.StorageParameter", "__init__", props="C11")
def f(self, model, storage_node, *args, use_proportional_volume=False, **kwargs):
    super().__init__(model, *args, **kwargs)
    self.storage_node = storage_node
    self.use_proportional_volume = use_proportional_volume


@spec("parameters._parameters.FlowDelayParameter", "__init__", props="C11")
def f(self, model, node, *args, **kwargs):
    self.node = node
    self.timesteps = kwargs.pop('timesteps', 0)
    self.days = kwargs.pop('days', 0)
    self.initial_flow = kwargs.pop('initial_flow', 0.0)
    super().__init__(model, *args, **kwargs)


@spec("parameters._parameters.DiscountFactorParameter", "__init__", props="C11")
def f(self, model, rate, base_year, **kwargs):
    super(DiscountFactorParameter, self).__init__(model, **kwargs)
    self.rate = rate
    self.base_year = base_year


@spec("parameters._parameters.RollingMeanFlowNodeParameter", "__init__", props="C11")
def f(self, model, node, timesteps=None, days=None, initial_flow=0.0, **kwargs):
    super(RollingMeanFlowNodeParameter, self).__init__(model, **kwargs)
    self.node = node
    self.initial_flow = initial_flow
    if not timesteps and (not days):
        raise ValueError('Either `timesteps` or `days` must be specified.')
    if timesteps:
        self.timesteps = int(timesteps)
    else:
        self.timesteps = 0
    if days:
        self.days = int(days)
    else:
        self.days = 0
    self._memory = None
    self.position = 0


@spec("parameters._thresholds.AbstractThresholdParameter", "__init__", props="C11")
def f(self, model, threshold, *args, values=None, predicate=None, ratchet=False, **kwargs):
    super(AbstractThresholdParameter, self).__init__(model, *args, **kwargs)
    self.threshold = threshold
    if values is None:
        self.values = None
    else:
        self.values = np.array(values, np.float64)
    if predicate is None:
        predicate = Predicates.LT
    elif isinstance(predicate, str):
        predicate = _predicate_lookup[predicate.upper()]
    self.predicate = predicate
    self.ratchet = ratchet


@spec("parameters._thresholds.StorageThresholdParameter", "__init__", props="C11")
def f(self, model, storage, *args, **kwargs):
    super(StorageThresholdParameter, self).__init__(model, *args, **kwargs)
    self.storage = storage


@spec("parameters._thresholds.NodeThresholdParameter", "__init__", props="C11")
def f(self, model, node, *args, **kwargs):
    super(NodeThresholdParameter, self).__init__(model, *args, **kwargs)
    self.node = node


@spec("parameters.groundwater.KeatingStreamFlowParameter", "__init__", props="C11")
def f(self, model, storage_node, levels, transmissivity, coefficient=1.0, **kwargs):
    super(KeatingStreamFlowParameter, self).__init__(model, **kwargs)
    self.storage_node = storage_node
    if len(levels) != len(transmissivity):
        raise ValueError('The number of transmissivity values must equal the number of levels.')
    self.levels = np.array(levels)
    self.transmissivity = np.array(transmissivity)
    self.coefficient = coefficient


@spec("parameters.licenses.License", "__init__", props="C11")
def f(self, model, node, **kwargs):
    super(License, self).__init__(model, **kwargs)
    self._node = node


@spec("parameters.licenses.TimestepLicense", "__init__", props="C11")
def f(self, model, node, amount, **kwargs):
    super(TimestepLicense, self).__init__(model, node, **kwargs)
    self._amount = amount


@spec("parameters.licenses.StorageLicense", "__init__", props="C11")
def f(self, model, node, amount, **kwargs):
    super(StorageLicense, self).__init__(model, node, **kwargs)
    self._amount = amount


@spec("parameters.licenses.AnnualLicense", "__init__", props="C11")
def f(self, *args, **kwargs):
    super(AnnualLicense, self).__init__(*args, **kwargs)
    self._prev_year = None


@spec("parameters.licenses.AnnualExponentialLicense", "__init__", props="C11")
def f(self, model, node, amount, max_value, k=1.0, **kwargs):
    super(AnnualExponentialLicense, self).__init__(model, node, amount, **kwargs)
    self._max_value = max_value
    self._k = k


@spec("parameters.licenses.AnnualHyperbolaLicense", "__init__", props="C11")
def f(self, model, node, amount, value, **kwargs):
    super(AnnualHyperbolaLicense, self).__init__(model, node, amount, **kwargs)
    self._value = value


@spec("parameters.multi_model_parameters.OtherModelParameterValueParameter", "__init__", props="C11")
def f(self, model, other_model, parameter, **kwargs):
    super().__init__(model, **kwargs)
    self.other_model = other_model
    self.parameter = parameter
    self._other_model = None
    self._other_model_parameter = None


@spec("parameters.multi_model_parameters.OtherModelIndexParameterValueIndexParameter", "__init__", props="C11")
def f(self, model, other_model, parameter, **kwargs):
    super().__init__(model, **kwargs)
    self.other_model = other_model
    self.parameter = parameter
    self._other_model = None
    self._other_model_parameter = None


@spec("parameters.multi_model_parameters.OtherModelNodeFlowParameter", "__init__", props="C11")
def f(self, model, other_model, node, **kwargs):
    super().__init__(model, **kwargs)
    self.other_model = other_model
    self.node = node
    self._other_model = None
    self._other_model_node = None


@spec("parameters.multi_model_parameters.OtherModelNodeStorageParameter", "__init__", props="C11")
def f(self, model, other_model, node, **kwargs):
    super().__init__(model, **kwargs)
    self.other_model = other_model
    self.node = node
    self._other_model = None
    self._other_model_node = None


@spec("parameters.parameters.FunctionParameter", "__init__", props="C11")
def f(self, model, parent, func, *args, **kwargs):
    super(FunctionParameter, self).__init__(model, *args, **kwargs)
    self._parent = parent
    self._func = func


@spec("parameters.parameters.AbstractInterpolatedParameter", "__init__", props="C11")
def f(self, model, x, y, interp_kwargs=None, **kwargs):
    super(AbstractInterpolatedParameter, self).__init__(model, **kwargs)
    self.x = x
    self.y = y
    self.interp = None
    default_interp_kwargs = dict(kind='linear', bounds_error=True)
    if interp_kwargs is not None:
        default_interp_kwargs.update(interp_kwargs)
    self.interp_kwargs = default_interp_kwargs


@spec("parameters.parameters.InterpolatedParameter", "__init__", props="C11")
def f(self, model, parameter, x, y, interp_kwargs=None, **kwargs):
    super(InterpolatedParameter, self).__init__(model, x, y, interp_kwargs, **kwargs)
    self._parameter = None
    self.parameter = parameter


@spec("parameters.parameters.InterpolatedVolumeParameter", "__init__", props="C11")
def f(self, model, node, volumes, values, interp_kwargs=None, **kwargs):
    super(InterpolatedVolumeParameter, self).__init__(model, volumes, values, interp_kwargs, **kwargs)
    self._node = node


@spec("parameters.parameters.InterpolatedFlowParameter", "__init__", props="C11")
def f(self, model, node, flows, values, interp_kwargs=None, **kwargs):
    super().__init__(model, flows, values, interp_kwargs, **kwargs)
    self._node = node


@spec("parameters.parameters.InterpolatedQuadratureParameter", "__init__", props="C11")
def f(self, model, upper_parameter, x, y, lower_parameter=None, interp_kwargs=None, **kwargs):
    super().__init__(model, x, y, interp_kwargs, **kwargs)
    self._upper_parameter = None
    self.upper_parameter = upper_parameter
    self._lower_parameter = None
    self.lower_parameter = lower_parameter


@spec("recorders._hydropower.HydropowerRecorder", "__init__", props="C11")
def f(self, model, node, water_elevation_parameter=None, turbine_elevation=0.0, efficiency=1.0, density=1000, flow_unit_conversion=1.0, energy_unit_conversion=1e-06, **kwargs):
    super(HydropowerRecorder, self).__init__(model, node, **kwargs)
    self.water_elevation_parameter = water_elevation_parameter
    self.turbine_elevation = turbine_elevation
    self.efficiency = efficiency
    self.density = density
    self.flow_unit_conversion = flow_unit_conversion
    self.energy_unit_conversion = energy_unit_conversion


@spec("recorders._hydropower.TotalHydroEnergyRecorder", "__init__", props="C11")
def f(self, model, node, water_elevation_parameter=None, turbine_elevation=0.0, efficiency=1.0, density=1000, flow_unit_conversion=1.0, energy_unit_conversion=1e-06, **kwargs):
    super(TotalHydroEnergyRecorder, self).__init__(model, node, **kwargs)
    self.water_elevation_parameter = water_elevation_parameter
    self.turbine_elevation = turbine_elevation
    self.efficiency = efficiency
    self.density = density
    self.flow_unit_conversion = flow_unit_conversion
    self.energy_unit_conversion = energy_unit_conversion


@spec("recorders._recorders.Aggregator", "__init__", props="C11")
def f(self, func):
    self.func = func


@spec("recorders._recorders.Recorder", "__init__", props="C11")
def f(self, model, agg_func='mean', ignore_nan=False, is_objective=None, epsilon=1.0, name=None, constraint_lower_bounds=None, constraint_upper_bounds=None, **kwargs):
    self._constraint_lower_bounds = -np.inf
    self._constraint_upper_bounds = np.inf
    if name is None:
        name = self.__class__.__name__.lower()
    super(Recorder, self).__init__(model, name=name, **kwargs)
    self.ignore_nan = ignore_nan
    self.is_objective = is_objective
    self.epsilon = epsilon
    self.constraint_lower_bounds = constraint_lower_bounds
    self.constraint_upper_bounds = constraint_upper_bounds
    self._scenario_aggregator = Aggregator(agg_func)


@spec("recorders._recorders.NodeRecorder", "__init__", props="C11")
def f(self, model, node, name=None, **kwargs):
    if name is None:
        name = '{}.{}'.format(self.__class__.__name__.lower(), node.name)
    super(NodeRecorder, self).__init__(model, name=name, **kwargs)
    self._node = node
    node._recorders.append(self)


@spec("recorders._recorders.StorageRecorder", "__init__", props="C11")
def f(self, model, node, name=None, **kwargs):
    if name is None:
        name = '{}.{}'.format(self.__class__.__name__.lower(), node.name)
    super(StorageRecorder, self).__init__(model, name=name, **kwargs)
    self._node = node
    node._recorders.append(self)


@spec("recorders._recorders.NumpyArrayNodeRecorder", "__init__", props="C11")
def f(self, model, node, **kwargs):
    temporal_agg_func = kwargs.pop('temporal_agg_func', 'mean')
    factor = kwargs.pop('factor', 1.0)
    super(NumpyArrayNodeRecorder, self).__init__(model, node, **kwargs)
    self._temporal_aggregator = Aggregator(temporal_agg_func)
    self.factor = factor


@spec("recorders._recorders.FlowDurationCurveRecorder", "__init__", props="C11")
def f(self, model, node, percentiles, **kwargs):
    if 'fdc_agg_func' in kwargs:
        warnings.warn('The "fdc_agg_func" key is deprecated for defining the temporal aggregation in {}. Please "temporal_agg_func" instead.'.format(self.__class__.__name__))
        if 'temporal_agg_func' in kwargs:
            raise ValueError('Both "fdc_agg_func" and "temporal_agg_func" keywords given.This is ambiguous. Please use "temporal_agg_func" only.')
        kwargs['temporal_agg_func'] = kwargs.pop('fdc_agg_func')
    super(FlowDurationCurveRecorder, self).__init__(model, node, **kwargs)
    self._percentiles = np.asarray(percentiles, dtype=np.float64)


@spec("recorders._recorders.SeasonalFlowDurationCurveRecorder", "__init__", props="C11")
def f(self, model, node, percentiles, months, **kwargs):
    super(SeasonalFlowDurationCurveRecorder, self).__init__(model, node, percentiles, **kwargs)
    self._months = set(months)


@spec("recorders._recorders.FlowDurationCurveDeviationRecorder", "__init__", props="C11")
def f(self, model, node, percentiles, lower_target_fdc=None, upper_target_fdc=None, scenario=None, **kwargs):
    super(FlowDurationCurveDeviationRecorder, self).__init__(model, node, percentiles, **kwargs)
    if lower_target_fdc is None and upper_target_fdc is None:
        raise ValueError("At least one of the 'lower_target_fdc' and 'lower_target_fdc' arguments should be provided")
    if lower_target_fdc is None:
        lower_target = None
    else:
        lower_target = np.array(lower_target_fdc, dtype=np.float64)
        if lower_target.ndim < 2:
            lower_target = lower_target[:, np.newaxis]
    if upper_target_fdc is None:
        upper_target = None
    else:
        upper_target = np.array(upper_target_fdc, dtype=np.float64)
        if upper_target.ndim < 2:
            upper_target = upper_target[:, np.newaxis]
    self._lower_target_fdc = lower_target
    self._upper_target_fdc = upper_target
    self.scenario = scenario
    if self._lower_target_fdc is not None:
        if len(self._percentiles) != self._lower_target_fdc.shape[0]:
            raise ValueError('The lengths of the lower target FDC and the percentiles list do not match')
    if self._upper_target_fdc is not None:
        if len(self._percentiles) != self._upper_target_fdc.shape[0]:
            raise ValueError('The lengths of the upper target FDC and the percentiles list do not match')


@spec("recorders._recorders.NumpyArrayAbstractStorageRecorder", "__init__", props="C11")
def f(self, model, node, **kwargs):
    temporal_agg_func = kwargs.pop('temporal_agg_func', 'mean')
    super().__init__(model, node, **kwargs)
    self._temporal_aggregator = Aggregator(temporal_agg_func)


@spec("recorders._recorders.NumpyArrayStorageRecorder", "__init__", props="C11")
def f(self, *args, **kwargs):
    self.proportional = kwargs.pop('proportional', False)
    super().__init__(*args, **kwargs)


@spec("recorders._recorders.StorageDurationCurveRecorder", "__init__", props="C11")
def f(self, model, node, percentiles, **kwargs):
    if 'sdc_agg_func' in kwargs:
        warnings.warn('The "sdc_agg_func" key is deprecated for defining the temporal aggregation in {}. Please "temporal_agg_func" instead.'.format(self.__class__.__name__))
        if 'temporal_agg_func' in kwargs:
            raise ValueError('Both "sdc_agg_func" and "temporal_agg_func" keywords given.This is ambiguous. Please use "temporal_agg_func" only.')
        kwargs['temporal_agg_func'] = kwargs.pop('sdc_agg_func')
    super(StorageDurationCurveRecorder, self).__init__(model, node, **kwargs)
    self._percentiles = np.asarray(percentiles, dtype=np.float64)


@spec("recorders._recorders.NumpyArrayParameterRecorder", "__init__", props="C11")
def f(self, model, param, **kwargs):
    temporal_agg_func = kwargs.pop('temporal_agg_func', 'mean')
    super(NumpyArrayParameterRecorder, self).__init__(model, param, **kwargs)
    self._temporal_aggregator = Aggregator(temporal_agg_func)


@spec("recorders._recorders.NumpyArrayDailyProfileParameterRecorder", "__init__", props="C11")
def f(self, model, param, **kwargs):
    temporal_agg_func = kwargs.pop('temporal_agg_func', 'mean')
    super().__init__(model, param, **kwargs)
    self._temporal_aggregator = Aggregator(temporal_agg_func)


@spec("recorders._recorders.NumpyArrayIndexParameterRecorder", "__init__", props="C11")
def f(self, model, param, **kwargs):
    temporal_agg_func = kwargs.pop('temporal_agg_func', 'mean')
    super(NumpyArrayIndexParameterRecorder, self).__init__(model, param, **kwargs)
    self._temporal_aggregator = Aggregator(temporal_agg_func)


@spec("recorders._recorders.RollingWindowParameterRecorder", "__init__", props="C11")
def f(self, model, param, window, *args, **kwargs):
    if 'agg_func' in kwargs and 'temporal_agg_func' not in kwargs:
        warnings.warn('The "agg_func" key is deprecated for defining the temporal aggregation in {}. Please "temporal_agg_func" instead.'.format(self.__class__.__name__))
        temporal_agg_func = kwargs.get('agg_func')
    else:
        temporal_agg_func = kwargs.pop('temporal_agg_func', 'mean')
    super(RollingWindowParameterRecorder, self).__init__(model, param, *args, **kwargs)
    self.window = window
    self._temporal_aggregator = Aggregator(temporal_agg_func)


@spec("recorders._recorders.RollingMeanFlowNodeRecorder", "__init__", props="C11")
def f(self, model, node, timesteps=None, days=None, name=None, **kwargs):
    warnings.warn('`RollingMeanFlowNodeRecorder` has been deprecated in favour of `RollingMeanFlowNodeParameter`. If you need to record the value use a recorder capable of recording an arbitrary parameter (e.g. `NumpyArrayParameterRecorder`)', DeprecationWarning, stacklevel=2)
    super(RollingMeanFlowNodeRecorder, self).__init__(model, node, name=name, **kwargs)
    self.model = model
    if not timesteps and (not days):
        raise ValueError('Either `timesteps` or `days` must be specified.')
    if timesteps:
        self.timesteps = int(timesteps)
    else:
        self.timesteps = 0
    if days:
        self.days = int(days)
    else:
        self.days = 0
    self._data = None
    self._memory = None
    self.position = 0


@spec("recorders._recorders.TotalFlowNodeRecorder", "__init__", props="C11")
def f(self, *args, **kwargs):
    self.factor = kwargs.pop('factor', 1.0)
    super(TotalFlowNodeRecorder, self).__init__(*args, **kwargs)


@spec("recorders._recorders.MeanFlowNodeRecorder", "__init__", props="C11")
def f(self, *args, **kwargs):
    self.factor = kwargs.pop('factor', 1.0)
    super(MeanFlowNodeRecorder, self).__init__(*args, **kwargs)


@spec("recorders._recorders.MinimumThresholdVolumeStorageRecorder", "__init__", props="C11")
def f(self, model, node, threshold, *args, **kwargs):
    self.threshold = threshold
    super(MinimumThresholdVolumeStorageRecorder, self).__init__(model, node, *args, **kwargs)


@spec("recorders._recorders.TimestepCountIndexParameterRecorder", "__init__", props="C11")
def f(self, model, parameter, threshold, *args, **kwargs):
    super().__init__(model, parameter, *args, **kwargs)
    self.threshold = threshold


@spec("recorders._recorders.AnnualTotalFlowRecorder", "__init__", props="C11")
def f(self, model, name, nodes, *args, **kwargs):
    temporal_agg_func = kwargs.pop('temporal_agg_func', 'sum')
    factors = kwargs.pop('factors', None)
    super().__init__(model, *args, name=name, **kwargs)
    self.nodes = nodes
    self.factors = factors
    self._temporal_aggregator = Aggregator(temporal_agg_func)


@spec("recorders._recorders.AnnualCountIndexParameterRecorder", "__init__", props="C11")
def f(self, model, param, threshold, *args, **kwargs):
    super(AnnualCountIndexParameterRecorder, self).__init__(model, param, *args, **kwargs)
    self.threshold = threshold


@spec("recorders._recorders.TotalParameterRecorder", "__init__", props="C11")
def f(self, *args, **kwargs):
    self.factor = kwargs.pop('factor', 1.0)
    self.integrate = kwargs.pop('integrate', False)
    super(TotalParameterRecorder, self).__init__(*args, **kwargs)


@spec("recorders._recorders.MeanParameterRecorder", "__init__", props="C11")
def f(self, *args, **kwargs):
    self.factor = kwargs.pop('factor', 1.0)
    super(MeanParameterRecorder, self).__init__(*args, **kwargs)


@spec("recorders._tables_recorders.TablesRecorder2", "__init__", props="C11")
def f(self, model, h5file, nodes=None, parameters=None, where='/', time='/time', routes_flows=None, routes='/routes', scenarios='/scenarios', **kwargs):
    self.filter_kwds = kwargs.pop('filter_kwds', {})
    self.mode = kwargs.pop('mode', 'w')
    self.metadata = kwargs.pop('metadata', {})
    self.create_directories = kwargs.pop('create_directories', False)
    self.buffer_size = kwargs.pop('buffer_size', 100)
    self.buffer_timesteps = kwargs.pop('buffer_timesteps', None)
    self._buffer_num_timesteps = 1
    title = kwargs.pop('title', None)
    if title is None:
        try:
            title = model.metadata['title']
        except KeyError:
            title = ''
    self.title = title
    super(TablesRecorder2, self).__init__(model, **kwargs)
    self.h5file = h5file
    self.h5store = None
    self._node_arrays = None
    self._nodes = None
    self._storage_node_arrays = None
    self._storage_nodes = None
    self._parameter_arrays = None
    self._parameters = None
    self._index_parameter_arrays = None
    self._index_parameters = None
    self.nodes = nodes
    self.where = where
    self.time = time
    self.scenarios = scenarios
    self.routes = routes
    self.routes_flows = routes_flows
    if routes_flows:
        self.model.solver.save_routes_flows = True
    self.parameters = []
    if parameters:
        for parameter in parameters:
            self._add_parameter(parameter)
    self._time_table = None
    self._routes_flow_array = None


@spec("recorders._thresholds.StorageThresholdRecorder", "__init__", props="C11")
def f(self, model, node, threshold, *args, predicate=None, **kwargs):
    super(StorageThresholdRecorder, self).__init__(model, node, *args, **kwargs)
    self.threshold = threshold
    if predicate is None:
        predicate = Predicates.LT
    elif isinstance(predicate, str):
        predicate = _predicate_lookup[predicate.upper()]
    self.predicate = predicate


@spec("recorders._thresholds.NodeThresholdRecorder", "__init__", props="C11")
def f(self, model, node, threshold, *args, predicate=None, **kwargs):
    super(NodeThresholdRecorder, self).__init__(model, node, *args, **kwargs)
    self.threshold = threshold
    if predicate is None:
        predicate = Predicates.LT
    elif isinstance(predicate, str):
        predicate = _predicate_lookup[predicate.upper()]
    self.predicate = predicate


@spec("recorders.calibration.AbstractComparisonNodeRecorder", "__init__", props="C11")
def f(self, model, node, observed, **kwargs):
    super(AbstractComparisonNodeRecorder, self).__init__(model, node, **kwargs)
    self.observed = observed
    self._aligned_observed = None


@spec("recorders.events.Event", "__init__", props="C11")
def f(self, start, scenario_index):
    self.start = start
    self.scenario_index = scenario_index
    self.end = None
    self.values = None


@spec("recorders.kde.GaussianKDEStorageRecorder", "__init__", props="C11")
def f(self, *args, **kwargs):
    self.resample_freq = kwargs.pop('resample_freq', None)
    self.resample_func = kwargs.pop('resample_func', None)
    self.target_volume_pc = kwargs.pop('target_volume_pc')
    self.use_reflection = kwargs.pop('use_reflection', True)
    self.num_pdf = kwargs.pop('num_pdf', 101)
    super().__init__(*args, proportional=True, **kwargs)
    self._probability_of_target_volume = None
    self._pdf = None


@spec("recorders.kde.NormalisedGaussianKDEStorageRecorder", "__init__", props="C11")
def f(self, *args, **kwargs):
    self.resample_freq = kwargs.pop('resample_freq', None)
    self.resample_func = kwargs.pop('resample_func', None)
    self.use_reflection = kwargs.pop('use_reflection', True)
    self.num_pdf = kwargs.pop('num_pdf', 101)
    super().__init__(*args, **kwargs)
    self._probability_of_target_volume = None
    self._pdf = None


@spec("recorders.progress.ProgressRecorder", "__init__", props="C11")
def f(self, *args, **kwargs):
    print_func = kwargs.pop('print_func', None)
    super(ProgressRecorder, self).__init__(*args, **kwargs)
    if print_func is None:
        print_func = logger.info
    self.print_func = print_func
    self.last_progress = None
    self.last_timestep = None
    self.t0 = None
    self.combinations = None


@spec("recorders.progress.JupyterProgressRecorder", "__init__", props="C11")
def f(self, *args, **kwargs):
    super(JupyterProgressRecorder, self).__init__(*args, **kwargs)


@spec("recorders.recorders.AssertionRecorder", "__init__", props="C11")
def f(self, model, parameter, expected_data=None, expected_func=None, get_index=False, **kwargs):
    super(AssertionRecorder, self).__init__(model, **kwargs)
    self._parameter = None
    self.parameter = parameter
    self.expected_data = expected_data
    self.expected_func = expected_func
    self.get_index = get_index


@spec("recorders.recorders.CSVRecorder", "__init__", props="C11")
def f(self, model, csvfile, scenario_index=0, nodes=None, complib=None, complevel=9, **kwargs):
    csv_kwargs = kwargs.pop('csv_kwargs', {})
    super(CSVRecorder, self).__init__(model, **kwargs)
    self.csvfile = csvfile
    self.scenario_index = scenario_index
    self.nodes = nodes
    self.csv_kwargs = csv_kwargs
    self._node_names = None
    self._fh = None
    self._writer = None
    self.complib = complib
    self.complevel = complevel


@spec("recorders.recorders.TablesRecorder", "__init__", props="C11")
def f(self, model, h5file, nodes=None, parameters=None, where='/', time='/time', routes_flows=None, routes='/routes', scenarios='/scenarios', **kwargs):
    self.filter_kwds = kwargs.pop('filter_kwds', {})
    self.mode = kwargs.pop('mode', 'w')
    self.metadata = kwargs.pop('metadata', {})
    self.create_directories = kwargs.pop('create_directories', False)
    self.use_legacy_attribute_naming = kwargs.pop('use_legacy_attribute_naming', False)
    title = kwargs.pop('title', None)
    if title is None:
        try:
            title = model.metadata['title']
        except KeyError:
            title = ''
    self.title = title
    super(TablesRecorder, self).__init__(model, **kwargs)
    self.h5file = h5file
    self.h5store = None
    self._arrays = {}
    self.nodes = nodes
    self.where = where
    self.time = time
    self.scenarios = scenarios
    self.routes = routes
    self.routes_flows = routes_flows
    if routes_flows:
        self.model.solver.save_routes_flows = True
    self.parameters = []
    if parameters:
        for parameter in parameters:
            self._add_parameter(parameter)
    self._arrays = None
    self._time_table = None
    self._routes_flow_array = None


@spec("timestepper.Timestepper", "__init__", props="C18")
def f(self, start='2015-01-01', end='2015-12-31', delta=1):
    self.start = start
    self.end = end
    self.delta = delta
    self._last_length = None
    self._periods = None
    self._deltas = None
    self._current = None
    self._next = None
    self.setup()
    self.reset()
    self._dirty = True



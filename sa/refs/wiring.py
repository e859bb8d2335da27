# Compound nodes: the sub-nodes they create, how these are connected, and which of them a connection
# to or from the node uses.  Interpreted, never executed.


@spec("nodes.Connectable", "iter_slots", props="C25", calls="yield")
def f(self, slot_name=None, is_connector=True, all_slots=False):
    if slot_name is not None:
        raise ValueError('{} does not have slot: {}'.format(self, slot_name))
    yield self


@spec("nodes.Connectable", "connect", props="C25", calls="add_edge", raises=True)
def f(self, node, from_slot=None, to_slot=None):
    if self.model is not node.model:
        raise RuntimeError("Can't connect Nodes in different Models")
    if not isinstance(node, Connectable):
        raise TypeError('Other node ({}) is not connectable.'.format(node))
    for node1 in self.iter_slots(slot_name=from_slot, is_connector=True):
        for node2 in node.iter_slots(slot_name=to_slot, is_connector=False):
            self.model.graph.add_edge(node1, node2)
    self.model.dirty = True


@spec("nodes.Connectable", "disconnect", props="C25", calls="remove_edge")
def f(self, node=None, slot_name=None, all_slots=True):
    if node is not None:
        self._disconnect(node, slot_name=slot_name, all_slots=all_slots)
    else:
        for slot in self.iter_slots(is_connector=True, all_slots=True):
            for neighbor in list(self.model.graph.neighbors(slot)):
                self.model.graph.remove_edge(slot, neighbor)
        self.model.dirty = True


@spec("nodes.Connectable", "_disconnect", props="C25", calls="remove_edge")
def f(self, node, slot_name=None, all_slots=True):
    disconnected = False
    for slot in self.iter_slots(is_connector=True, all_slots=True):
        if self.model.graph.has_edge(slot, node):
            node_slots = [node]
        elif isinstance(node, Connectable):
            node_slots = node.iter_slots(slot_name=slot_name, is_connector=False, all_slots=all_slots)
        else:
            node_slots = []
        for node_slot in node_slots:
            if self.model.graph.has_edge(slot, node_slot):
                self.model.graph.remove_edge(slot, node_slot)
                disconnected = True
    if not disconnected:
        raise nx.exception.NetworkXError('{} is not connected to {}'.format(self, node))
    self.model.dirty = True


@spec("nodes.Connectable", "disconnect", props="C25", selfcalls="iter_slots _disconnect", keep="iter_slots _disconnect")
def f(self, node=None, slot_name=None, all_slots=True):
    if node is not None:
        self._disconnect(node, slot_name=slot_name, all_slots=all_slots)
    else:
        for slot in self.iter_slots(is_connector=True, all_slots=True):
            for neighbor in list(self.model.graph.neighbors(slot)):
                self.model.graph.remove_edge(slot, neighbor)
        self.model.dirty = True


@spec("nodes.Connectable", "_disconnect", props="C25", selfcalls="iter_slots", keep="iter_slots")
def f(self, node, slot_name=None, all_slots=True):
    disconnected = False
    for slot in self.iter_slots(is_connector=True, all_slots=True):
        if self.model.graph.has_edge(slot, node):
            node_slots = [node]
        elif isinstance(node, Connectable):
            node_slots = node.iter_slots(slot_name=slot_name, is_connector=False, all_slots=all_slots)
        else:
            node_slots = []
        for node_slot in node_slots:
            if self.model.graph.has_edge(slot, node_slot):
                self.model.graph.remove_edge(slot, node_slot)
                disconnected = True
    if not disconnected:
        raise nx.exception.NetworkXError('{} is not connected to {}'.format(self, node))
    self.model.dirty = True


@spec("nodes.Connectable", "_disconnect", props="C25", calls="iter_slots", keep="iter_slots")
def f(self, node, slot_name=None, all_slots=True):
    disconnected = False
    for slot in self.iter_slots(is_connector=True, all_slots=True):
        if self.model.graph.has_edge(slot, node):
            node_slots = [node]
        elif isinstance(node, Connectable):
            node_slots = node.iter_slots(slot_name=slot_name, is_connector=False, all_slots=all_slots)
        else:
            node_slots = []
        for node_slot in node_slots:
            if self.model.graph.has_edge(slot, node_slot):
                self.model.graph.remove_edge(slot, node_slot)
                disconnected = True
    if not disconnected:
        raise nx.exception.NetworkXError('{} is not connected to {}'.format(self, node))
    self.model.dirty = True


@spec("nodes.NodeMeta", "__call__", props="C25 C07", calls="add_node")
def f(cls, *args, **kwargs):
    node = type.__call__(cls, *args, **kwargs)
    node.model.graph.add_node(node)
    node.model.dirty = True
    return node


@spec("nodes.Storage", "iter_slots", props="C25", calls="yield")
def f(self, slot_name=None, is_connector=True, all_slots=False):
    if is_connector:
        if not self.inputs and not all_slots:
            raise ValueError('{} does not have any inputs.'.format(self))
        if slot_name is None:
            if not (all_slots or len(self.inputs) == 1):
                raise ValueError('Must specify slot identifier.')
            for node in self.inputs:
                yield node
        else:
            yield self.inputs[slot_name]
    else:
        if not self.outputs and not all_slots:
            raise ValueError('{} does not have any outputs.'.format(self))
        if slot_name is None:
            if not (all_slots or len(self.outputs) == 1):
                raise ValueError('Must specify slot identifier.')
            for node in self.outputs:
                yield node
        else:
            yield self.outputs[slot_name]


@spec("nodes.PiecewiseLink", "iter_slots", props="C25", calls="yield")
def f(self, slot_name=None, is_connector=True, all_slots=False):
    if is_connector:
        yield self.input
    else:
        yield self.output


@spec("nodes.MultiSplitLink", "iter_slots", props="C25", calls="yield")
def f(self, slot_name=None, is_connector=True, all_slots=False):
    if is_connector:
        if slot_name is None and all_slots:
            yield self.input
            yield from self._extra_inputs
            return
        i = self.slot_names.index(slot_name)
        if i == 0:
            yield self.input
        else:
            yield self._extra_inputs[i - 1]
    else:
        yield self.output


@spec("nodes.BreakLink", "iter_slots", props="C25", calls="yield")
def f(self, slot_name=None, is_connector=True, all_slots=False):
    if is_connector:
        yield self.link
    else:
        yield self.storage.outputs[0]


@spec("nodes.DelayNode", "iter_slots", props="C25", calls="yield")
def f(self, slot_name=None, is_connector=True, all_slots=False):
    if is_connector:
        yield self.input
    else:
        yield self.output


@spec("nodes.LossLink", "iter_slots", props="C25", calls="yield")
def f(self, slot_name=None, is_connector=True, all_slots=False):
    if is_connector:
        yield self.net
    else:
        yield self.gross


@spec("nodes.Storage", "__init__", props="C25", cells="outputs inputs", calls="super.__init__ StorageOutput StorageInput append add_node")
def f(self, model, name, outputs=1, inputs=1, *args, **kwargs):
    super(Storage, self).__init__(model, name, **kwargs)
    self.outputs = []
    for n in range(0, outputs):
        self.outputs.append(StorageOutput(model, name='[output{}]'.format(n), parent=self))
    self.inputs = []
    for n in range(0, inputs):
        self.inputs.append(StorageInput(model, name='[input{}]'.format(n), parent=self))
    for node in self.outputs:
        self.model.graph.add_node(node)
    for node in self.inputs:
        self.model.graph.add_node(node)


@spec("nodes.PiecewiseLink", "__init__", props="C25", calls="super.__init__ Input Output connect append")
def f(self, model, nsteps, *args, **kwargs):
    name = kwargs.pop('name')
    costs = kwargs.pop('costs', None)
    max_flows = kwargs.pop('max_flows', None)
    self.sub_domain = Domain()
    self.input = Input(model, name='{} Input'.format(name), parent=self)
    self.output = Output(model, name='{} Output'.format(name), parent=self)
    self.sub_output = Output(model, name='{} Sub Output'.format(name), parent=self, domain=self.sub_domain)
    self.sub_output.connect(self.input)
    self.sublinks = []
    for i in range(nsteps):
        sublink = Input(model, name='{} Sublink {}'.format(name, i), parent=self, domain=self.sub_domain)
        self.sublinks.append(sublink)
        sublink.connect(self.sub_output)
        self.output.connect(self.sublinks[-1])
    super().__init__(model, *args, name=name, **kwargs)
    if costs is not None:
        self.costs = costs
    if max_flows is not None:
        self.max_flows = max_flows


@spec("nodes.BreakLink", "__init__", props="C25", calls="super.__init__ Storage Link connect")
def f(self, model, name, **kwargs):
    storage_name = '{} (storage)'.format(name)
    link_name = '{} (link)'.format(name)
    assert storage_name not in model.nodes
    assert link_name not in model.nodes
    self.storage = Storage(model, name=storage_name, min_volume=0, max_volume=0, initial_volume=0, cost=0, parent=self)
    self.link = Link(model, name=link_name, parent=self)
    self.storage.connect(self.link)
    super(BreakLink, self).__init__(model, name, **kwargs)


@spec("nodes.DelayNode", "__init__", props="C25", calls="super.__init__ Input Output FlowDelayParameter connect")
def f(self, model, name, **kwargs):
    output_name = '{} Output'.format(name)
    input_name = '{} Input'.format(name)
    param_name = '{} - delay parameter'.format(name)
    assert output_name not in model.nodes
    assert input_name not in model.nodes
    assert param_name not in model.parameters
    days = kwargs.pop('days', 0)
    timesteps = kwargs.pop('timesteps', 0)
    initial_flow = kwargs.pop('initial_flow', 0.0)
    self.output = Output(model, name=output_name, parent=self)
    self.delay_param = FlowDelayParameter(model, self.output, timesteps=timesteps, days=days, initial_flow=initial_flow, name=param_name)
    self.input = Input(model, name=input_name, min_flow=self.delay_param, max_flow=self.delay_param, parent=self)
    super().__init__(model, name, **kwargs)


@spec("nodes.LossLink", "__init__", props="C25", calls="super.__init__ Output Link AggregatedNode connect")
def f(self, model, name, **kwargs):
    output_name = '{} Output'.format(name)
    gross_name = '{} Gross'.format(name)
    net_name = '{} Net'.format(name)
    agg_name = '{} Aggregated'.format(name)
    assert output_name not in model.nodes
    assert gross_name not in model.nodes
    assert net_name not in model.nodes
    assert agg_name not in model.nodes
    self.output = Output(model, name=output_name, parent=self)
    self.gross = Link(model, name=gross_name, parent=self)
    self.net = Link(model, name=net_name, parent=self)
    self.gross.connect(self.output)
    self.gross.connect(self.net)
    self.agg = AggregatedNode(model, name=agg_name, nodes=[self.net, self.output], parent=self)
    self.loss_factor_type = kwargs.pop('loss_factor_type', 'net')
    self.loss_factor = kwargs.pop('loss_factor', 0.0)
    super().__init__(model, name, **kwargs)


@spec("nodes.MultiSplitLink", "__init__", props="C25", calls="super.__init__ Output Input AggregatedNode connect append")
def f(self, model, nsteps, *args, **kwargs):
    costs = kwargs.pop('costs', None)
    max_flows = kwargs.pop('max_flows', None)
    extra_slots = kwargs.pop('extra_slots', 1)
    if extra_slots < 1:
        raise ValueError('extra_slots must be at least 1.')
    self.slot_names = list(kwargs.pop('slot_names', range(extra_slots + 1)))
    if extra_slots + 1 != len(self.slot_names):
        raise ValueError('slot_names must be one more than the number of extra_slots.')
    factors = kwargs.pop('factors', None)
    super(MultiSplitLink, self).__init__(model, nsteps + extra_slots, *args, **kwargs)
    self._extra_inputs = []
    self._extra_outputs = []
    n = len(self.sublinks) - extra_slots
    for i in range(extra_slots):
        otpt = Output(self.model, '{} Extra Output {}'.format(self.name, i), domain=self.sub_domain, parent=self)
        inpt = Input(self.model, '{} Extra Input {}'.format(self.name, i), parent=self)
        otpt.connect(inpt)
        self.sublinks[n + i].connect(otpt)
        self._extra_inputs.append(inpt)
        self._extra_outputs.append(otpt)
    if costs is not None:
        self.costs = costs + [0.0] * extra_slots
    if max_flows is not None:
        self.max_flows = max_flows + [None] * extra_slots
    if factors is not None:
        if extra_slots + 1 != len(factors):
            raise ValueError('factors must have a length equal to extra_slots.')
        nodes = []
        valid_factors = []
        for r, nd in zip(factors, self.sublinks[n - 1:]):
            if r is not None:
                nodes.append(nd)
                valid_factors.append(r)
        agg = AggregatedNode(self.model, '{} Agg'.format(self.name), nodes, parent=self)
        agg.factors = valid_factors


@spec("domains.river.Reservoir", "__init__", props="C25", calls="super.__init__ ControlCurveParameter ConstantParameter")
def f(self, model, *args, **kwargs):
    control_curve = pop_kwarg_parameter(kwargs, 'control_curve', None)
    above_curve_cost = kwargs.pop('above_curve_cost', None)
    cost = kwargs.pop('cost', 0.0)
    if above_curve_cost is not None:
        if control_curve is None:
            control_curve = ConstantParameter(model, 1.0)
        elif not isinstance(control_curve, Parameter):
            control_curve = ConstantParameter(model, control_curve)
        if isinstance(cost, Parameter):
            raise ValueError('If an above_curve_cost is given cost must not be a Parameter.')
        kwargs['cost'] = ControlCurveParameter(model, self, control_curve, [above_curve_cost, cost])
    else:
        kwargs['cost'] = cost
    super(Reservoir, self).__init__(model, *args, **kwargs)


@spec("domains.river.RiverSplit", "__init__", props="C25", calls="super.__init__")
def f(self, model, *args, nsteps=1, **kwargs):
    factors = kwargs.pop('factors')
    costs = kwargs.pop('costs', [0.0])
    max_flows = kwargs.pop('max_flows', [None])
    super(RiverSplit, self).__init__(model, nsteps, *args, extra_slots=len(factors) - 1, factors=factors, costs=costs, max_flows=max_flows, **kwargs)


@spec("domains.river.RiverSplitWithGauge", "__init__", props="C25", calls="super.__init__")
def f(self, model, *args, mrf=0.0, cost=0.0, mrf_cost=0.0, **kwargs):
    super(RiverSplitWithGauge, self).__init__(model, *args, nsteps=2, max_flows=[mrf, None], costs=[mrf_cost, cost], **kwargs)


@spec("domains.river.RiverGauge", "__init__", props="C25", calls="super.__init__")
def f(self, *args, **kwargs):
    cost = kwargs.pop('cost', 0.0)
    kwargs['costs'] = [kwargs.pop('mrf_cost', 0.0), cost]
    kwargs['max_flows'] = [kwargs.pop('mrf', 0.0), None]
    super(RiverGauge, self).__init__(*args, nsteps=2, **kwargs)


@spec("domains.river.Catchment", "__init__", props="C25", calls="super.__init__")
def f(self, *args, **kwargs):
    flow = kwargs.pop('flow', 0.0)
    super(Catchment, self).__init__(*args, **kwargs)
    self.flow = flow

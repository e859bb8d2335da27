# Setters, queries and resets of node classes.  Interpreted, never executed.


@spec("_core.AbstractNode", "setup", props="C02")
def f(self, model):
    ncomb = len(model.scenarios.combinations)
    self._flow = np.empty(ncomb, dtype=np.float64)
    self._prev_flow = np.zeros(ncomb, dtype=np.float64)


@spec("_core.AbstractNode", "get domain", props="C17")
def f(self):
    if self._domain is None and self._parent is not None:
        return self._parent._domain
    return self._domain


@spec("_core.AbstractNode", "set domain", props="C17")
def f(self, value):
    if self._parent is not None:
        import warnings
        warnings.warn('Setting domain property of node with a parent.')
    self._domain = value
    self.model.dirty = True


@spec("_core.AbstractNode", "get prev_flow", props="C02 C19 C06")
def f(self):
    return np.array(self._prev_flow)


@spec("_core.AbstractNode", "get flow", props="C02 C19 C06")
def f(self):
    return np.array(self._flow)


@spec("_core.Node", "get_conversion_factor", props="C17 C08")
def f(self):
    return self._conversion_factor


@spec("_core.Node", "get cost", props="C17")
def f(self):
    if self._cost_param is None:
        return self._cost
    return self._cost_param


@spec("_core.Node", "get min_flow", props="C17")
def f(self):
    if self._min_flow_param is None:
        return self._min_flow
    return self._min_flow_param


@spec("_core.Node", "get max_flow", props="C17")
def f(self):
    if self._max_flow_param is None:
        return self._max_flow
    return self._max_flow_param


@spec("_core.AggregatedNode", "get nodes", props="C17 C19 C08")
def f(self):
    return self._nodes


@spec("_core.AggregatedNode", "set nodes", props="C17 C19 C08")
def f(self, value):
    self._nodes = list(value)
    self.model.dirty = True


@spec("_core.AggregatedNode", "get factors", props="C17 C19 C08")
def f(self):
    return self._factors


@spec("_core.AggregatedNode", "set factors", props="C17 C19 C08")
def f(self, values):
    from pywr.parameters import ConstantParameter
    if self._factors is not None:
        for factor in self._factors:
            factor.parents.remove(self)
    if values is None:
        factors = None
    else:
        factors = []
        for val in values:
            if isinstance(val, (int, float)):
                factors.append(ConstantParameter(self.model, val))
            else:
                factors.append(val)
    self._factors = factors
    self.model.dirty = True


@spec("_core.AggregatedNode", "get has_fixed_factors", props="C17 C19 C08")
def f(self):
    from pywr.parameters import ConstantParameter
    return all([isinstance(p, ConstantParameter) for p in self.factors])


@spec("_core.AggregatedNode", "get flow_weights", props="C17 C19 C08")
def f(self):
    if self._flow_weights is None:
        return None
    return np.asarray(self._flow_weights, np.float64)


@spec("_core.AggregatedNode", "set flow_weights", props="C17 C19 C08")
def f(self, values):
    if values is None:
        self._flow_weights = None
    else:
        values = np.array(values, np.float64)
        if np.any(np.abs(values) < 1e-06):
            warnings.warn('Very small flow_weights in AggregateNode result in ill-conditioned matrix')
        self._flow_weights = values
    self.model.dirty = True


@spec("_core.AggregatedNode", "get min_flow", props="C17")
def f(self):
    if self._min_flow_param is None:
        return self._min_flow
    return self._min_flow_param


@spec("_core.AggregatedNode", "get max_flow", props="C17")
def f(self):
    if self._max_flow_param is None:
        return self._max_flow
    return self._max_flow_param


@spec("_core.AbstractStorage", "setup", props="C02")
def f(self, model):
    AbstractNode.setup(self, model)
    ncomb = len(model.scenarios.combinations)
    self._volume = np.zeros(ncomb, dtype=np.float64)
    self._current_pc = np.zeros(ncomb, dtype=np.float64)


@spec("_core.AbstractStorage", "get volume", props="C02 C19 C06")
def f(self):
    return np.asarray(self._volume)


@spec("_core.AbstractStorage", "get current_pc", props="C02 C19 C06")
def f(self):
    return np.asarray(self._current_pc)


@spec("_core.Storage", "reset", props="C01 C02 C19")
def f(self):
    AbstractStorage.reset(self)
    self._reset_storage_only()


@spec("_core.Storage", "get cost", props="C17")
def f(self):
    if self._cost_param is None:
        return self._cost
    return self._cost_param


@spec("_core.Storage", "get initial_volume", props="C17")
def f(self):
    return self._initial_volume


@spec("_core.Storage", "set initial_volume", props="C17")
def f(self, value):
    if value is None:
        self._initial_volume = np.nan
    else:
        self._initial_volume = value


@spec("_core.Storage", "get initial_volume_pc", props="C17")
def f(self):
    return self._initial_volume_pc


@spec("_core.Storage", "set initial_volume_pc", props="C17")
def f(self, value):
    if value is None:
        self._initial_volume_pc = np.nan
    else:
        self._initial_volume_pc = value


@spec("_core.Storage", "get min_volume", props="C17")
def f(self):
    if self._min_volume_param is None:
        return self._min_volume
    return self._min_volume_param


@spec("_core.Storage", "get max_volume", props="C17")
def f(self):
    if self._max_volume_param is None:
        return self._max_volume
    return self._max_volume_param


@spec("_core.Storage", "get level", props="C17")
def f(self):
    if self._level_param is None:
        return self._level
    return self._level_param


@spec("_core.Storage", "get area", props="C17")
def f(self):
    if self._area_param is None:
        return self._area
    return self._area_param


@spec("_core.Storage", "get domain", props="C17")
def f(self):
    return self._domain


@spec("_core.Storage", "set domain", props="C17")
def f(self, value):
    self._domain = value
    self.model.dirty = True


@spec("_core.AggregatedStorage", "get storage_nodes", props="C17 C19 C08")
def f(self):
    return self._storage_nodes


@spec("_core.AggregatedStorage", "set storage_nodes", props="C17 C19 C08")
def f(self, value):
    self._storage_nodes = list(value)


@spec("_core.VirtualStorage", "reset", props="C01 C02 C19")
def f(self):
    self.active = True
    Storage.reset(self)


@spec("_core.VirtualStorage", "get nodes", props="C17 C19 C08")
def f(self):
    return self._nodes


@spec("_core.VirtualStorage", "set nodes", props="C17 C19 C08")
def f(self, value):
    self._nodes = list(value)
    self.model.dirty = True


@spec("_core.VirtualStorage", "get factors", props="C17 C19 C08")
def f(self):
    return np.array(self._factors)


@spec("_core.VirtualStorage", "set factors", props="C17 C19 C08")
def f(self, value):
    self._factors = np.array(value, dtype=np.float64)
    self.model.dirty = True


@spec("_core.RollingVirtualStorage", "setup", props="C02")
def f(self, model):
    super(RollingVirtualStorage, self).setup(model)
    ncomb = len(model.scenarios.combinations)
    if self.timesteps < 2:
        raise ValueError('The number of time-steps for a RollingVirtualStorage node must be greater than one.')
    initial_vol = self.get_initial_volume()
    initial_pc = self.get_initial_pc()
    if initial_pc == 0.0:
        if isinstance(self.max_volume, Parameter):
            raise ValueError('`max_volume` cannot be a parameter if `initial_volume` or `initial_volume_pc` is 0.0')
        self._initial_utilisation = self._max_volume / (self.timesteps - 1)
    else:
        self._initial_utilisation = (initial_vol / initial_pc - initial_vol) / (self.timesteps - 1)
    self._memory = np.full((self.timesteps - 1, ncomb), self._initial_utilisation, dtype=np.float64)
    self._memory_pointer = 0


@spec("_core.RollingVirtualStorage", "reset", props="C01 C02 C19")
def f(self):
    VirtualStorage.reset(self)
    self._memory[:] = self._initial_utilisation
    self._memory_pointer = 0


@spec("_core.ShadowStorage", "setup", props="C02")
def f(self, model):
    AbstractStorage.setup(self, model)
    self._other_model = model.parent.models[self.other_model]
    self._other_model_node = self._other_model.nodes[self.node]


@spec("_core.ShadowNode", "setup", props="C02")
def f(self, model):
    AbstractNode.setup(self, model)
    self._other_model = model.parent.models[self.other_model]
    self._other_model_node = self._other_model.nodes[self.node]


@spec("domains.groundwater.KeatingAquifer", "get initial_level", props="C17")
def f(self):
    return self.level.interp(self.initial_volume)


@spec("domains.groundwater.KeatingAquifer", "set initial_level", props="C17")
def f(self, value):
    volume = self._level_to_volume(value)
    self.initial_volume = volume


@spec("domains.river.Catchment", "get_flow", props="C17 C25")
def f(self, timestep):
    return self.get_min_flow(timestep)


@spec("domains.river.Catchment", "__setattr__", props="C17 C25")
def f(self, name, value):
    if name == 'flow':
        self.min_flow = value
        self.max_flow = value
        return
    super(Catchment, self).__setattr__(name, value)


@spec("domains.river.RiverSplitWithGauge", "get mrf", props="C17 C25")
def f(self):
    return self.sublinks[0].max_flow


@spec("domains.river.RiverSplitWithGauge", "set mrf", props="C17 C25")
def f(self, value):
    self.sublinks[0].max_flow = value


@spec("domains.river.RiverSplitWithGauge", "get mrf_cost", props="C17 C25")
def f(self):
    return self.sublinks[0].cost


@spec("domains.river.RiverSplitWithGauge", "set mrf_cost", props="C17 C25")
def f(self, value):
    self.sublinks[0].cost = value


@spec("domains.river.RiverSplitWithGauge", "get cost", props="C17 C25")
def f(self):
    return self.sublinks[1].cost


@spec("domains.river.RiverSplitWithGauge", "set cost", props="C17 C25")
def f(self, value):
    self.sublinks[1].cost = value


@spec("domains.river.RiverGauge", "get mrf", props="C17 C25")
def f(self):
    return self.sublinks[0].max_flow


@spec("domains.river.RiverGauge", "set mrf", props="C17 C25")
def f(self, value):
    self.sublinks[0].max_flow = value


@spec("domains.river.RiverGauge", "get mrf_cost", props="C17 C25")
def f(self):
    return self.sublinks[0].cost


@spec("domains.river.RiverGauge", "set mrf_cost", props="C17 C25")
def f(self, value):
    self.sublinks[0].cost = value


@spec("domains.river.RiverGauge", "get cost", props="C17 C25")
def f(self):
    return self.sublinks[1].cost


@spec("domains.river.RiverGauge", "set cost", props="C17 C25")
def f(self, value):
    self.sublinks[1].cost = value


@spec("nodes.RollingVirtualStorage", "setup", props="C02 C01")
def f(self, model):
    if self.days is not None and self.days > 0:
        try:
            self.timesteps = self.days // self.model.timestepper.delta
        except TypeError:
            raise TypeError('A rolling period defined as a number of days is only valid with daily time-steps.')
    if self.timesteps < 1:
        raise ValueError('The number of time-steps for a RollingVirtualStorage node must be greater than one.')
    super().setup(model)


@spec("nodes.AnnualVirtualStorage", "reset", props="C01 C02 C19")
def f(self):
    super(AnnualVirtualStorage, self).reset()
    self._last_reset_year = None


@spec("nodes.SeasonalVirtualStorage", "reset", props="C01 C02 C19")
def f(self):
    super().reset()
    self._last_active_year = None


@spec("nodes.MonthlyVirtualStorage", "reset", props="C01 C02 C19")
def f(self):
    super().reset()
    self._count = self.initial_months - 1
    self._last_month = None


@spec("nodes.PiecewiseLink", "get costs", props="C17 C25")
def f(self):
    return [sl.cost for sl in self.sublinks]


@spec("nodes.PiecewiseLink", "set costs", props="C17 C25")
def f(self, values):
    if len(self.sublinks) != len(values):
        raise ValueError(f'Piecewise costs must be the same length as the number of sub-links ({len(self.sublinks)}).')
    for i, sl in enumerate(self.sublinks):
        sl.cost = values[i]


@spec("nodes.PiecewiseLink", "get max_flows", props="C17 C25")
def f(self):
    return [sl.max_flow for sl in self.sublinks]


@spec("nodes.PiecewiseLink", "set max_flows", props="C17 C25")
def f(self, values):
    if len(self.sublinks) != len(values):
        raise ValueError(f'Piecewise max_flows must be the same length as the number of sub-links ({len(self.sublinks)}).')
    for i, sl in enumerate(self.sublinks):
        sl.max_flow = values[i]


@spec("nodes.BreakLink", "get min_flow", props="C17 C25")
def f(self):
    return self.link.min_flow


@spec("nodes.BreakLink", "set min_flow", props="C17 C25")
def f(self, value):
    self.link.min_flow = value


@spec("nodes.BreakLink", "get max_flow", props="C17 C25")
def f(self):
    return self.link.max_flow


@spec("nodes.BreakLink", "set max_flow", props="C17 C25")
def f(self, value):
    self.link.max_flow = value


@spec("nodes.BreakLink", "get cost", props="C17 C25")
def f(self):
    return self.link.cost


@spec("nodes.BreakLink", "set cost", props="C17 C25")
def f(self, value):
    self.link.cost = value


@spec("nodes.LossLink", "setup", props="C02 C01")
def f(self, model):
    super().setup(model)
    value = self.loss_factor
    if value == 0.0:
        self.agg.factors = None
        self.output.max_flow = 0.0
    elif value == 1.0 and self.loss_factor_type == 'gross':
        self.agg.factors = None
        self.output.max_flow = float('inf')
        self.net.max_flow = 0.0
    else:
        self.output.max_flow = float('inf')
        if self.loss_factor_type == 'net':
            self.agg.factors = [1.0, value]
        else:
            if not self.loss_factor_type == 'gross':
                raise ValueError(f'Unrecognised `loss_factor_type` "{self.loss_factor_type}".Please use either "gross" or "net".')
            self.agg.factors = [1.0 - float(value), float(value)]


@spec("nodes.LossLink", "get min_flow", props="C17 C25")
def f(self):
    return self.net.min_flow


@spec("nodes.LossLink", "set min_flow", props="C17 C25")
def f(self, value):
    self.net.min_flow = value


@spec("nodes.LossLink", "get max_flow", props="C17 C25")
def f(self):
    return self.net.max_flow


@spec("nodes.LossLink", "set max_flow", props="C17 C25")
def f(self, value):
    self.net.max_flow = value


@spec("nodes.LossLink", "get cost", props="C17 C25")
def f(self):
    return self.net.cost


@spec("nodes.LossLink", "set cost", props="C17 C25")
def f(self, value):
    self.net.cost = value

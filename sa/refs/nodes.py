# Balances of nodes.  Interpreted, never executed.


@spec("_core.AbstractNode", "commit", props="C19 C02")
def f(self, scenario_index, value):
    self._flow[scenario_index] += value


@spec("_core.AbstractNode", "commit_all", props="C19 C02")
def f(self, value):
    for i in range(self._flow.shape[0]):
        self._flow[i] += value[i]


@spec("_core.AbstractNode", "before", props="C19 C02 C06")
def f(self, ts):
    for i in range(self._flow.shape[0]):
        self._flow[i] = 0.0


@spec("_core.AbstractNode", "after", props="C06 C02")
def f(self, ts):
    for i in range(self._flow.shape[0]):
        self._prev_flow[i] = self._flow[i]


@spec("_core.AbstractNode", "reset", props="C06 C01 C02")
def f(self):
    for i in range(self._flow.shape[0]):
        self._flow[i] = 0.0
        self._prev_flow[i] = 0.0


@spec("_core.StorageInput", "commit", props="C19 C02", calls="commit", why="water taken out of a storage lowers its volume")
def f(self, scenario_index, volume):
    self._flow[scenario_index] += volume
    self._parent.commit(scenario_index, -volume)


@spec("_core.StorageInput", "commit_all", props="C19 C02", calls="commit_all")
def f(self, value):
    for i in range(self._flow.shape[0]):
        self._flow[i] += value[i]
    self._parent.commit_all(-np.array(value))


@spec("_core.StorageOutput", "commit", props="C19 C02", calls="commit", why="water put into a storage raises its volume")
def f(self, scenario_index, volume):
    self._flow[scenario_index] += volume
    self._parent.commit(scenario_index, volume)


@spec("_core.StorageOutput", "commit_all", props="C19 C02", calls="commit_all")
def f(self, value):
    for i in range(self._flow.shape[0]):
        self._flow[i] += value[i]
    self._parent.commit_all(value)


@spec("_core.AggregatedNode", "after", props="C19 C06 C02", why="the aggregated flow is the weighted sum of all members")
def f(self, ts):
    for i in range(self._flow.shape[0]):
        total = 0.0
        for j, n in enumerate(self._nodes):
            if self._flow_weights is None:
                total += n._flow[i]
            else:
                total += n._flow[i] * self._flow_weights[j]
        self._flow[i] = total
        self._prev_flow[i] = total


@spec("_core.Storage", "after", props="C19 C03 C06 C02", keep="get_max_volume get_min_volume",
      cases=[{"adjustment": None}, {"adjustment": "array"}],
      why="a volume changes by the flow times the days of the step, corrected only within 1e-6 of its limits")
def f(self, ts, adjustment=None):
    for i, si in enumerate(self.model.scenarios.combinations):
        self._prev_flow[i] = self._flow[i]
        volume = self._volume[i] + self._flow[i] * ts.days
        mxv = self.get_max_volume(si)
        mnv = self.get_min_volume(si)
        if adjustment is not None:
            volume = min(mxv, max(mnv, volume + adjustment[i]))
        if abs(volume - mxv) < 1e-6:
            volume = mxv
        if abs(volume - mnv) < 1e-6:
            volume = mnv
        self._volume[i] = volume
        if mxv == 0:
            self._current_pc[i] = np.nan
        else:
            self._current_pc[i] = volume / mxv


@spec("_core.AggregatedStorage", "after", props="C19 C03 C06 C02")
def f(self, ts):
    for i, si in enumerate(self.model.scenarios.combinations):
        flow = 0.0
        mxv = 0.0
        mnv = 0.0
        for s in self._storage_nodes:
            flow += s._flow[i]
            mxv += s.get_max_volume(si)
            mnv += s.get_min_volume(si)
        self._flow[i] = flow
        self._prev_flow[i] = flow
        volume = self._volume[i] + flow * ts.days
        if abs(volume - mxv) < 1e-6:
            volume = mxv
        if abs(volume - mnv) < 1e-6:
            volume = mnv
        self._volume[i] = volume
        if mxv == 0:
            self._current_pc[i] = np.nan
        else:
            self._current_pc[i] = volume / mxv


@spec("_core.VirtualStorage", "after", props="C19 C03 C06 C02", keep="get_max_volume get_min_volume",
      cases=[{"adjustment": None}, {"adjustment": "array"}],
      why="a virtual storage falls by the weighted flow of its members while it is active")
def f(self, ts, adjustment=None):
    if self.active:
        for i, si in enumerate(self.model.scenarios.combinations):
            flow = 0.0
            for n, w in zip(self._nodes, self._factors):
                flow -= w * n._flow[i]
            self._flow[i] = flow
            self._prev_flow[i] = flow
            volume = self._volume[i] + flow * ts.days
            mxv = self.get_max_volume(si)
            mnv = self.get_min_volume(si)
            if adjustment is not None:
                volume = min(mxv, max(mnv, volume + adjustment[i]))
            if abs(volume - mxv) < 1e-6:
                volume = mxv
            if abs(volume - mnv) < 1e-6:
                volume = mnv
            self._volume[i] = volume
            if mxv == 0:
                self._current_pc[i] = np.nan
            else:
                self._current_pc[i] = volume / mxv
    else:
        for i in range(self._flow.shape[0]):
            self._prev_flow[i] = self._flow[i]


@spec("_core.RollingVirtualStorage", "after", props="C19 C03 C02", cells="self._memory self._memory_pointer",
      keep="get_max_volume get_min_volume", cases=[{"adjustment": None, "self.active": True}],
      why="the volume used in a step is returned when the step leaves the rolling window")
def f(self, ts, adjustment=None):
    for i, si in enumerate(self.model.scenarios.combinations):
        used = 0.0
        for n, w in zip(self._nodes, self._factors):
            used += w * n._flow[i]
        self._memory[self._memory_pointer, i] = used * ts.days
    self._memory_pointer = (self._memory_pointer + 1) % (self.timesteps - 1)


@spec("_core.AbstractStorage", "get_current_pc", props="C19 C02")
def f(self, scenario_index):
    pc = self._current_pc[scenario_index.global_id]
    if isnan(pc):
        return 1.0
    if pc > 1.0:
        return 1.0
    if pc < 0.0:
        return 0.0
    return pc


@spec("nodes.PiecewiseLink", "after", props="C19 C06 C02", why="the flow of a compound node is the sum of its parts, also as previous flow")
def f(self, timestep):
    for i in range(self._flow.shape[0]):
        total = self._flow[i]
        for l in self.sublinks:
            total += l.flow[i]
        self._flow[i] = total
        self._prev_flow[i] = total


@spec("nodes.BreakLink", "after", props="C19 C06 C02", why="the flow of a break link is the flow of its link")
def f(self, timestep):
    for i in range(self._flow.shape[0]):
        self._flow[i] += self.link.flow[i]
        self._prev_flow[i] = self._flow[i]


@spec("nodes.DelayNode", "after", props="C19 C06 C02", why="the flow of a delay node is the delayed flow released")
def f(self, timestep):
    for i in range(self._flow.shape[0]):
        self._flow[i] += self.input.flow[i]
        self._prev_flow[i] = self._flow[i]


@spec("nodes.LossLink", "after", props="C19 C06 C02", why="the flow of a loss link is its net flow")
def f(self, timestep):
    for i in range(self._flow.shape[0]):
        self._flow[i] += self.net.flow[i]
        self._prev_flow[i] = self._flow[i]


@spec("_core.ShadowStorage", "before", props="C06 C02")
def f(self, ts):
    for i in range(self._flow.shape[0]):
        self._volume[i] = self._other_model_node._volume[i]
        self._current_pc[i] = self._other_model_node._current_pc[i]
        self._flow[i] = self._other_model_node._flow[i]
        self._prev_flow[i] = self._other_model_node._prev_flow[i]


@spec("_core.ShadowNode", "before", props="C06 C02")
def f(self, ts):
    for i in range(self._flow.shape[0]):
        self._flow[i] = self._other_model_node._flow[i]
        self._prev_flow[i] = self._other_model_node._prev_flow[i]


@spec("_core.Storage", "get_initial_volume", props="C19 C03 C17 C13", raises=True)
def f(self):
    if self._max_volume_param is not None and not self._max_volume_param.is_constant:
        if not np.isfinite(self._initial_volume_pc) or not np.isfinite(self._initial_volume):
            raise RuntimeError()
        return self._initial_volume
    if np.isfinite(self._initial_volume_pc):
        if self._max_volume_param is None:
            return self._initial_volume_pc * self._max_volume
        return self._initial_volume_pc * self._max_volume_param.get_constant_value()
    if not np.isfinite(self._initial_volume):
        raise RuntimeError()
    return self._initial_volume


@spec("_core.Storage", "get_initial_pc", props="C19 C03 C17 C13", raises=True)
def f(self):
    if self._max_volume_param is not None and not self._max_volume_param.is_constant:
        if not np.isfinite(self._initial_volume_pc) or not np.isfinite(self._initial_volume):
            raise RuntimeError()
        return self._initial_volume_pc
    if np.isfinite(self._initial_volume_pc):
        return self._initial_volume_pc
    if not np.isfinite(self._initial_volume):
        raise RuntimeError()
    if self._max_volume_param is None:
        mxv = self._max_volume
    else:
        mxv = self._max_volume_param.get_constant_value()
    if mxv == 0:
        return np.nan
    return self._initial_volume / mxv


@spec("_core.Storage", "_reset_storage_only", props="C19 C03 C02 C18", keep="get_initial_volume get_initial_pc",
      cases=[{"use_initial_volume": True}, {"use_initial_volume": False}],
      why="a storage restarts at its initial volume, or full at the current maximum volume of each scenario")
def f(self, use_initial_volume=True):
    for i, si in enumerate(self.model.scenarios.combinations):
        if use_initial_volume:
            self._volume[i] = self.get_initial_volume()
            self._current_pc[i] = self.get_initial_pc()
        else:
            if self._max_volume_param is None:
                mxv = self._max_volume
            else:
                mxv = self._max_volume_param.get_value(si)
            self._volume[i] = mxv
            if mxv == 0:
                self._current_pc[i] = np.nan
            else:
                self._current_pc[i] = 1.0


@spec("_core.AggregatedStorage", "get initial_volume", props="C19")
def f(self):
    return np.sum([s.get_initial_volume() for s in self._storage_nodes])


@spec("_core.AggregatedStorage", "get_all_min_volume", props="C19 C17 C02", cases=[{"out": None}, {"out": "array"}])
def f(self, out=None):
    r = np.zeros(len(self.model.scenarios.combinations))
    for i in range(len(self.model.scenarios.combinations)):
        v = 0.0
        for s in self._storage_nodes:
            v += s.get_all_min_volume()[i]
        r[i] = v
    return r


@spec("_core.AggregatedStorage", "get_all_max_volume", props="C19 C17 C02", cases=[{"out": None}, {"out": "array"}])
def f(self, out=None):
    r = np.zeros(len(self.model.scenarios.combinations))
    for i in range(len(self.model.scenarios.combinations)):
        v = 0.0
        for s in self._storage_nodes:
            v += s.get_all_max_volume()[i]
        r[i] = v
    return r


@spec("_core.AggregatedStorage", "reset", props="C19 C01 C06")
def f(self):
    volume = np.sum([s.get_initial_volume() for s in self._storage_nodes])
    try:
        mxv = 0.0
        for s in self._storage_nodes:
            if s._max_volume_param is None:
                mxv += s._max_volume
            elif s._max_volume_param.is_constant:
                mxv += s._max_volume_param.get_constant_value()
            else:
                mxv += s.get_initial_volume() / s.get_initial_pc()
        pc = volume / mxv
    except ZeroDivisionError:
        pc = np.nan
    for i in range(self._volume.shape[0]):
        self._flow[i] = 0.0
        self._prev_flow[i] = 0.0
        self._volume[i] = volume
        self._current_pc[i] = pc


@spec("_core.Node", "get has_fixed_flows", props="C08 C17")
def f(self):
    return self._max_flow_param is None and self._min_flow_param is None


@spec("_core.Node", "get has_constant_flows", props="C08 C17", why="cached limits need both limits to be constant")
def f(self):
    return (self._max_flow_param is None or self._max_flow_param.is_constant) and (
        self._min_flow_param is None or self._min_flow_param.is_constant)


@spec("_core.Node _core.Storage", "get has_fixed_cost", props="C08 C17")
def f(self):
    return self._cost_param is None


@spec("_core.StorageInput _core.StorageOutput", "get has_fixed_cost", props="C08 C17")
def f(self):
    return self.parent.has_fixed_cost


@spec("_core.Node", "get_constant_min_flow", props="C08 C17")
def f(self):
    if self._min_flow_param is None:
        return self._min_flow
    if self._min_flow_param.is_constant:
        return self._min_flow_param.get_constant_value()
    return np.nan


@spec("_core.Node", "get_constant_max_flow", props="C08 C17")
def f(self):
    if self._max_flow_param is None:
        return self._max_flow
    if self._max_flow_param.is_constant:
        return self._max_flow_param.get_constant_value()
    return np.nan


@spec("_core.Node", "get_fixed_min_flow", props="C08 C17")
def f(self):
    if self._max_flow_param is None and self._min_flow_param is None:
        return self._min_flow
    return np.nan


@spec("_core.Node", "get_fixed_max_flow", props="C08 C17")
def f(self):
    if self._max_flow_param is None and self._min_flow_param is None:
        return self._max_flow
    return np.nan


@spec("_core.StorageInput", "get_cost", props="C08 C17", why="releasing from a storage earns what filling it costs")
def f(self, scenario_index):
    return -self._parent.get_cost(scenario_index)


@spec("_core.StorageOutput", "get_cost", props="C08 C17")
def f(self, scenario_index):
    return self._parent.get_cost(scenario_index)


@law("_core.Node", at="set conversion_factor", props="C17 C08", cases=[{"value": "num"}])
def f(self, value):
    self.conversion_factor = value
    same(self.get_conversion_factor(), value)


@spec("_core.AggregatedNode", "get_factors", props="C08 C02 C17")
def f(self, scenario_index):
    return np.array([p.get_value(scenario_index) for p in self._factors])


@spec("_core.AggregatedNode", "get_constant_factors", props="C08 C17")
def f(self):
    return np.array([p.get_constant_value() for p in self._factors])


@spec("_core.AggregatedNode", "get_factors_norm", props="C08 C02 C17", keep="get_factors get_constant_factors",
      cases=[{"scenario_index": "inst:_core.ScenarioIndex"}],
      why="the flows of the members are in the ratio of the factors of this scenario")
def f(self, scenario_index):
    fs = self.get_factors(scenario_index)
    r = np.empty(len(fs))
    for i in range(len(fs)):
        r[i] = fs[0] / fs[i]
    return r


@spec("_core.AggregatedNode", "get has_constant_factors", props="C08 C17")
def f(self):
    return all([p.is_constant for p in self._factors])


@spec("nodes.PiecewiseLink", "get_min_flow", props="C17 C08")
def f(self, si):
    return sum([l.get_min_flow(si) for l in self.sublinks])


@spec("nodes.PiecewiseLink", "get_max_flow", props="C17 C08")
def f(self, si):
    return sum([l.get_max_flow(si) for l in self.sublinks])


@spec("nodes.AnnualVirtualStorage", "before", props="C18 C19 C21", keep="_reset_storage_only", selfcalls="_reset_storage_only",
      why="the volume is reset once a year, at or after the reset day")
def f(self, ts):
    past = ts.month > self.reset_month or (ts.month == self.reset_month and ts.day >= self.reset_day)
    later = ts.month > self.reset_month or (ts.month == self.reset_month and ts.day > self.reset_day)
    if past and not (ts.index == 0 and later) and ts.year != self._last_reset_year:
        if ts.index == 0 and isinstance(self.max_volume, Parameter):
            self._reset_storage_only(use_initial_volume=True)
        else:
            self._reset_storage_only(use_initial_volume=self.reset_to_initial_volume)
        self.active = True
    if past:
        self._last_reset_year = ts.year


@spec("nodes.MonthlyVirtualStorage", "before", props="C18 C19 C21", keep="_reset_storage_only", selfcalls="_reset_storage_only",
      why="the volume is reset after every `months` months")
def f(self, ts):
    if ts.month != self._last_month:
        self._last_month = ts.month
        if self._count + 1 == self.months:
            self._count = 0
            self._reset_storage_only(use_initial_volume=self.reset_to_initial_volume)
        else:
            self._count += 1


@spec("nodes.SeasonalVirtualStorage", "before", props="C18 C19 C21", keep="_reset_storage_only",
      cells="self.active self._last_active_year",
      why="the storage is inactive from the end day to the next reset day")
def f(self, ts):
    past = ts.month > self.reset_month or (ts.month == self.reset_month and ts.day >= self.reset_day)
    later = ts.month > self.reset_month or (ts.month == self.reset_month and ts.day > self.reset_day)
    if past and not (ts.index == 0 and later) and ts.year != self._last_reset_year:
        self.active = True
    if past:
        self._last_reset_year = ts.year
    if ts.year != self._last_active_year:
        if ts.index == 0:
            if self._last_reset_year == ts.year:
                if self.end_month < self.reset_month or (self.end_month == self.reset_month and self.end_day <= self.reset_day):
                    self._last_active_year = ts.year
            elif self.end_month > self.reset_month or (self.end_month == self.reset_month and self.end_day >= self.reset_day):
                self.active = False
        elif ts.month > self.end_month or (ts.month == self.end_month and ts.day >= self.end_day):
            self._last_active_year = ts.year
            self.active = False

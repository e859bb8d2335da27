# Parameters computed from other parameters and from nodes.


@spec("parameters._parameters.IndexedArrayParameter", "value", props="C13 C02 C21", keep="get_value get_index",
      why="the value of the parameter the index points at")
def f(self, timestep, scenario_index):
    return self.params[self.index_parameter.get_index(scenario_index)].get_value(scenario_index)


@spec("parameters._parameters.AnnualHarmonicSeriesParameter", "value", props="C18 C21", why="mean plus cosines of the day of the year")
def f(self, timestep, scenario_index):
    if timestep.index == self._ts_index_cache:
        return self._value_cache
    v = self.mean
    for i in range(self._amplitudes.shape[0]):
        v = v + self._amplitudes[i] * cos((timestep.dayofyear - 1) * (i + 1) * M_PI * 2 / 365 + self._phases[i])
    self._value_cache = v
    self._ts_index_cache = timestep.index
    return v


@spec("parameters._parameters.AnnualHarmonicSeriesParameter", "set_double_variables", props="C14", ret=False, keep="amplitudes",
      why="mean, then amplitudes, then phases")
def f(self, values):
    n = len(self.amplitudes)
    self.mean = values[0]
    self._amplitudes[...] = values[1:n + 1]
    self._phases[...] = values[n + 1:]


@spec("parameters._parameters.AnnualHarmonicSeriesParameter", "get_double_variables", props="C14", keep="amplitudes phases")
def f(self):
    return np.r_[np.array([self.mean]), np.array(self.amplitudes), np.array(self.phases)]


@spec("parameters._parameters.AnnualHarmonicSeriesParameter", "get_double_lower_bounds", props="C14")
def f(self):
    return np.r_[self._mean_lower_bounds, self._amplitude_lower_bounds, self._phase_lower_bounds]


@spec("parameters._parameters.AnnualHarmonicSeriesParameter", "get_double_upper_bounds", props="C14")
def f(self):
    return np.r_[self._mean_upper_bounds, self._amplitude_upper_bounds, self._phase_upper_bounds]


@spec("parameters._parameters.AggregatedParameter", "calc_values", props="C13 C02 C21", raises=True, keep="get_value get_all_values",
      why="the members' values of each scenario, aggregated as named")
def f(self, timestep):
    if self._agg_func == AggFuncs.PRODUCT:
        self._Parameter__values[...] = 1.0
        for p in self.parameters:
            self._Parameter__values[:] *= p.get_all_values()[:]
    elif self._agg_func == AggFuncs.SUM:
        self._Parameter__values[...] = 0.0
        for p in self.parameters:
            self._Parameter__values[:] += p.get_all_values()[:]
    elif self._agg_func == AggFuncs.MAX:
        self._Parameter__values[...] = -np.inf
        for p in self.parameters:
            v = p.get_all_values()
            for i in range(self._Parameter__values.shape[0]):
                self._Parameter__values[i] = max(self._Parameter__values[i], v[i])
    elif self._agg_func == AggFuncs.MIN:
        self._Parameter__values[...] = np.inf
        for p in self.parameters:
            v = p.get_all_values()
            for i in range(self._Parameter__values.shape[0]):
                self._Parameter__values[i] = min(self._Parameter__values[i], v[i])
    elif self._agg_func == AggFuncs.MEAN:
        self._Parameter__values[...] = 0.0
        for p in self.parameters:
            self._Parameter__values[:] += p.get_all_values()[:]
        self._Parameter__values[:] = self._Parameter__values[:] / len(self.parameters)
    elif self._agg_func == AggFuncs.MEDIAN:
        for i, si in enumerate(self.model.scenarios.combinations):
            self._Parameter__values[i] = np.median([p.get_value(si) for p in self.parameters])
    elif self._agg_func == AggFuncs.CUSTOM:
        for i, si in enumerate(self.model.scenarios.combinations):
            self._Parameter__values[i] = self._agg_user_func([p.get_value(si) for p in self.parameters])
    else:
        raise ValueError()


@spec("parameters._parameters.AggregatedIndexParameter", "calc_values", props="C13 C02 C21", raises=True, keep="get_index get_all_indices",
      why="the members' indices of each scenario, aggregated as named")
def f(self, timestep):
    if self._agg_func == AggFuncs.PRODUCT:
        self._IndexParameter__indices[...] = 1
        for p in self.parameters:
            self._IndexParameter__indices[:] *= p.get_all_indices()[:]
    elif self._agg_func == AggFuncs.SUM:
        self._IndexParameter__indices[...] = 0
        for p in self.parameters:
            self._IndexParameter__indices[:] += p.get_all_indices()[:]
    elif self._agg_func == AggFuncs.MAX:
        self._IndexParameter__indices[...] = INT_MIN
        for p in self.parameters:
            v = p.get_all_indices()
            for i in range(self._IndexParameter__indices.shape[0]):
                self._IndexParameter__indices[i] = max(self._IndexParameter__indices[i], v[i])
    elif self._agg_func == AggFuncs.MIN:
        self._IndexParameter__indices[...] = INT_MAX
        for p in self.parameters:
            v = p.get_all_indices()
            for i in range(self._IndexParameter__indices.shape[0]):
                self._IndexParameter__indices[i] = min(self._IndexParameter__indices[i], v[i])
    elif self._agg_func == AggFuncs.ANY:
        self._IndexParameter__indices[...] = 0
        for p in self.parameters:
            v = p.get_all_indices()
            for i in range(self._IndexParameter__indices.shape[0]):
                if v[i] != 0:
                    self._IndexParameter__indices[i] = 1
    elif self._agg_func == AggFuncs.ALL:
        self._IndexParameter__indices[...] = 1
        for p in self.parameters:
            v = p.get_all_indices()
            for i in range(self._IndexParameter__indices.shape[0]):
                if v[i] == 0:
                    self._IndexParameter__indices[i] = 0
    elif self._agg_func == AggFuncs.CUSTOM:
        for i, si in enumerate(self.model.scenarios.combinations):
            self._IndexParameter__indices[i] = self._agg_user_func([p.get_index(si) for p in self.parameters])
    else:
        raise ValueError()
    for i in range(self._IndexParameter__indices.shape[0]):
        self._Parameter__values[i] = self._IndexParameter__indices[i]


@spec("parameters._parameters.DivisionParameter", "calc_values", props="C13 C02 C21", why="numerator over denominator")
def f(self, timestep):
    self._Parameter__values[:] = self._numerator._Parameter__values[:] / self._denominator._Parameter__values[:]


@spec("parameters._parameters.NegativeParameter", "calc_values", props="C13 C02 C21")
def f(self, timestep):
    self._Parameter__values[:] = -self.parameter._Parameter__values[:]


@spec("parameters._parameters.MaxParameter", "calc_values", props="C13 C02 C21")
def f(self, timestep):
    for i in range(self._Parameter__values.shape[0]):
        self._Parameter__values[i] = max(self.parameter._Parameter__values[i], self.threshold)


@spec("parameters._parameters.NegativeMaxParameter", "calc_values", props="C13 C02 C21")
def f(self, timestep):
    for i in range(self._Parameter__values.shape[0]):
        self._Parameter__values[i] = max(-self.parameter._Parameter__values[i], self.threshold)


@spec("parameters._parameters.MinParameter", "calc_values", props="C13 C02 C21")
def f(self, timestep):
    for i in range(self._Parameter__values.shape[0]):
        self._Parameter__values[i] = min(self.parameter._Parameter__values[i], self.threshold)


@spec("parameters._parameters.NegativeMinParameter", "calc_values", props="C13 C02 C21")
def f(self, timestep):
    for i in range(self._Parameter__values.shape[0]):
        self._Parameter__values[i] = min(-self.parameter._Parameter__values[i], self.threshold)


@spec("parameters._parameters.OffsetParameter", "calc_values", props="C13 C02 C21")
def f(self, timestep):
    self._Parameter__values[:] = self.parameter._Parameter__values[:] + self.offset


@spec("parameters._parameters.DeficitParameter", "after", props="C19 C02 C03 C21", keep="get_all_values",
      why="maximum flow less the flow of the step")
def f(self):
    if self.node._max_flow_param is None:
        for i in range(self.node._flow.shape[0]):
            self._Parameter__values[i] = self.node._max_flow - self.node._flow[i]
    else:
        m = self.node._max_flow_param.get_all_values()
        for i in range(self.node._flow.shape[0]):
            self._Parameter__values[i] = m[i] - self.node._flow[i]


@spec("parameters._parameters.DeficitParameter", "reset", props="C01 C06", cells="self._Parameter__values", why="no deficit before the first step")
def f(self):
    self._Parameter__values[...] = 0.0


@spec("parameters._parameters.FlowParameter", "reset", props="C06", cells="self._FlowParameter__next_values",
      why="the first step gets the initial value")
def f(self):
    self._FlowParameter__next_values[...] = self.initial_value


@spec("parameters._parameters.FlowParameter", "calc_values", props="C06 C02 C21", why="the flow kept at the end of the step before")
def f(self, timestep):
    self._Parameter__values[:] = self._FlowParameter__next_values[:]


@spec("parameters._parameters.FlowParameter", "after", props="C06 C02 C21", why="keeps the flow of the step for the next one")
def f(self):
    self._FlowParameter__next_values[:] = self.node._flow[:]


@spec("parameters._parameters.StorageParameter", "value", props="C03 C02 C21", why="volume, or proportional volume on request")
def f(self, timestep, scenario_index):
    if self.use_proportional_volume:
        return self.storage_node._current_pc[scenario_index.global_id]
    return self.storage_node._volume[scenario_index.global_id]


@spec("parameters._parameters.FlowDelayParameter", "setup", props="C03", cells="self.timesteps", ret=False, raises=True,
      why="a delay in days is a whole number of steps")
def f(self):
    if self.days > 0:
        if self.days % self.model.timestepper.delta != 0:
            raise ValueError()
        self.timesteps = self.days / self.model.timestepper.delta
    if self.timesteps < 1:
        raise ValueError()


@spec("parameters._parameters.FlowDelayParameter", "reset", props="C06 C01", why="the initial flow is offered until the delay has passed")
def f(self):
    self._memory[...] = self.initial_flow
    self._memory_pointer = 0


@spec("parameters._parameters.FlowDelayParameter", "value", props="C06 C02 C21", why="the flow of `timesteps` steps ago")
def f(self, ts, scenario_index):
    return self._memory[self._memory_pointer, scenario_index.global_id]


@spec("parameters._parameters.FlowDelayParameter", "after", props="C06 C02 C21", why="overwrites the oldest flow and moves on")
def f(self):
    self._memory[self._memory_pointer, :] = self.node._flow[:]
    if self.timesteps > 1:
        self._memory_pointer = (self._memory_pointer + 1) % self.timesteps


@spec("parameters._parameters.DiscountFactorParameter", "value", props="C18 C21", why="discount of the step's year")
def f(self, ts, scenario_index):
    return 1 / pow(1.0 + self.rate, ts.year - self.base_year)


@spec("parameters._parameters.RollingMeanFlowNodeParameter", "setup", props="C03", cells="self.timesteps", ret=False, raises=True,
      why="a window in days is a whole number of steps")
def f(self):
    if self.days > 0:
        try:
            self.timesteps = self.days // self.model.timestepper.delta
        except TypeError:
            raise TypeError()
    if self.timesteps == 0:
        raise ValueError()


@spec("parameters._parameters.RollingMeanFlowNodeParameter", "value", props="C06 C02 C21", why="mean of the flows kept so far, at most the window")
def f(self, ts, scenario_index):
    if ts.index == 0:
        return self.initial_flow
    return np.mean(self._memory[scenario_index.global_id, :min(ts.index, self.timesteps)])


@spec("parameters._parameters.RollingMeanFlowNodeParameter", "after", props="C06 C02 C21", why="overwrites the oldest flow and moves on")
def f(self):
    self._memory[:, self.position] = self.node._flow[:]
    if self.position + 1 >= self.timesteps:
        self.position = 0
    else:
        self.position = self.position + 1


# variables of an optimisation

@spec("parameters._parameters.ConstantParameter", "set_double_variables", props="C14", ret=False)
def f(self, values):
    self._value = values[0]


@spec("parameters._parameters.OffsetParameter", "set_double_variables", props="C14", ret=False)
def f(self, values):
    self.offset = values[0]


@spec("parameters._parameters.OffsetParameter", "get_double_variables", props="C14")
def f(self):
    return np.array([self.offset])


@spec("parameters._parameters.ConstantParameter parameters._parameters.OffsetParameter parameters._parameters.MonthlyProfileParameter",
      "get_double_lower_bounds", props="C14")
def f(self):
    return self._lower_bounds


@spec("parameters._parameters.ConstantParameter parameters._parameters.OffsetParameter parameters._parameters.MonthlyProfileParameter",
      "get_double_upper_bounds", props="C14")
def f(self):
    return self._upper_bounds


@spec("parameters.parameters.AbstractInterpolatedParameter", "value", props="C21")
def f(self, ts, scenario_index):
    v = self._value_to_interpolate(ts, scenario_index)
    return self.interp(v)

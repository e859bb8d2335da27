# Recorders: what is recorded each step, how it is accumulated, and what the results aggregate.
# (the properties C20 and, for the aggregation names, C13; C14 for objectives and constraints)


@spec("recorders._recorders.Aggregator", "aggregate_1d", props="C20 C13", raises=True, cases=[{"ignore_nan": False}],
      why="the reduction of the whole series that the name stands for")
def f(self, data, ignore_nan):
    if self._func == AggFuncs.PRODUCT:
        return np.prod(data)
    if self._func == AggFuncs.SUM:
        return np.sum(data)
    if self._func == AggFuncs.MAX:
        return np.max(data)
    if self._func == AggFuncs.MIN:
        return np.min(data)
    if self._func == AggFuncs.MEAN:
        return np.mean(data)
    if self._func == AggFuncs.MEDIAN:
        return np.median(data)
    if self._func == AggFuncs.CUSTOM:
        return self._user_func(np.array(data))
    if self._func == AggFuncs.PERCENTILE:
        return np.percentile(data, *self.func_args, **self.func_kwargs)
    if self._func == AggFuncs.PERCENTILEOFSCORE:
        return percentileofscore(data, *self.func_args, **self.func_kwargs)
    if self._func == AggFuncs.COUNT_NONZERO:
        return np.count_nonzero(data)
    raise ValueError()


@spec("recorders._recorders.Aggregator", "aggregate_2d", props="C20 C13", raises=True, cases=[{"ignore_nan": False}],
      why="the reduction along the axis that the name stands for")
def f(self, data, axis, ignore_nan):
    if self._func == AggFuncs.PRODUCT:
        return np.prod(data, axis=axis)
    if self._func == AggFuncs.SUM:
        return np.sum(data, axis=axis)
    if self._func == AggFuncs.MAX:
        return np.max(data, axis=axis)
    if self._func == AggFuncs.MIN:
        return np.min(data, axis=axis)
    if self._func == AggFuncs.MEAN:
        return np.mean(data, axis=axis)
    if self._func == AggFuncs.MEDIAN:
        return np.median(data, axis=axis)
    if self._func == AggFuncs.CUSTOM:
        return self._user_func(np.array(data), axis=axis)
    if self._func == AggFuncs.PERCENTILE:
        return np.percentile(data, *self.func_args, axis=axis, **self.func_kwargs)
    if self._func == AggFuncs.PERCENTILEOFSCORE:
        if axis == 0:
            out = np.empty(data.shape[1])
            for i in range(data.shape[1]):
                out[i] = percentileofscore(data[:, i], *self.func_args, **self.func_kwargs)
        elif axis == 1:
            out = np.empty(data.shape[0])
            for i in range(data.shape[0]):
                out[i] = percentileofscore(data[i, :], *self.func_args, **self.func_kwargs)
        else:
            raise ValueError()
        return out
    if self._func == AggFuncs.COUNT_NONZERO:
        return np.count_nonzero(data, axis=axis).astype(np.float64)
    raise ValueError()


@spec("recorders._recorders.Aggregator", "aggregate_2d", props="C20", raises=True, keep="aggregate_1d", cases=[{"ignore_nan": True}],
      why="each series without its missing values")
def f(self, data, axis, ignore_nan):
    if axis == 0:
        out = np.empty(data.shape[1])
        for i in range(data.shape[1]):
            out[i] = self.aggregate_1d(data[:, i], ignore_nan=True)
    elif axis == 1:
        out = np.empty(data.shape[0])
        for i in range(data.shape[0]):
            out[i] = self.aggregate_1d(data[i, :], ignore_nan=True)
    else:
        raise ValueError()
    return out


@spec("recorders._recorders.Recorder", "aggregated_value", props="C20 C14", keep="values aggregate_1d",
      why="the scenario aggregation of exactly the values per scenario, with the recorder's own NaN rule")
def f(self):
    return self._scenario_aggregator.aggregate_1d(self.values(), ignore_nan=self.ignore_nan)


@spec("recorders._recorders.Recorder", "get agg_func", props="C20 C13")
def f(self):
    return self._scenario_aggregator.func


@spec("recorders._recorders.Recorder", "set agg_func", props="C20 C13")
def f(self, value):
    self._scenario_aggregator.func = value


@spec("recorders._recorders.NumpyArrayNodeRecorder recorders._recorders.NumpyArrayAbstractStorageRecorder "
      "recorders._recorders.NumpyArrayParameterRecorder recorders._recorders.NumpyArrayDailyProfileParameterRecorder "
      "recorders._recorders.NumpyArrayIndexParameterRecorder recorders._recorders.RollingWindowParameterRecorder "
      "recorders._recorders.AnnualCountIndexThresholdRecorder recorders._recorders.AnnualTotalFlowRecorder",
      "set temporal_agg_func", props="C20 C13", why="changes the time aggregation only")
def f(self, value):
    self._temporal_aggregator.func = value


@spec("recorders._recorders.Recorder", "set is_objective", props="C14 C13")
def f(self, value):
    if value is None:
        self._is_objective = ObjDirection.NONE
    else:
        self._is_objective = _obj_direction_lookup[value]


@spec("recorders._recorders.Recorder", "get is_objective", props="C14 C13", raises=True)
def f(self):
    if self._is_objective == ObjDirection.NONE:
        return None
    if self._is_objective == ObjDirection.MAXIMISE:
        return "maximise"
    if self._is_objective == ObjDirection.MINIMISE:
        return "minimise"
    raise ValueError()


@spec("recorders._recorders.Recorder", "set constraint_lower_bounds", props="C14", raises=True,
      keep="constraint_upper_bounds constraint_lower_bounds", cases=[{"value": None}, {"value": "num"}])
def f(self, value):
    if value is None:
        self._constraint_lower_bounds = -np.inf
    else:
        if self.constraint_upper_bounds is not None and value > self.constraint_upper_bounds:
            raise ValueError()
        self._constraint_lower_bounds = value


@spec("recorders._recorders.Recorder", "set constraint_upper_bounds", props="C14", raises=True,
      keep="constraint_upper_bounds constraint_lower_bounds", cases=[{"value": None}, {"value": "num"}])
def f(self, value):
    if value is None:
        self._constraint_upper_bounds = np.inf
    else:
        if self.constraint_lower_bounds is not None and value < self.constraint_lower_bounds:
            raise ValueError()
        self._constraint_upper_bounds = value


@spec("recorders._recorders.Recorder", "get constraint_lower_bounds", props="C14")
def f(self):
    if np.isneginf(self._constraint_lower_bounds):
        return None
    return self._constraint_lower_bounds


@spec("recorders._recorders.Recorder", "get constraint_upper_bounds", props="C14")
def f(self):
    if np.isinf(self._constraint_upper_bounds):
        return None
    return self._constraint_upper_bounds


@spec("recorders._recorders.Recorder", "get is_equality_constraint", props="C14", keep="constraint_upper_bounds constraint_lower_bounds")
def f(self):
    return self.constraint_upper_bounds is not None and self.constraint_lower_bounds is not None and self.constraint_lower_bounds == self.constraint_upper_bounds


@spec("recorders._recorders.Recorder", "get is_double_bounded_constraint", props="C14", keep="constraint_upper_bounds constraint_lower_bounds")
def f(self):
    return self.constraint_upper_bounds is not None and self.constraint_lower_bounds is not None and self.constraint_lower_bounds != self.constraint_upper_bounds


@spec("recorders._recorders.Recorder", "get is_lower_bounded_constraint", props="C14", keep="constraint_upper_bounds constraint_lower_bounds")
def f(self):
    return self.constraint_upper_bounds is None and self.constraint_lower_bounds is not None


@spec("recorders._recorders.Recorder", "get is_upper_bounded_constraint", props="C14", keep="constraint_upper_bounds constraint_lower_bounds")
def f(self):
    return self.constraint_upper_bounds is not None and self.constraint_lower_bounds is None


@spec("recorders._recorders.Recorder", "get is_constraint", props="C14", keep="constraint_upper_bounds constraint_lower_bounds")
def f(self):
    return self.constraint_upper_bounds is not None or self.constraint_lower_bounds is not None


@spec("recorders._recorders.Recorder", "is_constraint_violated", props="C14", raises=True,
      keep="constraint_upper_bounds constraint_lower_bounds aggregated_value",
      why="violated exactly when the value is outside the bounds given")
def f(self):
    value = self.aggregated_value()
    lb = self.constraint_lower_bounds
    ub = self.constraint_upper_bounds
    if ub is not None and lb is not None and lb == ub:
        return not (value == lb)
    if ub is not None and lb is not None and lb != ub:
        return not (lb <= value <= ub)
    if ub is None and lb is not None:
        return not (lb <= value)
    if ub is not None and lb is None:
        return not (value <= ub)
    raise ValueError()


@spec("recorders._recorders.AggregatedRecorder", "values", props="C20 C13 C22", raises=True, keep="values",
      why="the members' values of each scenario, aggregated as named")
def f(self):
    n = len(self.model.scenarios.combinations)
    if self._recorder_agg_func == AggFuncs.PRODUCT:
        v = np.ones(n)
        for r in self.recorders:
            v[:] *= r.values()[:]
    elif self._recorder_agg_func == AggFuncs.SUM:
        v = np.zeros(n)
        for r in self.recorders:
            v[:] += r.values()[:]
    elif self._recorder_agg_func == AggFuncs.MAX:
        v = np.empty(n)
        v[:] = -np.inf
        for r in self.recorders:
            w = r.values()
            for i in range(n):
                v[i] = max(v[i], w[i])
    elif self._recorder_agg_func == AggFuncs.MIN:
        v = np.empty(n)
        v[:] = np.inf
        for r in self.recorders:
            w = r.values()
            for i in range(n):
                v[i] = min(v[i], w[i])
    elif self._recorder_agg_func == AggFuncs.MEAN:
        v = np.zeros(n)
        for r in self.recorders:
            v[:] += r.values()[:]
        v[:] = v[:] / len(self.recorders)
    elif self._recorder_agg_func == AggFuncs.MEDIAN:
        v = np.median([np.asarray(r.values()) for r in self.recorders], axis=0)
    elif self._recorder_agg_func == AggFuncs.COUNT_NONZERO:
        v = np.count_nonzero([np.asarray(r.values()) for r in self.recorders], axis=0).astype(np.float64)
    elif self._recorder_agg_func == AggFuncs.CUSTOM:
        v = self.recorder_agg_func([r.values() for r in self.recorders], axis=0)
    else:
        raise ValueError()
    return v


@spec("recorders._recorders.NodeRecorder", "values", props="C20 C22")
def f(self):
    return self._node._flow


@spec("recorders._recorders.StorageRecorder", "values", props="C20 C22")
def f(self):
    return self._node._volume


@spec("recorders._recorders.NumpyArrayNodeRecorder recorders._recorders.NumpyArrayNodeDeficitRecorder "
      "recorders._recorders.NumpyArrayNodeSuppliedRatioRecorder recorders._recorders.NumpyArrayNodeCurtailmentRatioRecorder "
      "recorders._recorders.NumpyArrayNodeCostRecorder "
      "recorders._recorders.NumpyArrayStorageRecorder recorders._recorders.NumpyArrayNormalisedStorageRecorder "
      "recorders._recorders.NumpyArrayLevelRecorder recorders._recorders.NumpyArrayAreaRecorder "
      "recorders._recorders.NumpyArrayParameterRecorder recorders._recorders.NumpyArrayDailyProfileParameterRecorder "
      "recorders._recorders.AnnualCountIndexThresholdRecorder recorders._recorders.AnnualTotalFlowRecorder",
      "values", props="C20", keep="aggregate_2d", why="the time aggregation over the rows (steps) of the data")
def f(self):
    return self._temporal_aggregator.aggregate_2d(self._data, axis=0, ignore_nan=self.ignore_nan)


@spec("recorders._recorders.FlowDurationCurveRecorder recorders._recorders.SeasonalFlowDurationCurveRecorder", "values", props="C20 C22", keep="aggregate_2d")
def f(self):
    return self._temporal_aggregator.aggregate_2d(self._fdc, axis=0, ignore_nan=self.ignore_nan)


@spec("recorders._recorders.StorageDurationCurveRecorder", "values", props="C20 C22", keep="aggregate_2d")
def f(self):
    return self._temporal_aggregator.aggregate_2d(self._sdc, axis=0, ignore_nan=self.ignore_nan)


@spec("recorders._recorders.FlowDurationCurveDeviationRecorder", "values", props="C20 C22", keep="aggregate_2d")
def f(self):
    return self._temporal_aggregator.aggregate_2d(self._fdc_deviations, axis=0, ignore_nan=self.ignore_nan)


@spec("recorders._recorders.FlowDurationCurveRecorder", "finish", props="C20 C22")
def f(self):
    self._fdc = np.percentile(np.asarray(self._data), np.asarray(self._percentiles), axis=0)


@spec("recorders._recorders.StorageDurationCurveRecorder", "finish", props="C20 C22")
def f(self):
    self._sdc = np.percentile(np.asarray(self._data), np.asarray(self._percentiles), axis=0)


@spec("recorders._recorders.SeasonalFlowDurationCurveRecorder", "is_season", props="C20 C18 C22")
def f(self, x):
    return x.month in self._months


@spec("recorders._recorders.NumpyArrayNodeRecorder recorders._recorders.NumpyArrayAbstractStorageRecorder "
      "recorders._recorders.NumpyArrayParameterRecorder recorders._recorders.NumpyArrayIndexParameterRecorder "
      "recorders._recorders.RollingWindowParameterRecorder", "reset", props="C20 C01", cells="_data")
def f(self):
    self._data[:, :] = 0.0


@spec("recorders._recorders.NumpyArrayNodeRecorder recorders._recorders.FlowDurationCurveRecorder", "after", props="C20 C02 C22",
      why="the flow of every combination, at the row of the step")
def f(self):
    for i in range(self._data.shape[1]):
        self._data[self.model.timestepper.current.index, i] = self._node._flow[i] * self.factor


@spec("recorders._recorders.NumpyArrayNodeDeficitRecorder", "after", props="C20 C02 C22", keep="get_max_flow")
def f(self):
    for si in self.model.scenarios.combinations:
        self._data[self.model.timestepper.current.index, si.global_id] = self._node.get_max_flow(si) - self._node._flow[si.global_id]


@spec("recorders._recorders.NumpyArrayNodeSuppliedRatioRecorder", "after", props="C20 C02 C22", keep="get_max_flow")
def f(self):
    for si in self.model.scenarios.combinations:
        try:
            self._data[self.model.timestepper.current.index, si.global_id] = self._node._flow[si.global_id] / self._node.get_max_flow(si)
        except ZeroDivisionError:
            self._data[self.model.timestepper.current.index, si.global_id] = 1.0


@spec("recorders._recorders.NumpyArrayNodeCurtailmentRatioRecorder", "after", props="C20 C02 C22", keep="get_max_flow")
def f(self):
    for si in self.model.scenarios.combinations:
        try:
            self._data[self.model.timestepper.current.index, si.global_id] = 1.0 - self._node._flow[si.global_id] / self._node.get_max_flow(si)
        except ZeroDivisionError:
            self._data[self.model.timestepper.current.index, si.global_id] = 0.0


@spec("recorders._recorders.NumpyArrayNodeCostRecorder", "after", props="C20 C02 C22", keep="get_cost")
def f(self):
    for si in self.model.scenarios.combinations:
        self._data[self.model.timestepper.current.index, si.global_id] = self._node.get_cost(si)


@spec("recorders._recorders.NumpyArrayStorageRecorder recorders._recorders.StorageDurationCurveRecorder", "after", props="C20 C02 C03 C22",
      why="the volume, or the proportional volume where that is asked for")
def f(self):
    for i in range(self._data.shape[1]):
        if self.proportional:
            self._data[self.model.timestepper.current.index, i] = self._node._current_pc[i]
        else:
            self._data[self.model.timestepper.current.index, i] = self._node._volume[i]


@spec("recorders._recorders.NumpyArrayNormalisedStorageRecorder", "after", props="C20 C02 C03 C22", keep="get_all_values",
      why="0 at the control curve, -1 when empty, 1 when full")
def f(self):
    cc = self.parameter.get_all_values()
    for i in range(self._data.shape[1]):
        pc = self._node._current_pc[i]
        if pc < cc[i]:
            v = pc / cc[i] - 1.0
        else:
            v = (pc - cc[i]) / (1.0 - cc[i])
        self._data[self.model.timestepper.current.index, i] = v


@spec("recorders._recorders.NumpyArrayLevelRecorder", "after", props="C20 C02 C22", keep="get_level")
def f(self):
    for i, si in enumerate(self.model.scenarios.combinations):
        self._data[self.model.timestepper.current.index, i] = self._node.get_level(si)


@spec("recorders._recorders.NumpyArrayAreaRecorder", "after", props="C20 C02 C22", keep="get_area")
def f(self):
    for i, si in enumerate(self.model.scenarios.combinations):
        self._data[self.model.timestepper.current.index, i] = self._node.get_area(si)


@spec("recorders._recorders.NumpyArrayParameterRecorder", "after", props="C20 C02 C22", keep="get_all_values")
def f(self):
    self._data[self.model.timestepper.current.index, :] = self._param.get_all_values()


@spec("recorders._recorders.NumpyArrayDailyProfileParameterRecorder", "after", props="C20 C02 C18 C22", keep="get_all_values")
def f(self):
    self._data[self.model.timestepper.current.dayofyear_index, :] = self._param.get_all_values()


@spec("recorders._recorders.NumpyArrayIndexParameterRecorder", "after", props="C20 C02 C22", keep="get_all_indices")
def f(self):
    self._data[self.model.timestepper.current.index, :] = self._param.get_all_indices()


@spec("recorders._recorders.RollingWindowParameterRecorder", "after", props="C20 C02 C22", keep="get_value aggregate_2d",
      why="the aggregation of the last window steps, of those run so far while there are fewer")
def f(self):
    ts = self.model.timestepper.current
    for i, si in enumerate(self.model.scenarios.combinations):
        self._memory[self.position, i] = self._param.get_value(si)
    if ts.index < self.window:
        n = ts.index + 1
    else:
        n = self.window
    self._data[ts.index, :] = self._temporal_aggregator.aggregate_2d(self._memory[0:n, :], axis=0)
    if self.position + 1 >= self.window:
        self.position = 0
    else:
        self.position = self.position + 1


@spec("recorders._recorders.RollingMeanFlowNodeRecorder", "after", props="C20 C02 C22",
      why="the mean flow of the last steps, of those run so far while there are fewer")
def f(self):
    ts = self.model.timestepper.current
    for i in range(0, self._memory.shape[0]):
        self._memory[i, self.position] = self._node._flow[i]
    if ts.index < self.timesteps:
        n = ts.index + 1
    else:
        n = self.timesteps
    self._data[ts.index, :] = np.mean(self._memory[:, 0:n], axis=1)
    if self.position + 1 >= self.timesteps:
        self.position = 0
    else:
        self.position = self.position + 1


@spec("recorders._recorders.BaseConstantNodeRecorder recorders._recorders.BaseConstantStorageRecorder recorders._recorders.BaseConstantParameterRecorder "
      "recorders._recorders.TotalFlowNodeRecorder recorders._recorders.MeanFlowNodeRecorder recorders._recorders.TotalDeficitNodeRecorder "
      "recorders._recorders.DeficitFrequencyNodeRecorder recorders._recorders.MinimumVolumeStorageRecorder "
      "recorders._recorders.MinimumThresholdVolumeStorageRecorder recorders._recorders.TotalParameterRecorder recorders._recorders.MeanParameterRecorder",
      "values", props="C20")
def f(self):
    return self._values


@spec("recorders._recorders.BaseConstantNodeRecorder recorders._recorders.BaseConstantStorageRecorder recorders._recorders.BaseConstantParameterRecorder "
      "recorders._recorders.TotalFlowNodeRecorder recorders._recorders.MeanFlowNodeRecorder recorders._recorders.TotalDeficitNodeRecorder "
      "recorders._recorders.DeficitFrequencyNodeRecorder "
      "recorders._recorders.MinimumThresholdVolumeStorageRecorder recorders._recorders.TotalParameterRecorder recorders._recorders.MeanParameterRecorder",
      "reset", props="C20 C01")
def f(self):
    self._values[...] = 0.0


@spec("recorders._recorders.MinimumVolumeStorageRecorder", "reset", props="C20 C01")
def f(self):
    self._values[...] = np.inf


@spec("recorders._recorders.TotalDeficitNodeRecorder", "after", props="C20 C02 C03 C22", keep="get_max_flow", why="a volume: deficit flow x days, summed over the steps")
def f(self):
    for si in self.model.scenarios.combinations:
        self._values[si.global_id] += (self._node.get_max_flow(si) - self._node._flow[si.global_id]) * self.model.timestepper.current.days


@spec("recorders._recorders.TotalFlowNodeRecorder", "after", props="C20 C02 C03 C22", why="a volume: flow x factor x days, summed over the steps")
def f(self):
    for si in self.model.scenarios.combinations:
        self._values[si.global_id] += self._node._flow[si.global_id] * self.factor * self.model.timestepper.current.days


@spec("recorders._recorders.MeanFlowNodeRecorder", "after", props="C20 C02 C22")
def f(self):
    for si in self.model.scenarios.combinations:
        self._values[si.global_id] += self._node._flow[si.global_id] * self.factor


@spec("recorders._recorders.MeanFlowNodeRecorder recorders._recorders.DeficitFrequencyNodeRecorder recorders._recorders.MeanParameterRecorder",
      "finish", props="C20", why="divided by the number of steps run, also when the time-stepper has not gone past the end")
def f(self):
    for i in range(self._values.shape[0]):
        self._values[i] = self._values[i] / min(self.model.timestepper.current.index + 1, len(self.model.timestepper))


@spec("recorders._recorders.DeficitFrequencyNodeRecorder", "after", props="C20 C02 C22", keep="get_max_flow")
def f(self):
    for si in self.model.scenarios.combinations:
        if abs(self._node._flow[si.global_id] - self._node.get_max_flow(si)) > 1e-6:
            self._values[si.global_id] += 1.0


@spec("recorders._recorders.MinimumVolumeStorageRecorder", "after", props="C20 C02 C22")
def f(self):
    for i in range(self._values.shape[0]):
        self._values[i] = np.min([self._node._volume[i], self._values[i]])


@spec("recorders._recorders.MinimumThresholdVolumeStorageRecorder", "after", props="C20 C02 C22")
def f(self):
    for i in range(self._values.shape[0]):
        if self._node._volume[i] <= self.threshold:
            self._values[i] = 1.0


@spec("recorders._recorders.TimestepCountIndexParameterRecorder", "after", props="C20 C02 C22", keep="get_index")
def f(self):
    for si in self.model.scenarios.combinations:
        if self._param.get_index(si) >= self.threshold:
            self._count[si.global_id] += 1


@spec("recorders._recorders.TimestepCountIndexParameterRecorder recorders._recorders.AnnualCountIndexParameterRecorder", "values", props="C20 C22")
def f(self):
    return np.asarray(self._count).astype(np.float64)


@spec("recorders._recorders.AnnualCountIndexThresholdRecorder", "finish", props="C20 C22", why="the last year counts as well")
def f(self):
    for i in range(self._ncomb):
        self._data[self._current_year - self._start_year, i] = np.sum(self._data_this_year[:, i])


@spec("recorders._recorders.AnnualTotalFlowRecorder", "after", props="C20 C02 C03 C22", keep="days_in_current_year days_in_next_year",
      why="the part of the step in each year is added to that year")
def f(self):
    ts = self.model.timestepper.current
    y = ts.year - self._start_year
    for i in range(self._ncomb):
        for j, node in enumerate(self.nodes):
            self._data[y, i] += node._flow[i] * ts.days_in_current_year() * self._factors[j]
            if ts.days_in_current_year() != ts.days and y + 1 < self._data.shape[0]:
                self._data[y + 1, i] += node._flow[i] * ts.days_in_next_year() * self._factors[j]


@spec("recorders._recorders.AnnualCountIndexParameterRecorder", "after", props="C20 C02 C22", keep="get_index",
      why="a year counts once, when its maximum reaches the threshold")
def f(self):
    ts = self.model.timestepper.current
    n = len(self.model.scenarios.combinations)
    if ts.year != self._current_year:
        if self._current_year != -1:
            for i in range(n):
                if self._current_max[i] >= self.threshold:
                    self._count[i] += 1
        self._current_max[...] = 0
        self._current_year = ts.year
    for si in self.model.scenarios.combinations:
        v = self._param.get_index(si)
        if v > self._current_max[si.global_id]:
            self._current_max[si.global_id] = v


@spec("recorders._recorders.AnnualCountIndexParameterRecorder", "finish", props="C20 C22", why="the last year counts as well")
def f(self):
    for i in range(len(self.model.scenarios.combinations)):
        if self._current_max[i] >= self.threshold:
            self._count[i] += 1


@spec("recorders._recorders.TotalParameterRecorder", "after", props="C20 C02 C03 C22", keep="get_all_values",
      why="value x factor, and x days when integrating over time")
def f(self):
    v = self._param.get_all_values()
    for si in self.model.scenarios.combinations:
        if self.integrate:
            self._values[si.global_id] += v[si.global_id] * self.factor * self.model.timestepper.current.days
        else:
            self._values[si.global_id] += v[si.global_id] * self.factor


@spec("recorders._recorders.MeanParameterRecorder", "after", props="C20 C02 C22", keep="get_all_values")
def f(self):
    v = self._param.get_all_values()
    for si in self.model.scenarios.combinations:
        self._values[si.global_id] += v[si.global_id] * self.factor


@spec("recorders._recorders.FlowDurationCurveDeviationRecorder", "finish", props="C20 C02 C22", cells="_fdc_deviations",
      cases=[{"self._upper_target_fdc": None, "self.scenario": None}, {"self._lower_target_fdc": None, "self.scenario": None},
             {"self._upper_target_fdc": None}, {"self._lower_target_fdc": None}],
      why="relative to the target of the combination's own member; never negative")
def f(self):
    FlowDurationCurveRecorder.finish(self)
    if self.scenario is not None:
        s = self.model.scenarios.get_scenario_index(self.scenario)
    self._fdc_deviations = np.empty((len(self._percentiles), len(self.model.scenarios.combinations)))
    for i, si in enumerate(self.model.scenarios.combinations):
        if self.scenario is not None:
            j = si._indices[s]
        else:
            j = si.global_id
        if self._lower_target_fdc is not None:
            if self._lower_target_fdc.shape[1] == 1:
                lo = self._lower_target_fdc[:, 0]
            else:
                lo = self._lower_target_fdc[:, j]
        if self._upper_target_fdc is not None:
            if self._upper_target_fdc.shape[1] == 1:
                up = self._upper_target_fdc[:, 0]
            else:
                up = self._upper_target_fdc[:, j]
        for k in range(len(self._percentiles)):
            try:
                if self._upper_target_fdc is not None:
                    u = (self._fdc[k, i] - up[k]) / up[k]
                else:
                    u = 0.0
                if self._lower_target_fdc is not None:
                    l = (lo[k] - self._fdc[k, i]) / lo[k]
                else:
                    l = 0.0
                self._fdc_deviations[k, i] = max(u, l, 0.0)
            except ZeroDivisionError:
                self._fdc_deviations[k, i] = np.nan


@spec("recorders._recorders.AnnualCountIndexThresholdRecorder", "after", props="C20 C02 C22", keep="get_index", cells="_data _current_year",
      why="the year that has ended is stored when the next one starts")
def f(self):
    ts = self.model.timestepper.current
    if ts.year != self._current_year:
        if self._current_year != -1:
            for i in range(self._ncomb):
                self._data[self._current_year - self._start_year, i] = np.sum(self._data_this_year[:, i])
        self._current_year = ts.year


@spec("recorders._thresholds.StorageThresholdRecorder", "after", props="C20 C02 C13 C22", keep="compare")
def f(self):
    for si in self.model.scenarios.combinations:
        self._state[si.global_id] = compare(self._node._volume[si.global_id], self.threshold, self.predicate)


@spec("recorders._thresholds.NodeThresholdRecorder", "after", props="C20 C02 C13 C22", keep="compare")
def f(self):
    for si in self.model.scenarios.combinations:
        self._state[si.global_id] = compare(self._node._flow[si.global_id], self.threshold, self.predicate)


@spec("recorders._thresholds.StorageThresholdRecorder recorders._thresholds.NodeThresholdRecorder", "values", props="C20 C22")
def f(self):
    return np.array(self._state, dtype=np.float64)


@spec("recorders._thresholds:", "compare", props="C13 C22")
def f(x, threshold, predicate):
    if predicate == Predicates.LT:
        return x < threshold
    if predicate == Predicates.GT:
        return x > threshold
    if predicate == Predicates.LE:
        return x <= threshold
    if predicate == Predicates.GE:
        return x >= threshold
    return x == threshold


@spec("recorders._hydropower:", "hydropower_calculation", props="C03 C22", why="density x flow x g x head x efficiency in the units asked for")
def f(flow, water_elevation, turbine_elevation, efficiency, flow_unit_conversion, energy_unit_conversion, density):
    return density * flow * flow_unit_conversion * 9.81 * max(water_elevation - turbine_elevation, 0.0) * efficiency * energy_unit_conversion


@spec("recorders._hydropower.HydropowerRecorder", "after", props="C20 C02 C03 C22", keep="get_value", raises=True)
def f(self):
    for si in self.model.scenarios.combinations:
        if self._water_elevation_parameter is not None:
            head = self._water_elevation_parameter.get_value(si)
            if self.turbine_elevation is not None:
                head = head - self.turbine_elevation
        elif self.turbine_elevation is not None:
            head = self.turbine_elevation
        else:
            raise ValueError()
        self._data[self.model.timestepper.current.index, si.global_id] = (
            self.density * self._node._flow[si.global_id] * self.flow_unit_conversion * 9.81 * max(head, 0.0) * self.efficiency * self.energy_unit_conversion)


@spec("recorders._hydropower.TotalHydroEnergyRecorder", "after", props="C20 C02 C03 C22", keep="get_value", raises=True)
def f(self):
    for si in self.model.scenarios.combinations:
        if self._water_elevation_parameter is not None:
            head = self._water_elevation_parameter.get_value(si)
            if self.turbine_elevation is not None:
                head = head - self.turbine_elevation
        elif self.turbine_elevation is not None:
            head = self.turbine_elevation
        else:
            raise ValueError()
        self._values[si.global_id] += self.model.timestepper.current.days * (
            self.density * self._node._flow[si.global_id] * self.flow_unit_conversion * 9.81 * max(head, 0.0) * self.efficiency * self.energy_unit_conversion)




@spec("recorders.events.EventDurationRecorder recorders.events.EventStatisticRecorder", "values", props="C20 C22")
def f(self):
    return self._values


@spec("recorders.events.EventDurationRecorder recorders.events.EventStatisticRecorder", "reset", props="C20 C01")
def f(self):
    self._values[...] = np.nan


@spec("recorders.events.EventRecorder", "reset", props="C20 C01", cells="_current_events")
def f(self):
    self.events = []
    self._current_events = [None for si in self.model.scenarios.combinations]

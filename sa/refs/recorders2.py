# Recorders: state, stored steps and statistics.  Interpreted, never executed.


@spec("recorders._hydropower.HydropowerRecorder", "get water_elevation_parameter", props="C20")
def f(self):
    return self._water_elevation_parameter


@spec("recorders._hydropower.TotalHydroEnergyRecorder", "get water_elevation_parameter", props="C20")
def f(self):
    return self._water_elevation_parameter


@spec("recorders._recorders.Aggregator", "get func", props="C13 C20")
def f(self):
    if self._func == AggFuncs.CUSTOM:
        return self._user_func
    return _agg_func_lookup_reverse[self._func]


@spec("recorders._recorders.Aggregator", "set func", props="C13 C20")
def f(self, func):
    self._user_func = None
    func_args = []
    func_kwargs = {}
    if isinstance(func, str):
        func_type = _agg_func_lookup[func.lower()]
    elif isinstance(func, dict):
        func_type = _agg_func_lookup[func['func']]
        func_args = func.get('args', [])
        func_kwargs = func.get('kwargs', {})
    else:
        if not callable(func):
            raise ValueError('Unrecognised aggregation function: "{}".'.format(func))
        self._user_func = func
        func_type = AggFuncs.CUSTOM
    self._func = func_type
    self.func_args = func_args
    self.func_kwargs = func_kwargs


@spec("recorders._recorders.NodeRecorder", "get node", props="C20")
def f(self):
    return self._node


@spec("recorders._recorders.StorageRecorder", "get node", props="C20")
def f(self):
    return self._node


@spec("recorders._recorders.ParameterRecorder", "get parameter", props="C20")
def f(self):
    return self._param


@spec("recorders._recorders.IndexParameterRecorder", "get parameter", props="C20")
def f(self):
    return self._param


@spec("recorders._recorders.NumpyArrayNodeRecorder", "setup", props="C02 C20")
def f(self):
    ncomb = len(self.model.scenarios.combinations)
    nts = len(self.model.timestepper)
    self._data = np.zeros((nts, ncomb))


@spec("recorders._recorders.NumpyArrayNodeRecorder", "to_dataframe", props="C20 C02")
def f(self):
    index = self.model.timestepper.datetime_index
    sc_index = self.model.scenarios.multiindex
    return pd.DataFrame(data=np.array(self._data), index=index, columns=sc_index)


@spec("recorders._recorders.NumpyArrayNodeRecorder", "get data", props="C20 C02")
def f(self):
    return np.array(self._data)


@spec("recorders._recorders.FlowDurationCurveRecorder", "to_dataframe", props="C20 C02")
def f(self):
    index = np.array(self._percentiles)
    sc_index = self.model.scenarios.multiindex
    return pd.DataFrame(data=np.array(self.fdc), index=index, columns=sc_index)


@spec("recorders._recorders.FlowDurationCurveRecorder", "get fdc", props="C20 C02")
def f(self):
    return np.array(self._fdc)


@spec("recorders._recorders.SeasonalFlowDurationCurveRecorder", "finish", props="C20 C22")
def f(self):
    index = self.model.timestepper.datetime_index
    sc_index = self.model.scenarios.multiindex
    df = pd.DataFrame(data=np.array(self._data), index=index, columns=sc_index)
    mask = np.asarray(df.index.map(self.is_season))
    self._fdc = np.percentile(df.loc[mask, :], np.asarray(self._percentiles), axis=0)


@spec("recorders._recorders.FlowDurationCurveDeviationRecorder", "setup", props="C02 C20")
def f(self):
    super(FlowDurationCurveDeviationRecorder, self).setup()
    if self.scenario is not None:
        if self._lower_target_fdc is not None:
            if self._lower_target_fdc.shape[1] > 1 and self._lower_target_fdc.shape[1] != self.scenario.size:
                raise ValueError('The number of lower target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
        if self._upper_target_fdc is not None:
            if self._upper_target_fdc.shape[1] > 1 and self._upper_target_fdc.shape[1] != self.scenario.size:
                raise ValueError('The number of upper target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
    else:
        if self._lower_target_fdc is not None:
            if self._lower_target_fdc.shape[1] > 1 and self._lower_target_fdc.shape[1] != len(self.model.scenarios.combinations):
                raise ValueError('The number of lower target FDCs does not match the number of scenarios')
        if self._upper_target_fdc is not None:
            if self._upper_target_fdc.shape[1] > 1 and self._upper_target_fdc.shape[1] != len(self.model.scenarios.combinations):
                raise ValueError('The number of upper target FDCs does not match the number of scenarios')


@spec("recorders._recorders.FlowDurationCurveDeviationRecorder", "to_dataframe", props="C20 C02")
def f(self, return_fdc=False):
    index = np.array(self._percentiles)
    sc_index = self.model.scenarios.multiindex
    df = pd.DataFrame(data=np.array(self._fdc_deviations), index=index, columns=sc_index)
    if return_fdc:
        return (df, super(FlowDurationCurveDeviationRecorder, self).to_dataframe())
    return df


@spec("recorders._recorders.FlowDurationCurveDeviationRecorder", "get fdc_deviations", props="C20 C02")
def f(self):
    return np.array(self._fdc_deviations)


@spec("recorders._recorders.NumpyArrayAbstractStorageRecorder", "setup", props="C02 C20")
def f(self):
    ncomb = len(self.model.scenarios.combinations)
    nts = len(self.model.timestepper)
    self._data = np.zeros((nts, ncomb))


@spec("recorders._recorders.NumpyArrayAbstractStorageRecorder", "after", props="C20 C22")
def f(self):
    raise NotImplementedError()


@spec("recorders._recorders.NumpyArrayAbstractStorageRecorder", "to_dataframe", props="C20 C02")
def f(self):
    index = self.model.timestepper.datetime_index
    sc_index = self.model.scenarios.multiindex
    return pd.DataFrame(data=np.array(self._data), index=index, columns=sc_index)


@spec("recorders._recorders.NumpyArrayAbstractStorageRecorder", "get data", props="C20 C02")
def f(self):
    return np.array(self._data)


@spec("recorders._recorders.StorageDurationCurveRecorder", "to_dataframe", props="C20 C02")
def f(self):
    index = np.array(self._percentiles)
    sc_index = self.model.scenarios.multiindex
    return pd.DataFrame(data=self.sdc, index=index, columns=sc_index)


@spec("recorders._recorders.StorageDurationCurveRecorder", "get sdc", props="C20 C02")
def f(self):
    return np.array(self._sdc)


@spec("recorders._recorders.NumpyArrayParameterRecorder", "setup", props="C02 C20")
def f(self):
    ncomb = len(self.model.scenarios.combinations)
    nts = len(self.model.timestepper)
    self._data = np.zeros((nts, ncomb))


@spec("recorders._recorders.NumpyArrayParameterRecorder", "to_dataframe", props="C20 C02")
def f(self):
    index = self.model.timestepper.datetime_index
    sc_index = self.model.scenarios.multiindex
    return pd.DataFrame(data=np.array(self._data), index=index, columns=sc_index)


@spec("recorders._recorders.NumpyArrayParameterRecorder", "get data", props="C20 C02")
def f(self):
    return np.array(self._data)


@spec("recorders._recorders.NumpyArrayDailyProfileParameterRecorder", "setup", props="C02 C20")
def f(self):
    ncomb = len(self.model.scenarios.combinations)
    self._data = np.zeros((366, ncomb))


@spec("recorders._recorders.NumpyArrayDailyProfileParameterRecorder", "reset", props="C01 C20")
def f(self):
    self._data[:, :] = 0.0


@spec("recorders._recorders.NumpyArrayDailyProfileParameterRecorder", "to_dataframe", props="C20 C02")
def f(self):
    index = np.arange(1, 367)
    sc_index = self.model.scenarios.multiindex
    return pd.DataFrame(data=np.array(self._data), index=index, columns=sc_index)


@spec("recorders._recorders.NumpyArrayDailyProfileParameterRecorder", "get data", props="C20 C02")
def f(self):
    return np.array(self._data)


@spec("recorders._recorders.NumpyArrayIndexParameterRecorder", "setup", props="C02 C20")
def f(self):
    ncomb = len(self.model.scenarios.combinations)
    nts = len(self.model.timestepper)
    self._data = np.zeros((nts, ncomb), dtype=np.int32)


@spec("recorders._recorders.NumpyArrayIndexParameterRecorder", "to_dataframe", props="C20 C02")
def f(self):
    index = self.model.timestepper.datetime_index
    sc_index = self.model.scenarios.multiindex
    return pd.DataFrame(data=np.array(self._data), index=index, columns=sc_index)


@spec("recorders._recorders.NumpyArrayIndexParameterRecorder", "get data", props="C20 C02")
def f(self):
    return np.array(self._data)


@spec("recorders._recorders.RollingWindowParameterRecorder", "setup", props="C02 C20")
def f(self):
    ncomb = len(self.model.scenarios.combinations)
    nts = len(self.model.timestepper)
    self._data = np.zeros((nts, ncomb), np.float64)
    self._memory = np.empty((nts, ncomb), np.float64)
    self.position = 0


@spec("recorders._recorders.RollingWindowParameterRecorder", "to_dataframe", props="C20 C02")
def f(self):
    index = self.model.timestepper.datetime_index
    sc_index = self.model.scenarios.multiindex
    return pd.DataFrame(data=self.data, index=index, columns=sc_index)


@spec("recorders._recorders.RollingWindowParameterRecorder", "get data", props="C20 C02")
def f(self):
    return np.array(self._data, dtype=np.float64)


@spec("recorders._recorders.RollingMeanFlowNodeRecorder", "setup", props="C02 C20")
def f(self):
    super(RollingMeanFlowNodeRecorder, self).setup()
    self._data = np.empty([len(self.model.timestepper), len(self.model.scenarios.combinations)])
    if self.days > 0:
        try:
            self.timesteps = self.days // self.model.timestepper.delta
        except TypeError:
            raise TypeError('A rolling window defined as a number of days is only valid with daily time-steps.')
    if self.timesteps == 0:
        raise ValueError('Timesteps property of MeanFlowRecorder is less than 1.')
    self._memory = np.zeros([len(self.model.scenarios.combinations), self.timesteps])


@spec("recorders._recorders.RollingMeanFlowNodeRecorder", "reset", props="C01 C20")
def f(self):
    super(RollingMeanFlowNodeRecorder, self).reset()
    self.position = 0


@spec("recorders._recorders.RollingMeanFlowNodeRecorder", "get data", props="C20 C02")
def f(self):
    return np.array(self._data, dtype=np.float64)


@spec("recorders._recorders.BaseConstantNodeRecorder", "setup", props="C02 C20")
def f(self):
    self._values = np.zeros(len(self.model.scenarios.combinations))


@spec("recorders._recorders.BaseConstantStorageRecorder", "setup", props="C02 C20")
def f(self):
    self._values = np.zeros(len(self.model.scenarios.combinations))


@spec("recorders._recorders.TimestepCountIndexParameterRecorder", "setup", props="C02 C20")
def f(self):
    self._count = np.zeros(len(self.model.scenarios.combinations), np.int32)


@spec("recorders._recorders.TimestepCountIndexParameterRecorder", "reset", props="C01 C20")
def f(self):
    self._count[...] = 0


@spec("recorders._recorders.AnnualCountIndexThresholdRecorder", "setup", props="C02 C20")
def f(self):
    super(AnnualCountIndexThresholdRecorder, self).setup()
    self._num_years = self.model.timestepper.end.year - self.model.timestepper.start.year + 1
    self._ncomb = len(self.model.scenarios.combinations)
    self._data = np.empty([self._num_years, self._ncomb])
    self._data_this_year = np.zeros([len(self.parameters), self._ncomb])


@spec("recorders._recorders.AnnualCountIndexThresholdRecorder", "reset", props="C01 C20")
def f(self):
    self._data[...] = 0
    self._current_year = -1
    self._start_year = self.model.timestepper.start.year


@spec("recorders._recorders.AnnualCountIndexThresholdRecorder", "to_dataframe", props="C20 C02")
def f(self):
    start_year = self.model.timestepper.start.year
    end_year = self.model.timestepper.end.year
    index = pd.period_range(f'{start_year}-01-01', f'{end_year}-01-01', freq='Y')
    sc_index = self.model.scenarios.multiindex
    return pd.DataFrame(data=np.array(self._data, dtype=int), index=index, columns=sc_index)


@spec("recorders._recorders.AnnualCountIndexThresholdRecorder", "get data", props="C20 C02")
def f(self):
    return np.array(self._data, dtype=np.int16)


@spec("recorders._recorders.AnnualTotalFlowRecorder", "setup", props="C02 C20")
def f(self):
    super(AnnualTotalFlowRecorder, self).setup()
    self._num_years = self.model.timestepper.end.year - self.model.timestepper.start.year + 1
    self._ncomb = len(self.model.scenarios.combinations)
    self._data = np.empty([self._num_years, self._ncomb])


@spec("recorders._recorders.AnnualTotalFlowRecorder", "reset", props="C01 C20")
def f(self):
    self._data[...] = 0
    self._current_year = -1
    self._start_year = self.model.timestepper.start.year


@spec("recorders._recorders.AnnualTotalFlowRecorder", "to_dataframe", props="C20 C02")
def f(self):
    start_year = self.model.timestepper.start.year
    end_year = self.model.timestepper.end.year
    index = pd.period_range(f'{start_year}-01-01', f'{end_year}-01-01', freq='Y')
    sc_index = self.model.scenarios.multiindex
    return pd.DataFrame(data=np.array(self._data), index=index, columns=sc_index)


@spec("recorders._recorders.AnnualTotalFlowRecorder", "get factors", props="C20")
def f(self):
    return np.array(self._factors)


@spec("recorders._recorders.AnnualTotalFlowRecorder", "set factors", props="C20")
def f(self, factors):
    if factors is None:
        factors = np.array([1.0 for n in self.nodes])
    self._factors = np.array(factors)


@spec("recorders._recorders.AnnualTotalFlowRecorder", "get data", props="C20 C02")
def f(self):
    return np.array(self._data, dtype=np.float64)


@spec("recorders._recorders.AnnualCountIndexParameterRecorder", "setup", props="C02 C20")
def f(self):
    self._count = np.zeros(len(self.model.scenarios.combinations), np.int32)
    self._current_max = np.zeros_like(self._count)


@spec("recorders._recorders.AnnualCountIndexParameterRecorder", "reset", props="C01 C20")
def f(self):
    self._count[...] = 0
    self._current_max[...] = 0
    self._current_year = -1


@spec("recorders._recorders.BaseConstantParameterRecorder", "setup", props="C02 C20")
def f(self):
    self._values = np.zeros(len(self.model.scenarios.combinations))


@spec("recorders._thresholds.StorageThresholdRecorder", "setup", props="C02 C20")
def f(self):
    self._state = np.zeros(len(self.model.scenarios.combinations), dtype=np.int32)


@spec("recorders._thresholds.StorageThresholdRecorder", "reset", props="C01 C20")
def f(self):
    self._state[...] = 0


@spec("recorders._thresholds.NodeThresholdRecorder", "setup", props="C02 C20")
def f(self):
    self._state = np.zeros(len(self.model.scenarios.combinations), dtype=np.int32)


@spec("recorders._thresholds.NodeThresholdRecorder", "reset", props="C01 C20")
def f(self):
    self._state[...] = 0


@spec("recorders.calibration.AbstractComparisonNodeRecorder", "setup", props="C02 C20")
def f(self):
    super(AbstractComparisonNodeRecorder, self).setup()
    from pywr.parameters import align_and_resample_dataframe
    self._aligned_observed = align_and_resample_dataframe(self.observed, self.model.timestepper.datetime_index)


@spec("recorders.calibration.RootMeanSquaredErrorNodeRecorder", "values", props="C22 C20")
def f(self):
    mod = self.data
    obs = self._aligned_observed
    return np.sqrt(np.mean((obs - mod) ** 2, axis=0))


@spec("recorders.calibration.MeanAbsoluteErrorNodeRecorder", "values", props="C22 C20")
def f(self):
    mod = self.data
    obs = self._aligned_observed
    return np.mean(np.abs(obs - mod), axis=0)


@spec("recorders.calibration.MeanSquareErrorNodeRecorder", "values", props="C22 C20")
def f(self):
    mod = self.data
    obs = self._aligned_observed
    return np.mean((obs - mod) ** 2, axis=0)


@spec("recorders.calibration.PercentBiasNodeRecorder", "values", props="C22 C20")
def f(self):
    mod = self.data
    obs = self._aligned_observed
    return np.sum(obs - mod, axis=0) * 100 / np.sum(obs, axis=0)


@spec("recorders.calibration.RMSEStandardDeviationRatioNodeRecorder", "values", props="C22 C20")
def f(self):
    mod = self.data
    obs = self._aligned_observed
    return np.sqrt(np.mean((obs - mod) ** 2, axis=0)) / np.std(obs, axis=0)


@spec("recorders.calibration.NashSutcliffeEfficiencyNodeRecorder", "values", props="C22 C20")
def f(self):
    mod = self.data
    obs = self._aligned_observed
    obs_mean = np.mean(obs, axis=0)
    return 1.0 - np.sum((obs - mod) ** 2, axis=0) / np.sum((obs - obs_mean) ** 2, axis=0)


@spec("recorders.events.Event", "get duration", props="C20 C22")
def f(self):
    td = self.end.datetime - self.start.datetime
    return td.days


@spec("recorders.events.EventRecorder", "setup", props="C02 C20")
def f(self):
    pass


@spec("recorders.events.EventRecorder", "after", props="C20 C22 C02", calls="append get_value")
def f(self):
    ts = self.model.timestepper.current
    from pywr.parameters import Parameter, IndexParameter
    if isinstance(self.threshold, Recorder):
        all_triggered = np.array(self.threshold.values(), dtype=int)
    elif isinstance(self.threshold, IndexParameter):
        all_triggered = self.threshold.get_all_indices()
    else:
        if not isinstance(self.threshold, Parameter):
            raise TypeError('Threshold must be either a Recorder or Parameter instance.')
        all_triggered = np.array(self.threshold.get_all_values(), dtype=int)
    for si in self.model.scenarios.combinations:
        triggered = all_triggered[si.global_id]
        current_event = self._current_events[si.global_id]
        if current_event is not None:
            if triggered:
                if self.tracked_parameter is not None:
                    value = self.tracked_parameter.get_value(si)
                    current_event.values.append(value)
            else:
                current_event.end = ts
                current_event.values = np.array(current_event.values)
                current_length = ts.index - current_event.start.index
                if current_length >= self.minimum_event_length:
                    self.events.append(current_event)
                    current_event = None
                else:
                    current_event = None
        elif triggered:
            current_event = Event(ts, si)
            if self.tracked_parameter is not None:
                value = self.tracked_parameter.get_value(si)
                current_event.values = [value]
        else:
            pass
        self._current_events[si.global_id] = current_event


@spec("recorders.events.EventRecorder", "finish", props="C20 C22", calls="append")
def f(self):
    ts = self.model.timestepper.current
    for si in self.model.scenarios.combinations:
        current_event = self._current_events[si.global_id]
        if current_event is not None:
            current_event.end = ts
            self.events.append(current_event)
            self._current_events[si.global_id] = None


@spec("recorders.events.EventRecorder", "to_dataframe", props="C20 C02", calls="setitem")
def f(self):
    if len(self.events) == 0:
        return pandas.DataFrame(columns=['scenario_id', 'start', 'end'])
    scen_id = np.empty(len(self.events), dtype=int)
    start = np.empty_like(scen_id, dtype=object)
    end = np.empty_like(scen_id, dtype=object)
    values = np.empty_like(scen_id, dtype=float)
    for i, evt in enumerate(self.events):
        scen_id[i] = evt.scenario_index.global_id
        start[i] = evt.start.datetime
        end[i] = evt.end.datetime
        if self.tracked_parameter is not None and self.event_agg_func is not None:
            values[i] = pandas.Series(evt.values).aggregate(self.event_agg_func)
    df_dict = {'scenario_id': scen_id, 'start': start, 'end': end}
    if self.tracked_parameter is not None and self.event_agg_func is not None:
        df_dict['value'] = values
    return pandas.DataFrame(df_dict)


@spec("recorders.events.EventDurationRecorder", "setup", props="C02 C20")
def f(self):
    self._values = np.empty(len(self.model.scenarios.combinations))


@spec("recorders.events.EventDurationRecorder", "finish", props="C20 C22")
def f(self):
    df = self.event_recorder.to_dataframe()
    self._values[...] = np.nan
    if len(df) == 0:
        return
    df['duration'] = df['end'] - df['start']
    df['duration'] = df['duration'].dt.days
    df = df[['scenario_id', 'duration']]
    grouped = df.groupby('scenario_id').agg(self.recorder_agg_func)
    for index, row in grouped.iterrows():
        self._values[index] = row['duration']


@spec("recorders.events.EventStatisticRecorder", "setup", props="C02 C20")
def f(self):
    self._values = np.empty(len(self.model.scenarios.combinations))
    if self.event_recorder.tracked_parameter is None:
        raise ValueError('To calculate event statistics requires the parent `EventRecorder` to have a `tracked_parameter`.')


@spec("recorders.events.EventStatisticRecorder", "finish", props="C20 C22", calls="setitem aggregate")
def f(self):
    events = self.event_recorder.events
    if len(events) == 0:
        return
    scen_id = np.empty(len(events), dtype=int)
    values = np.empty_like(scen_id, dtype=np.float64)
    for i, evt in enumerate(events):
        scen_id[i] = evt.scenario_index.global_id
        values[i] = pandas.Series(evt.values).aggregate(self.event_agg_func)
    df = pandas.DataFrame({'scenario_id': scen_id, 'value': values})
    grouped = df.groupby('scenario_id').agg(self.recorder_agg_func)
    for index, row in grouped.iterrows():
        self._values[index] = row['value']


@spec("recorders.kde.GaussianKDEStorageRecorder", "reset", props="C01 C20")
def f(self):
    super().reset()
    self._probability_of_target_volume = None
    self._pdf = None


@spec("recorders.kde.GaussianKDEStorageRecorder", "finish", props="C20 C22")
def f(self):
    super().finish()
    df = super().to_dataframe()
    if self.resample_func is not None and self.resample_freq is not None:
        df = df.resample(self.resample_freq).agg(self.resample_func)
    x = np.linspace(0.0, 1.0, self.num_pdf)
    p, pdf = self._estimate_pdf_and_target_probability(df.values.flatten(), x)
    self._probability_of_target_volume = p
    self._pdf = pandas.DataFrame(data=pdf, index=x)


@spec("recorders.kde.GaussianKDEStorageRecorder", "values", props="C20 C22")
def f(self):
    return self._pdf.values


@spec("recorders.kde.GaussianKDEStorageRecorder", "to_dataframe", props="C20 C02")
def f(self):
    return self._pdf


@spec("recorders.kde.GaussianKDEStorageRecorder", "aggregated_value", props="C20 C22")
def f(self):
    return self._probability_of_target_volume


@spec("recorders.kde.NormalisedGaussianKDEStorageRecorder", "reset", props="C01 C20")
def f(self):
    super().reset()
    self._probability_of_target_volume = None
    self._pdf = None


@spec("recorders.kde.NormalisedGaussianKDEStorageRecorder", "finish", props="C20 C22")
def f(self):
    super().finish()
    df = super().to_dataframe()
    if self.resample_func is not None and self.resample_freq is not None:
        df = df.resample(self.resample_freq).agg(self.resample_func)
    x = np.linspace(0.0, 1.0, self.num_pdf)
    p, pdf = self._estimate_pdf_and_target_probability(df.values.flatten(), x)
    self._probability_of_target_volume = p
    self._pdf = pandas.DataFrame(data=pdf, index=x)


@spec("recorders.kde.NormalisedGaussianKDEStorageRecorder", "values", props="C20 C22")
def f(self):
    return self._pdf.values


@spec("recorders.kde.NormalisedGaussianKDEStorageRecorder", "to_dataframe", props="C20 C02")
def f(self):
    return self._pdf


@spec("recorders.kde.NormalisedGaussianKDEStorageRecorder", "aggregated_value", props="C20 C22")
def f(self):
    return self._probability_of_target_volume




@spec("recorders.kde.GaussianKDEStorageRecorder", "_estimate_pdf_and_target_probability", props="C22")
def f(self, values, x):
    kernel = stats.gaussian_kde(values)
    p = kernel.integrate_box_1d(0.0, self.target_volume_pc)
    pdf = kernel(x)
    if self.use_reflection:
        kernel_lb = stats.gaussian_kde(-values)
        p += kernel_lb.integrate_box_1d(0.0, self.target_volume_pc)
        pdf += kernel_lb(x)
        kernel_ub = stats.gaussian_kde(2.0 - values)
        p += kernel_ub.integrate_box_1d(0.0, self.target_volume_pc)
        pdf += kernel_ub(x)
    return p, pdf


@spec("recorders.kde.NormalisedGaussianKDEStorageRecorder", "_estimate_pdf_and_target_probability", props="C22")
def f(self, values, x):
    kernel = stats.gaussian_kde(values)
    p = kernel.integrate_box_1d(-1.0, 0.0)
    pdf = kernel(x)
    if self.use_reflection:
        kernel_lb = stats.gaussian_kde(-2.0 - values)
        p += kernel_lb.integrate_box_1d(-1.0, 0.0)
        pdf += kernel_lb(x)
        kernel_ub = stats.gaussian_kde(2.0 - values)
        p += kernel_ub.integrate_box_1d(-1.0, 0.0)
        pdf += kernel_ub(x)
    return p, pdf

# Parameters: values, settings and state.  Interpreted, never executed.


@spec("parameters._activation_functions.BinaryStepParameter", "value", props="C21 C02")
def f(self, ts, scenario_index):
    return self.get_constant_value()


@spec("parameters._activation_functions.RectifierParameter", "value", props="C21 C02")
def f(self, ts, scenario_index):
    return self.get_constant_value()


@spec("parameters._activation_functions.LogisticParameter", "value", props="C21 C02")
def f(self, ts, scenario_index):
    return self.get_constant_value()


@spec("parameters._control_curves.BaseControlCurveParameter", "get control_curves", props="C21")
def f(self):
    return self._control_curves


@spec("parameters._control_curves.BaseControlCurveParameter", "get storage_node", props="C21")
def f(self):
    return self._storage_node


@spec("parameters._control_curves.BaseControlCurveParameter", "set storage_node", props="C21")
def f(self, value):
    self._storage_node = value


@spec("parameters._control_curves.ControlCurveInterpolatedParameter", "get values", props="C21")
def f(self):
    return np.array(self._values)


@spec("parameters._control_curves.ControlCurveInterpolatedParameter", "set values", props="C21")
def f(self, values):
    self._values = np.array(values)


@spec("parameters._control_curves.ControlCurvePiecewiseInterpolatedParameter", "get values", props="C21")
def f(self):
    return np.array(self._values)


@spec("parameters._control_curves.ControlCurvePiecewiseInterpolatedParameter", "set values", props="C21")
def f(self, values):
    nvalues = len(self.control_curves) + 1
    if len(values) != nvalues:
        raise ValueError('Length of values should be two more than the number of control curves ({}).'.format(nvalues))
    if len(values[0]) != 2:
        raise ValueError('The second dimension of values should be of length 2.')
    self._values = np.array(values)


@spec("parameters._control_curves.ControlCurveIndexParameter", "get control_curves", props="C21")
def f(self):
    return self._control_curves


@spec("parameters._control_curves.ControlCurveParameter", "get values", props="C21")
def f(self):
    return np.asarray(self._values)


@spec("parameters._control_curves.ControlCurveParameter", "set values", props="C21")
def f(self, values):
    self._values = np.asarray(values, dtype=np.float64)


@spec("parameters._control_curves.ControlCurveParameter", "get variable_indices", props="C21")
def f(self):
    return np.array(self._variable_indices)


@spec("parameters._control_curves.ControlCurveParameter", "set variable_indices", props="C21")
def f(self, values):
    self._variable_indices = np.array(values, dtype=np.int32)


@spec("parameters._control_curves.WeightedAverageProfileParameter", "reset", props="C01 C21")
def f(self):
    super(WeightedAverageProfileParameter, self).reset()
    total_volume = 0
    total_absolute_profile = np.zeros(366)
    for storage, profile in zip(self.storages, self.profiles):
        max_volume = storage.max_volume
        if isinstance(max_volume, Parameter):
            if not max_volume.is_constant:
                raise ValueError('Storages with max_volume set to non-constant parameters cannot be used in WeightedAverageProfileParameter')
            max_volume = max_volume.get_constant_value()
        total_volume += max_volume
        if profile.is_constant:
            total_absolute_profile += np.full(366, profile.get_constant_value()) * max_volume
        elif isinstance(profile, DailyProfileParameter):
            vals = np.asarray(profile.get_double_variables())
            total_absolute_profile += vals * max_volume
        else:
            if not isinstance(profile, MonthlyProfileParameter):
                raise ValueError('Control curve should be a ContantParameter, MonthlyProfileParameter,                                   or DailyProfileParameter')
            vals = np.asarray(profile.get_daily_values())
            total_absolute_profile += vals * max_volume
    self.daily_values = total_absolute_profile / total_volume


@spec("parameters._control_curves.WeightedAverageProfileParameter", "get_daily_values", props="C21 C02")
def f(self):
    return np.asarray(self.daily_values).copy()


@spec("parameters._hydropower.HydropowerTargetParameter", "get water_elevation_parameter", props="C21")
def f(self):
    return self._water_elevation_parameter


@spec("parameters._hydropower.HydropowerTargetParameter", "get target", props="C21")
def f(self):
    return self._target


@spec("parameters._hydropower.HydropowerTargetParameter", "get max_flow", props="C21")
def f(self):
    return self._max_flow


@spec("parameters._hydropower.HydropowerTargetParameter", "get min_flow", props="C21")
def f(self):
    return self._min_flow


@spec("parameters._parameters.Parameter", "setup", props="C02 C21")
def f(self):
    super(Parameter, self).setup()
    if self.model.scenarios.combinations:
        num_comb = len(self.model.scenarios.combinations)
    else:
        num_comb = 1
    self._Parameter__values = np.empty([num_comb], np.float64)


@spec("parameters._parameters.Parameter", "set_double_variables", props="C14")
def f(self, values):
    raise NotImplementedError()


@spec("parameters._parameters.Parameter", "get_double_variables", props="C14")
def f(self):
    raise NotImplementedError()


@spec("parameters._parameters.Parameter", "get_double_lower_bounds", props="C14")
def f(self):
    raise NotImplementedError()


@spec("parameters._parameters.Parameter", "get_double_upper_bounds", props="C14")
def f(self):
    raise NotImplementedError()


@spec("parameters._parameters.Parameter", "set_integer_variables", props="C14")
def f(self, values):
    raise NotImplementedError()


@spec("parameters._parameters.Parameter", "get_integer_variables", props="C14")
def f(self):
    raise NotImplementedError()


@spec("parameters._parameters.Parameter", "get_integer_lower_bounds", props="C14")
def f(self):
    raise NotImplementedError()


@spec("parameters._parameters.Parameter", "get_integer_upper_bounds", props="C14")
def f(self):
    raise NotImplementedError()


@spec("parameters._parameters.Parameter", "get size", props="C21")
def f(self):
    warnings.warn('Use of the `size` property on Parameters has been deprecated.Please use either `double_size` or `integer_size` instead.', DeprecationWarning)
    return self.double_size


@spec("parameters._parameters.Parameter", "set size", props="C21")
def f(self, value):
    warnings.warn('Use of the `size` property on Parameters has been deprecated.Please use either `double_size` or `integer_size` instead.', DeprecationWarning)
    self.double_size = value


@spec("parameters._parameters.ConstantParameter", "calc_values", props="C21 C02")
def f(self, timestep):
    self._Parameter__values[...] = self.get_constant_value()


@spec("parameters._parameters.ConstantParameter", "value", props="C21 C02")
def f(self, ts, scenario_index):
    return self.get_constant_value()


@spec("parameters._parameters.ConstantParameter", "get_double_variables", props="C14")
def f(self):
    return np.array([self._value], dtype=np.float64)


@spec("parameters._parameters.DataFrameParameter", "setup", props="C02 C21")
def f(self):
    super(DataFrameParameter, self).setup()
    dataframe_resampled = align_and_resample_dataframe(self.dataframe, self.model.timestepper.datetime_index)
    if dataframe_resampled.ndim == 1:
        dataframe_resampled = pandas.DataFrame(dataframe_resampled)
    if len(dataframe_resampled) != len(self.model.timestepper):
        raise ValueError('Aligning DataFrame failed with a different length compared with model timesteps.')
    if dataframe_resampled.ndim == 2 and dataframe_resampled.shape[1] > 1:
        if self.scenario is None:
            raise ValueError('Scenario must be given for a DataFrame input with multiple columns.')
        if self.scenario.size != dataframe_resampled.shape[1]:
            raise ValueError('Scenario size ({}) is different to the number of columns ({}) in the DataFrame input.'.format(self.scenario.size, dataframe_resampled.shape[1]))
    if self.scenario is not None:
        self._scenario_index = self.model.scenarios.get_scenario_index(self.scenario)
        scenario_indices = None
        self._scenario_ids = np.ones(self.scenario.size, dtype=np.int32) * self.scenario.size
        if self.model.scenarios.user_combinations:
            scenario_indices = set()
            for user_combination in self.model.scenarios.user_combinations:
                scenario_indices.add(user_combination[self._scenario_index])
            scenario_indices = sorted(list(scenario_indices))
        elif self.scenario.slice:
            scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
        else:
            self._scenario_ids = None
        if scenario_indices is not None:
            for n, i in enumerate(scenario_indices):
                self._scenario_ids[i] = n
            dataframe_resampled = dataframe_resampled.iloc[:, scenario_indices]
    self._values = dataframe_resampled.values.astype(np.float64)


@spec("parameters._parameters.TablesArrayParameter", "setup", props="C02 C21")
def f(self):
    super(TablesArrayParameter, self).setup()
    self._scenario_index = -1
    if self.scenario is not None:
        self._scenario_index = self.model.scenarios.get_scenario_index(self.scenario)
    self.h5store = H5Store(self.h5file, None, 'r')
    node = self.h5store.file.get_node(self.where, self.node)
    if not node.dtype in (np.float32, np.float64, np.int8, np.int16, np.int32):
        raise TypeError('Unexpected dtype in array: {}'.format(node.dtype))
    if self.scenario is not None:
        if node.shape[1] < self.scenario.size:
            raise IndexError('The length of the second dimension ({:d}) of the tables node ({}:{}) should be the same as the size of the specified Scenario ({:d}).'.format(node.shape[1], node._v_file.filename, node._v_pathname, self.scenario.size))
        if node.shape[1] > self.scenario.size:
            warnings.warn('The length of the second dimension ({:d}) of the tables node ({}:{}) is greater than the size of the specified Scenario ({:d}). Not all data is being used!'.format(node.shape[1], node._v_file.filename, node._v_pathname, self.scenario.size), UnutilisedDataWarning)
    if node.shape[0] < len(self.model.timestepper):
        raise IndexError('The length of the first dimension ({:d}) of the tables node ({}:{}) should be equal to or greater than the number of timesteps.'.format(node.shape[0], node._v_file.filename, node._v_pathname, len(self.model.timestepper)))
    if node.shape[0] > len(self.model.timestepper):
        warnings.warn('The length of the first dimension ({:d}) of the tables node ({}:{}) is greater than the number of timesteps. Not all data is being used!'.format(node.shape[0], node._v_file.filename, node._v_pathname, len(self.model.timestepper)), UnutilisedDataWarning)
    self._values_dbl = None
    self._values_int = None
    if self.scenario:
        scenario_indices = None
        self._scenario_ids = np.ones(self.scenario.size, dtype=np.int32) * self.scenario.size
        if self.model.scenarios.user_combinations:
            scenario_indices = set()
            for user_combination in self.model.scenarios.user_combinations:
                scenario_indices.add(user_combination[self._scenario_index])
            scenario_indices = sorted(list(scenario_indices))
        elif self.scenario.slice:
            scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
        else:
            self._scenario_ids = None
        if scenario_indices is not None:
            for n, i in enumerate(scenario_indices):
                self._scenario_ids[i] = n
            if node.dtype in (np.float32, np.float64):
                self._values_dbl = node[:len(self.model.timestepper), scenario_indices].astype(np.float64)
            else:
                self._values_int = node[:len(self.model.timestepper), scenario_indices].astype(np.int32)
    if node.dtype in (np.float32, np.float64):
        if self._values_dbl is None:
            self._values_dbl = node.read().astype(np.float64)
        if np.min(self._values_dbl) < 0.0:
            warnings.warn('Negative values in input file "{}" from node: {}'.format(self.h5file, self.node))
        if not np.all(np.isfinite(self._values_dbl)):
            raise ValueError('Non-finite values in input file "{}" from node: {}'.format(self.h5file, self.node))
    elif self._values_int is None:
        self._values_int = node.read().astype(np.int32)


@spec("parameters._parameters.DailyProfileParameter", "get_double_variables", props="C14")
def f(self):
    return np.array(self._values).copy()


@spec("parameters._parameters.MonthlyProfileParameter", "reset", props="C01 C21")
def f(self):
    Parameter.reset(self)
    if self.interp_day is not None:
        self._interpolate()


@spec("parameters._parameters.MonthlyProfileParameter", "_interpolate", props="C21 C02")
def f(self):
    self._interp_values = np.zeros(366)
    i = 0
    if self.interp_day == 'first':
        x = [1]
        y = []
        for mth in range(1, 13):
            x.append(x[-1] + calendar.monthrange(2015, mth)[1])
            y.append(self._values[mth - 1])
        y.append(self._values[0])
    else:
        if not self.interp_day == 'last':
            raise ValueError(f'Interpolation day "{self.interp_day}" not supported.')
        x = [0]
        y = [self._values[11]]
        for mth in range(1, 13):
            x.append(x[-1] + calendar.monthrange(2015, mth)[1])
            y.append(self._values[mth - 1])
    values = np.interp(np.arange(365) + 1, x, y)
    for i in range(365):
        if i < 58:
            self._interp_values[i] = values[i]
        elif i == 58:
            self._interp_values[i] = values[i]
            self._interp_values[i + 1] = values[i]
        elif i > 58:
            self._interp_values[i + 1] = values[i]


@spec("parameters._parameters.MonthlyProfileParameter", "set_double_variables", props="C14")
def f(self, values):
    self._values[...] = values


@spec("parameters._parameters.MonthlyProfileParameter", "get_daily_values", props="C21 C02")
def f(self):
    if self.interp_day is not None:
        return np.array(self._interp_values).copy()
    daily_values = []
    for mth in range(0, 12):
        for i in range(0, calendar.monthrange(2016, mth + 1)[1]):
            daily_values.append(self._values[mth])
    return np.asarray(daily_values)


@spec("parameters._parameters.MonthlyProfileParameter", "get_double_variables", props="C14")
def f(self):
    return np.array(self._values).copy()


@spec("parameters._parameters.RbfProfileParameter", "reset", props="C01 C21")
def f(self):
    Parameter.reset(self)
    self._interpolate()


@spec("parameters._parameters.RbfProfileParameter", "_interpolate", props="C21 C02")
def f(self):
    days_of_year = list(self._days_of_year)
    days_of_year = [days_of_year[-1] - 365] + list(days_of_year) + [366, 366 + days_of_year[1] - 1]
    y = list(self._values)
    y = [y[-1]] + y + [y[0], y[1]]
    rbfi = Rbf(days_of_year, y, **self.rbf_kwargs)
    values = rbfi(np.arange(365) + 1)
    self._interp_values = np.zeros(366)
    for i in range(365):
        v = max(min(values[i], self.max_value), self.min_value)
        if i < 58:
            self._interp_values[i] = v
        elif i == 58:
            self._interp_values[i] = v
            self._interp_values[i + 1] = v
        elif i > 58:
            self._interp_values[i + 1] = v


@spec("parameters._parameters.RbfProfileParameter", "set_double_variables", props="C14")
def f(self, values):
    self._values[...] = values


@spec("parameters._parameters.RbfProfileParameter", "get_double_variables", props="C14")
def f(self):
    return np.array(self._values).copy()


@spec("parameters._parameters.RbfProfileParameter", "get_double_lower_bounds", props="C14")
def f(self):
    return self._lower_bounds


@spec("parameters._parameters.RbfProfileParameter", "get_double_upper_bounds", props="C14")
def f(self):
    return self._upper_bounds


@spec("parameters._parameters.RbfProfileParameter", "set_integer_variables", props="C14")
def f(self, values):
    self.days_of_year = [1] + np.array(values).tolist()


@spec("parameters._parameters.RbfProfileParameter", "get_integer_variables", props="C14")
def f(self):
    return np.array(self.days_of_year[1:], dtype=np.int32)


@spec("parameters._parameters.RbfProfileParameter", "get_integer_lower_bounds", props="C14")
def f(self):
    return self._doy_lower_bounds


@spec("parameters._parameters.RbfProfileParameter", "get_integer_upper_bounds", props="C14")
def f(self):
    return self._doy_upper_bounds


@spec("parameters._parameters.RbfProfileParameter", "get days_of_year", props="C21")
def f(self):
    return np.array(self._days_of_year)


@spec("parameters._parameters.RbfProfileParameter", "set days_of_year", props="C21")
def f(self, values):
    values = np.array(values, dtype=np.int32)
    if values[0] != 1:
        raise ValueError('The first day of the years must be 1.')
    if len(values) < 3:
        raise ValueError('At least 3 days of the year are required.')
    if np.any(np.diff(values) <= 0):
        raise ValueError('The days of the year should be strictly monotonically increasing.')
    if np.any((0 > values) | (values > 365)):
        raise ValueError('Days of the years should be between 1 and 365 inclusive.')
    self._days_of_year = values


@spec("parameters._parameters.IndexParameter", "setup", props="C02 C21")
def f(self):
    super(IndexParameter, self).setup()
    if self.model.scenarios.combinations:
        num_comb = len(self.model.scenarios.combinations)
    else:
        num_comb = 1
    self._IndexParameter__indices = np.empty([num_comb], np.int32)


@spec("parameters._parameters.AnnualHarmonicSeriesParameter", "reset", props="C01 C21")
def f(self):
    Parameter.reset(self)
    self._value_cache = 0.0
    self._ts_index_cache = -1


@spec("parameters._parameters.AnnualHarmonicSeriesParameter", "get amplitudes", props="C21")
def f(self):
    return np.asarray(self._amplitudes)


@spec("parameters._parameters.AnnualHarmonicSeriesParameter", "get phases", props="C21")
def f(self):
    return np.asarray(self._phases)


@spec("parameters._parameters.AggregatedParameter", "setup", props="C02 C21")
def f(self):
    super(AggregatedParameter, self).setup()
    assert len(self.parameters)


@spec("parameters._parameters.AggregatedParameter", "get agg_func", props="C13 C21")
def f(self):
    if self._agg_func == AggFuncs.CUSTOM:
        return self._agg_user_func
    return _agg_func_lookup_reverse[self._agg_func]


@spec("parameters._parameters.AggregatedParameter", "set agg_func", props="C13 C21")
def f(self, agg_func):
    self._agg_user_func = None
    if isinstance(agg_func, str):
        agg_func = _agg_func_lookup[agg_func.lower()]
    else:
        if not callable(agg_func):
            raise ValueError('Unrecognised aggregation function: "{}".'.format(agg_func))
        self._agg_user_func = agg_func
        agg_func = AggFuncs.CUSTOM
    self._agg_func = agg_func


@spec("parameters._parameters.AggregatedIndexParameter", "setup", props="C02 C21")
def f(self):
    super(AggregatedIndexParameter, self).setup()
    assert len(self.parameters)
    assert all([isinstance(parameter, IndexParameter) for parameter in self.parameters])


@spec("parameters._parameters.AggregatedIndexParameter", "get agg_func", props="C13 C21")
def f(self):
    if self._agg_func == AggFuncs.CUSTOM:
        return self._agg_user_func
    return _agg_func_lookup_reverse[self._agg_func]


@spec("parameters._parameters.AggregatedIndexParameter", "set agg_func", props="C13 C21")
def f(self, agg_func):
    self._agg_user_func = None
    if isinstance(agg_func, str):
        agg_func = _agg_func_lookup[agg_func.lower()]
    else:
        if not callable(agg_func):
            raise ValueError('Unrecognised aggregation function: "{}".'.format(agg_func))
        self._agg_user_func = agg_func
        agg_func = AggFuncs.CUSTOM
    self._agg_func = agg_func


@spec("parameters._parameters.DivisionParameter", "get numerator", props="C21")
def f(self):
    return self._numerator


@spec("parameters._parameters.DivisionParameter", "get denominator", props="C21")
def f(self):
    return self._denominator


@spec("parameters._parameters.DeficitParameter", "calc_values", props="C21 C02")
def f(self, timestep):
    pass


@spec("parameters._parameters.FlowParameter", "setup", props="C02 C21")
def f(self):
    super(FlowParameter, self).setup()
    if self.model.scenarios.combinations:
        num_comb = len(self.model.scenarios.combinations)
    else:
        num_comb = 1
    self._FlowParameter__next_values = np.empty([num_comb], np.float64)


@spec("parameters._parameters.PiecewiseIntegralParameter", "setup", props="C02 C21")
def f(self):
    super(PiecewiseIntegralParameter, self).setup()
    if len(self.x) != len(self.y):
        raise ValueError('The length of `x` and `y` should be the same.')
    if np.any(np.diff(self.x) < 0):
        raise ValueError('The array `x` should be monotonically increasing.')


@spec("parameters._parameters.PiecewiseIntegralParameter", "value", props="C21 C02")
def f(self, timestep, scenario_index):
    integral = 0.0
    x = self.parameter.get_value(scenario_index)
    prev_x = 0
    for i in range(self.x.shape[0]):
        if x < self.x[i]:
            dx = x - prev_x
        else:
            dx = self.x[i] - prev_x
        if dx < 0.0:
            break
        integral += dx * self.y[i]
        prev_x = self.x[i]
    return integral


@spec("parameters._parameters.RollingMeanFlowNodeParameter", "reset", props="C01 C21")
def f(self):
    super(RollingMeanFlowNodeParameter, self).reset()
    self.position = 0
    self._memory[:] = 0.0


@spec("parameters._thresholds.AbstractThresholdParameter", "setup", props="C02 C21")
def f(self):
    super(AbstractThresholdParameter, self).setup()
    ncomb = len(self.model.scenarios.combinations)
    self._triggered = np.empty(ncomb, dtype=np.uint8)


@spec("parameters._thresholds.AbstractThresholdParameter", "get threshold", props="C21")
def f(self):
    if self._threshold_parameter is not None:
        return self._threshold_parameter
    return self._threshold


@spec("parameters._thresholds.NodeThresholdParameter", "index", props="C21 C02")
def f(self, timestep, scenario_index):
    if timestep.index == 0:
        return 0
    return AbstractThresholdParameter.index(self, timestep, scenario_index)


@spec("parameters._thresholds.RecorderThresholdParameter", "index", props="C21 C02")
def f(self, timestep, scenario_index):
    index = timestep.index
    if index == 0:
        ind = self.initial_value
    else:
        ind = super(RecorderThresholdParameter, self).index(timestep, scenario_index)
    return ind


@spec("parameters.licenses.License", "__new__", props="C19")
def f(cls, *args, **kwargs):
    if cls is License:
        raise TypeError('License cannot be instantiated directly')
    return BaseParameter.__new__(cls)


@spec("parameters.licenses.License", "resource_state", props="C19")
def f(self, timestep):
    raise NotImplementedError()


@spec("parameters.licenses.TimestepLicense", "resource_state", props="C19")
def f(self, timestep):
    return None


@spec("parameters.licenses.StorageLicense", "setup", props="C19")
def f(self):
    super(StorageLicense, self).setup()
    self._remaining = np.ones(len(self.model.scenarios.combinations)) * self._amount


@spec("parameters.parameters.AbstractInterpolatedParameter", "setup", props="C02 C21")
def f(self):
    super(AbstractInterpolatedParameter, self).setup()
    self.interp = interp1d(self.x, self.y, **self.interp_kwargs)


@spec("parameters.parameters.AbstractInterpolatedParameter", "get interp_kwargs", props="C21")
def f(self):
    return self._interp_kwargs


@spec("parameters.parameters.AbstractInterpolatedParameter", "set interp_kwargs", props="C21")
def f(self, data):
    if 'fill_value' in data and isinstance(data['fill_value'], list):
        data['fill_value'] = tuple(data['fill_value'])
    self._interp_kwargs = data


@spec("parameters.parameters.InterpolatedQuadratureParameter", "value", props="C21 C02")
def f(self, ts, scenario_index):
    a = 0
    if self._lower_parameter is not None:
        a = self._lower_parameter.get_value(scenario_index)
    b = self._value_to_interpolate(ts, scenario_index)
    cost, err = quad(self.interp, a, b)
    return cost



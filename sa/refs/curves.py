# Control curves, thresholds, polynomials, interpolation, licences and couplings between models.


@spec("parameters._control_curves:", "_interpolate", props="C03 C21", why="linear between the two points, held outside")
def f(current_position, lower_bound, upper_bound, lower_value, upper_value):
    if current_position < lower_bound:
        return lower_value
    if current_position > upper_bound:
        return upper_value
    if upper_bound == lower_bound:
        return lower_value
    return lower_value + (upper_value - lower_value) * (current_position - lower_bound) / (upper_bound - lower_bound)


@spec("parameters._control_curves.ControlCurveInterpolatedParameter", "value", props="C03 C02 C21", keep="get_value get_current_pc",
      why="interpolates the proportional volume between the curves above and below")
def f(self, ts, scenario_index):
    pc = self._storage_node.get_current_pc(scenario_index)
    if self.parameters is not None:
        v = np.empty(len(self.parameters))
        for k, p in enumerate(self.parameters):
            v[k] = p.get_value(scenario_index)
    else:
        v = self._values
    above = 1.0
    for j, curve in enumerate(self._control_curves):
        cc = curve.get_value(scenario_index)
        if pc >= cc:
            try:
                w = (pc - cc) / (above - cc)
            except ZeroDivisionError:
                return v[j + 1]
            return v[j] * w + v[j + 1] * (1.0 - w)
        above = cc
    try:
        w = pc / above
    except ZeroDivisionError:
        return v[-2]
    return v[-2] * w + v[-1] * (1.0 - w)


@spec("parameters._control_curves.ControlCurvePiecewiseInterpolatedParameter", "value", props="C03 C02 C21",
      keep="get_value get_current_pc _interpolate", why="interpolates within the pair of the band the proportional volume is in")
def f(self, ts, scenario_index):
    pc = self._storage_node.get_current_pc(scenario_index)
    above = self.maximum
    for j, curve in enumerate(self._control_curves):
        cc = curve.get_value(scenario_index)
        if pc >= cc:
            return _interpolate(pc, cc, above, self._values[j, 1], self._values[j, 0])
        above = cc
    n = len(self._control_curves)
    return _interpolate(pc, self.minimum, above, self._values[n, 1], self._values[n, 0])


@spec("parameters._control_curves.ControlCurveIndexParameter", "index", props="C03 C02 C21", keep="get_value get_current_pc",
      why="the first curve the proportional volume is on or above, the number of curves when below all")
def f(self, timestep, scenario_index):
    pc = self.storage_node.get_current_pc(scenario_index)
    for j, curve in enumerate(self.control_curves):
        if pc >= curve.get_value(scenario_index):
            return j
    return len(self.control_curves)


@spec("parameters._control_curves.ControlCurveParameter", "value", props="C03 C02 C21", keep="get_value get_current_pc",
      cases=[{"self._storage_node": "inst:_core.AbstractStorage"}],
      why="the value of the first curve the proportional volume is on or above, the last value when below all")
def f(self, ts, scenario_index):
    pc = self.storage_node.get_current_pc(scenario_index)
    for j, curve in enumerate(self.control_curves):
        if pc >= curve.get_value(scenario_index):
            if self.parameters is not None:
                return self.parameters[j].get_value(scenario_index)
            return self._values[j]
    if self.parameters is not None:
        return self.parameters[-1].get_value(scenario_index)
    return self._values[-1]


@spec("parameters._control_curves.ControlCurveParameter", "set_double_variables", props="C14", ret=False, raises=True, keep="variable_indices",
      why="each variable goes to the level it stands for")
def f(self, values):
    if len(values) != len(self.variable_indices):
        raise ValueError()
    if self.double_size != 0:
        for i, v in zip(self.variable_indices, values):
            self._values[i] = v


@spec("parameters._control_curves.ControlCurveParameter", "get_double_variables", props="C14", keep="variable_indices",
      why="the levels that are variables, in their order")
def f(self):
    a = np.empty((len(self.variable_indices),))
    for i, j in enumerate(self.variable_indices):
        a[i] = self._values[j]
    return a


@spec("parameters._control_curves.ControlCurveParameter", "get_double_lower_bounds", props="C14")
def f(self):
    return self._lower_bounds


@spec("parameters._control_curves.ControlCurveParameter", "get_double_upper_bounds", props="C14")
def f(self):
    return self._upper_bounds


@spec("parameters._control_curves.WeightedAverageProfileParameter", "value", props="C18 C21", why="the value of the day of a leap year")
def f(self, ts, scenario_index):
    return self.daily_values[ts.dayofyear_index]


# thresholds

@spec("parameters._thresholds.AbstractThresholdParameter", "index", props="C13 C02 C01 C21", keep="get_value _value_to_compare",
      why="the comparison that was named; a ratchet stays triggered")
def f(self, timestep, scenario_index):
    k = scenario_index.global_id
    if self.ratchet and self._triggered[k]:
        return self._triggered[k]
    x = self._value_to_compare(timestep, scenario_index)
    if self._threshold_parameter is not None:
        t = self._threshold_parameter.get_value(scenario_index)
    else:
        t = self._threshold
    if self.predicate == Predicates.LT:
        r = x < t
    elif self.predicate == Predicates.GT:
        r = x > t
    elif self.predicate == Predicates.LE:
        r = x <= t
    elif self.predicate == Predicates.GE:
        r = x >= t
    else:
        r = x == t
    self._triggered[k] = max(r, self._triggered[k])
    return r


@spec("parameters._thresholds.AbstractThresholdParameter", "value", props="C13 C02 C21", keep="get_index", why="the value the index points at")
def f(self, timestep, scenario_index):
    if self.values is None:
        return np.nan
    return self.values[self.get_index(scenario_index)]


@spec("parameters._thresholds.AbstractThresholdParameter", "reset", props="C01", cells="self._triggered", ret=False, why="not triggered at the start")
def f(self):
    self._triggered[...] = 0


@spec("parameters._thresholds.StorageThresholdParameter", "_value_to_compare", props="C03 C02 C21", why="the volume")
def f(self, timestep, scenario_index):
    return self.storage._volume[scenario_index.global_id]


@spec("parameters._thresholds.NodeThresholdParameter", "_value_to_compare", props="C06 C02 C21", why="the previous flow")
def f(self, timestep, scenario_index):
    return self.node._prev_flow[scenario_index.global_id]


@spec("parameters._thresholds.ParameterThresholdParameter", "_value_to_compare", props="C02 C21", keep="get_value")
def f(self, timestep, scenario_index):
    return self.param.get_value(scenario_index)


@spec("parameters._thresholds.RecorderThresholdParameter", "_value_to_compare", props="C02 C06 C21", why="what was recorded in the step before")
def f(self, timestep, scenario_index):
    return self.recorder.data[timestep.index - 1, scenario_index.global_id]


@spec("parameters._thresholds.CurrentYearThresholdParameter", "_value_to_compare", props="C18 C21")
def f(self, timestep, scenario_index):
    return float(timestep.year)


@spec("parameters._thresholds.CurrentOrdinalDayThresholdParameter", "_value_to_compare", props="C18 C21", keep="toordinal datetime")
def f(self, timestep, scenario_index):
    return float(timestep.datetime.toordinal())


@spec("parameters._thresholds.MultipleThresholdIndexParameter", "index", props="C06 C02 C21", keep="get_value",
      why="the first threshold the previous flow reaches, the number of thresholds when none")
def f(self, timestep, scenario_index):
    x = self.node._prev_flow[scenario_index.global_id]
    for j, t in enumerate(self.thresholds):
        if x >= t.get_value(scenario_index):
            return j
    return len(self.thresholds)


@spec("parameters._thresholds.MultipleThresholdParameterIndexParameter", "index", props="C02 C13 C21", keep="get_value",
      why="the first threshold the value reaches, the number of thresholds when none")
def f(self, timestep, scenario_index):
    x = self.parameter.get_value(scenario_index)
    for j, t in enumerate(self.thresholds):
        if x >= t.get_value(scenario_index):
            return j
    return len(self.thresholds)


# polynomials

@spec("parameters._polynomial.Polynomial1DParameter", "value", props="C03 C02 C21", keep="get_current_pc",
      cases=[{"self._other_node": "inst:_core.AbstractNode"}],
      why="the polynomial of the scaled parameter value, volume, proportional volume or flow")
def f(self, ts, scenario_index):
    k = scenario_index.global_id
    if self._parameter is not None:
        x = self._parameter._Parameter__values[k]
    elif self._storage_node is not None:
        if self.use_proportional_volume:
            x = self._storage_node.get_current_pc(scenario_index)
        else:
            x = self._storage_node._volume[k]
    else:
        x = self._other_node._flow[k]
    x = x * self.scale + self.offset
    y = 0.0
    for i in range(self.coefficients.shape[0]):
        y = y + self.coefficients[i] * x ** i
    return y


@spec("parameters._polynomial.Polynomial2DStorageParameter", "value", props="C03 C02 C21", keep="get_current_pc",
      why="the polynomial of the scaled volume or proportional volume and the scaled parameter value")
def f(self, ts, scenario_index):
    k = scenario_index.global_id
    if self.use_proportional_volume:
        x = self._storage_node.get_current_pc(scenario_index)
    else:
        x = self._storage_node._volume[k]
    y = self._parameter._Parameter__values[k]
    x = x * self.storage_scale + self.storage_offset
    y = y * self.parameter_scale + self.parameter_offset
    z = 0.0
    for i in range(self.coefficients.shape[0]):
        for j in range(self.coefficients.shape[1]):
            z = z + self.coefficients[i, j] * x ** i * y ** j
    return z


# activation functions

@spec("parameters._activation_functions.BinaryStepParameter", "get_constant_value", props="C14 C21")
def f(self):
    if self._value <= 0.0:
        return 0.0
    return self.output


@spec("parameters._activation_functions.RectifierParameter", "get_constant_value", props="C14 C21")
def f(self):
    if self._value <= 0.0:
        return 0.0
    return self.min_output + (self.max_output - self.min_output) * self._value / self._upper_bounds


@spec("parameters._activation_functions.LogisticParameter", "get_constant_value", props="C14 C21")
def f(self):
    return self.max_output / (1 + np.exp(-self.growth_rate * self._value))


@spec("parameters._activation_functions.BinaryStepParameter parameters._activation_functions.RectifierParameter "
      "parameters._activation_functions.LogisticParameter", "set_double_variables", props="C14", ret=False)
def f(self, values):
    self._value = values[0]


@spec("parameters._activation_functions.BinaryStepParameter parameters._activation_functions.RectifierParameter "
      "parameters._activation_functions.LogisticParameter", "get_double_variables", props="C14")
def f(self):
    return np.array([self._value])


@spec("parameters._activation_functions.BinaryStepParameter parameters._activation_functions.RectifierParameter "
      "parameters._activation_functions.LogisticParameter", "get_double_lower_bounds", props="C14")
def f(self):
    return np.ones(self.double_size) * self._lower_bounds


@spec("parameters._activation_functions.BinaryStepParameter parameters._activation_functions.RectifierParameter "
      "parameters._activation_functions.LogisticParameter", "get_double_upper_bounds", props="C14")
def f(self):
    return np.ones(self.double_size) * self._upper_bounds


# hydropower

@spec("parameters._hydropower:", "inverse_hydropower_calculation", props="C03 C21", why="flow that yields the power at this head; no flow does at zero head")
def f(power, water_elevation, turbine_elevation, efficiency, flow_unit_conversion=1.0, energy_unit_conversion=1e-6, density=1000.0):
    head = max(water_elevation - turbine_elevation, 0.0)
    try:
        q = power / (energy_unit_conversion * density * 9.81 * head * efficiency * flow_unit_conversion)
    except ZeroDivisionError:
        q = float("inf")
    return q


@spec("parameters._hydropower.HydropowerTargetParameter", "value", props="C03 C02 C21", keep="get_value inverse_hydropower_calculation",
      raises=False, why="the flow for the target at the scenario's head, held within the limits")
def f(self, ts, scenario_index):
    power = self._target.get_value(scenario_index)
    if self._water_elevation_parameter is not None:
        head = self._water_elevation_parameter.get_value(scenario_index)
        if self.turbine_elevation is not None:
            head = head - self.turbine_elevation
    elif self.turbine_elevation is not None:
        head = self.turbine_elevation
    else:
        raise ValueError()
    head = max(head, 0.0)
    if head < self.min_head:
        return 0.0
    q = inverse_hydropower_calculation(power, head, 0.0, self.efficiency, density=self.density,
                                       flow_unit_conversion=self.flow_unit_conversion, energy_unit_conversion=self.energy_unit_conversion)
    if self._max_flow is not None:
        q = min(self._max_flow.get_value(scenario_index), q)
    if self._min_flow is not None:
        q = max(self._min_flow.get_value(scenario_index), q)
    return q


# licences

@spec("parameters.licenses.TimestepLicense", "value", props="C19 C21")
def f(self, timestep, scenario_index):
    return self._amount


@spec("parameters.licenses.StorageLicense", "value", props="C19 C02 C21", why="what is left in this scenario")
def f(self, timestep, scenario_index):
    return self._remaining[scenario_index.global_id]


@spec("parameters.licenses.StorageLicense", "after", props="C19 C03 C02 C21", keep="flow current", why="falls by flow times days, not below zero")
def f(self):
    self._remaining = self._remaining - self._node.flow * self.model.timestepper.current.days
    self._remaining[self._remaining < 0] = 0.0


@spec("parameters.licenses.StorageLicense", "reset", props="C19 C01", why="the full amount")
def f(self):
    self._remaining[...] = self._amount


@spec("parameters.licenses.AnnualLicense", "value", props="C18 C19 C03 C02 C21", why="what is left, spread over the days left in the year")
def f(self, timestep, scenario_index):
    days = 365 + int(calendar.isleap(timestep.year))
    if timestep.dayofyear == days:
        return self._remaining[scenario_index.global_id]
    return self._remaining[scenario_index.global_id] / (days - timestep.dayofyear + 1)


@spec("parameters.licenses.AnnualLicense", "before", props="C19 C18 C03 C21", keep="prev_flow current",
      why="a new year starts with the full amount less what the step across the year's end used in it")
def f(self):
    ts = self.model.timestepper.current
    if self._prev_year != ts.year:
        self._remaining[...] = self._amount
        self._remaining[...] = self._remaining[...] - (ts.dayofyear - 1) * self._node.prev_flow
        self._prev_year = ts.year


@spec("parameters.licenses.AnnualExponentialLicense", "value", props="C19 C18 C02 C21")
def f(self, timestep, scenario_index):
    days = 365 + int(calendar.isleap(timestep.year))
    if timestep.dayofyear == days:
        r = self._remaining[scenario_index.global_id]
    else:
        r = self._remaining[scenario_index.global_id] / (days - timestep.dayofyear + 1)
    return self._max_value * np.exp(-(r / (self._amount / days)) / self._k)


@spec("parameters.licenses.AnnualHyperbolaLicense", "value", props="C19 C18 C02 C21")
def f(self, timestep, scenario_index):
    days = 365 + int(calendar.isleap(timestep.year))
    if timestep.dayofyear == days:
        r = self._remaining[scenario_index.global_id]
    else:
        r = self._remaining[scenario_index.global_id] / (days - timestep.dayofyear + 1)
    x = r / (self._amount / days)
    try:
        return self._value / x
    except ZeroDivisionError:
        return inf


# couplings and wrappers

@spec("parameters.multi_model_parameters.OtherModelParameterValueParameter", "value", props="C02 C21", keep="get_value")
def f(self, ts, scenario_index):
    return self._other_model_parameter.get_value(scenario_index)


@spec("parameters.multi_model_parameters.OtherModelIndexParameterValueIndexParameter", "index", props="C02 C21", keep="get_index")
def f(self, ts, scenario_index):
    return self._other_model_parameter.get_index(scenario_index)


@spec("parameters.multi_model_parameters.OtherModelNodeFlowParameter", "value", props="C02 C03 C21", keep="flow")
def f(self, ts, scenario_index):
    return self._other_model_node.flow[scenario_index.global_id]


@spec("parameters.multi_model_parameters.OtherModelNodeStorageParameter", "value", props="C02 C03 C21", keep="volume")
def f(self, ts, scenario_index):
    return self._other_model_node.volume[scenario_index.global_id]


@spec("parameters.multi_model_parameters.OtherModelParameterValueParameter parameters.multi_model_parameters.OtherModelIndexParameterValueIndexParameter",
      "setup", props="C11", ret=False, cells="self._other_model self._other_model_parameter", keep="models parameters")
def f(self):
    self._other_model = self.model.parent.models[self.other_model]
    self._other_model_parameter = self._other_model.parameters[self.parameter]


@spec("parameters.multi_model_parameters.OtherModelNodeFlowParameter parameters.multi_model_parameters.OtherModelNodeStorageParameter",
      "setup", props="C11", ret=False, cells="self._other_model self._other_model_node", keep="models nodes")
def f(self):
    self._other_model = self.model.parent.models[self.other_model]
    self._other_model_node = self._other_model.nodes[self.node]


@spec("parameters.parameters.ScaledProfileParameter", "value", props="C02 C21", keep="get_value")
def f(self, ts, si):
    return self.scale * self.profile.get_value(si)


@spec("parameters.parameters.InterpolatedParameter", "_value_to_interpolate", props="C02 C21", keep="get_value")
def f(self, ts, scenario_index):
    return self._parameter.get_value(scenario_index)


@spec("parameters.parameters.InterpolatedVolumeParameter", "_value_to_interpolate", props="C02 C03 C21", keep="volume")
def f(self, ts, scenario_index):
    return self._node.volume[scenario_index.global_id]


@spec("parameters.parameters.InterpolatedFlowParameter", "_value_to_interpolate", props="C02 C03 C06 C21", keep="prev_flow")
def f(self, ts, scenario_index):
    return self._node.prev_flow[scenario_index.global_id]


@spec("parameters.parameters.InterpolatedQuadratureParameter", "_value_to_interpolate", props="C02 C21", keep="get_value")
def f(self, ts, scenario_index):
    return self._upper_parameter.get_value(scenario_index)


@spec("parameters.parameters.ScenarioWrapperParameter", "setup", props="C02", ret=False, cells="self._scenario_index")
def f(self):
    self._scenario_index = self.model.scenarios.get_scenario_index(self.scenario)


@spec("parameters.parameters.ScenarioWrapperParameter", "value", props="C02 C21", keep="get_value indices")
def f(self, ts, scenario_index):
    return self.parameters[scenario_index.indices[self._scenario_index]].get_value(scenario_index)


@spec("parameters.groundwater.KeatingStreamFlowParameter", "value", props="C02 C03 C21", keep="value level")
def f(self, ts, scenario_index):
    h = self.storage_node.level.value(ts, scenario_index)
    q = 0.0
    for n, s in enumerate(self.levels):
        if h > s:
            q = q + 2 * self.transmissivity[n] * self.coefficient * (h - s)
    return q

# Parameters whose value is looked up by calendar position, step index and scenario.


@spec("parameters._parameters.Parameter", "calc_values", props="C02 C21", calls="value", selfcalls="value", keep="value",
      why="every scenario's value is computed once and stored in its own place")
def f(self, timestep):
    for si in self.model.scenarios.combinations:
        self._Parameter__values[si.global_id] = self.value(timestep, si)


@spec("parameters._parameters.IndexParameter", "calc_values", props="C02 C21", selfcalls="value index", keep="value index",
      why="every scenario's index and value are computed once and stored in their own place")
def f(self, timestep):
    for si in self.model.scenarios.combinations:
        self._IndexParameter__indices[si.global_id] = self.index(timestep, si)
        self._Parameter__values[si.global_id] = self.value(timestep, si)


@spec("parameters._parameters.Parameter", "get_value", props="C02 C21", why="the scenario's own value")
def f(self, scenario_index):
    return self._Parameter__values[scenario_index.global_id]


@spec("parameters._parameters.IndexParameter", "get_index", props="C02 C21", why="the scenario's own index")
def f(self, scenario_index):
    return self._IndexParameter__indices[scenario_index.global_id]


@spec("parameters._parameters.Parameter", "get_all_values", props="C02", why="all scenarios' values")
def f(self):
    return self._Parameter__values


@spec("parameters._parameters.IndexParameter", "get_all_indices", props="C02", why="all scenarios' indices")
def f(self):
    return self._IndexParameter__indices


@spec("parameters._parameters.IndexParameter", "value", props="C02 C21", why="the value of an index parameter is its index")
def f(self, timestep, scenario_index):
    return float(self.get_index(scenario_index))


@spec("parameters._parameters.DataFrameParameter", "value", props="C18 C02 C21",
      why="the row of the step (shifted by the offset, held at the ends) and the column of the scenario")
def f(self, timestep, scenario_index):
    i = min(max(timestep.index + self.timestep_offset, 0), self._values.shape[0] - 1)
    if self.scenario is None:
        return self._values[i, 0]
    j = scenario_index._indices[self._scenario_index]
    if self._scenario_ids is not None:
        j = self._scenario_ids[j]
    return self._values[i, j]


@spec("parameters._parameters.TablesArrayParameter", "value", props="C18 C02 C21", cases=[{"self._values_dbl": "array"}],
      why="the row of the step (shifted by the offset, held at the ends) and the column of the scenario")
def f(self, timestep, scenario_index):
    i = min(max(timestep.index + self.timestep_offset, 0), self._values_dbl.shape[0] - 1)
    if self._scenario_index == -1:
        return self._values_dbl[i, 0]
    j = scenario_index._indices[self._scenario_index]
    if self._scenario_ids is not None:
        j = self._scenario_ids[j]
    return self._values_dbl[i, j]


@spec("parameters._parameters.TablesArrayParameter", "index", props="C18 C02 C21", cases=[{"self._values_int": "array"}],
      why="the row of the step (shifted by the offset, held at the ends) and the column of the scenario")
def f(self, timestep, scenario_index):
    i = min(max(timestep.index + self.timestep_offset, 0), self._values_int.shape[0] - 1)
    if self._scenario_index == -1:
        return self._values_int[i, 0]
    j = scenario_index._indices[self._scenario_index]
    if self._scenario_ids is not None:
        j = self._scenario_ids[j]
    return self._values_int[i, j]


@spec("parameters._parameters.ArrayIndexedParameter", "value", props="C18 C21", why="the value of the step")
def f(self, timestep, scenario_index):
    return self.values[timestep.index]


@spec("parameters._parameters.ArrayIndexedParameter", "calc_values", props="C18 C02 C21", why="the value of the step, for every scenario")
def f(self, timestep):
    self._Parameter__values[...] = self.values[timestep.index]


@spec("parameters._parameters.ArrayIndexedScenarioParameter", "value", props="C18 C02 C21", why="the value of the step and scenario")
def f(self, timestep, scenario_index):
    return self.values[timestep.index, scenario_index._indices[self._scenario_index]]


@spec("parameters._parameters.ConstantScenarioParameter", "value", props="C02 C21", why="the value of the scenario")
@spec("parameters._parameters.ConstantScenarioIndexParameter", "index", props="C02 C21", why="the value of the scenario")
def f(self, timestep, scenario_index):
    return self._values[scenario_index._indices[self._scenario_index]]


@spec("parameters._parameters.ArrayIndexedScenarioMonthlyFactorsParameter", "value", props="C18 C02 C21",
      why="the step's value times the factor of the month and scenario")
def f(self, timestep, scenario_index):
    return self._values[timestep.index] * self._factors[scenario_index._indices[self._scenario_index], timestep.month - 1]


@spec("parameters._parameters.ConstantScenarioParameter parameters._parameters.ConstantScenarioIndexParameter "
      "parameters._parameters.ArrayIndexedScenarioParameter parameters._parameters.ScenarioMonthlyProfileParameter "
      "parameters._parameters.ScenarioWeeklyProfileParameter parameters._parameters.ScenarioDailyProfileParameter "
      "parameters._parameters.ArrayIndexedScenarioMonthlyFactorsParameter",
      "setup", props="C02", cells="self._scenario_index", ret=False, why="the position of the parameter's own scenario")
def f(self):
    self._scenario_index = self.model.scenarios.get_scenario_index(self._scenario)


@spec("parameters._parameters.DailyProfileParameter", "value", props="C18 C21", why="the value of the day of a leap year")
def f(self, timestep, scenario_index):
    return self._values[timestep.dayofyear_index]


@spec("parameters._parameters.RbfProfileParameter", "value", props="C18 C21", why="the value of the day of a leap year")
def f(self, timestep, scenario_index):
    return self._interp_values[timestep.dayofyear_index]


@spec("parameters._parameters.WeeklyProfileParameter", "value", props="C18 C21", why="the value of the week")
def f(self, timestep, scenario_index):
    return self._values[timestep.week_index]


@spec("parameters._parameters.MonthlyProfileParameter", "value", props="C18 C21", why="the value of the month, or of the day when interpolated")
def f(self, timestep, scenario_index):
    if self.interp_day is None:
        return self._values[timestep.month - 1]
    return self._interp_values[timestep.dayofyear_index]


@spec("parameters._parameters.ScenarioMonthlyProfileParameter", "value", props="C18 C02 C21", why="the value of the month and scenario")
def f(self, timestep, scenario_index):
    return self._values[scenario_index._indices[self._scenario_index], timestep.month - 1]


@spec("parameters._parameters.ScenarioWeeklyProfileParameter", "value", props="C18 C02 C21", why="the value of the week and scenario")
def f(self, timestep, scenario_index):
    return self._values[scenario_index._indices[self._scenario_index], timestep.week_index]


@spec("parameters._parameters.ScenarioDailyProfileParameter", "value", props="C18 C02 C21", why="the value of the day and scenario")
def f(self, timestep, scenario_index):
    return self._values[scenario_index._indices[self._scenario_index], timestep.dayofyear_index]


@spec("parameters._parameters.UniformDrawdownProfileParameter", "value", props="C18 C21",
      why="falls evenly from one on the reset day over the days of the period, leap day included only when the period has one")
def f(self, timestep, scenario_index):
    d = timestep.dayofyear_index - self._reset_idoy
    y = timestep.year
    if d < 0:
        y = y - 1
    if self._reset_idoy > 59:
        y = y + 1
    if is_leap_year(y):
        n = 366
    else:
        n = 365
    if d < 0:
        d = d + 366
        if not is_leap_year(timestep.year) and timestep.dayofyear_index > 59:
            d = d - 1
    return 1 + (self.residual_days / n - 1.0) / n * d


@spec("parameters._parameters.UniformDrawdownProfileParameter", "reset", props="C18", cells="self._reset_idoy", ret=False,
      why="days are counted in a leap year, from zero")
def f(self):
    self._reset_idoy = pandas.Period(year=2016, month=self.reset_month, day=self.reset_day, freq="D").dayofyear - 1

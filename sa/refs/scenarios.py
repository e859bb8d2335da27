# Scenarios and their combinations.  Interpreted, never executed.


@spec("_core.Scenario", "get size", props="C02")
def f(self):
    return self._size


@spec("_core.Scenario", "get ensemble_names", props="C02")
def f(self):
    if self._ensemble_names is None:
        return list(range(self._size))
    return self._ensemble_names


@spec("_core.Scenario", "set ensemble_names", props="C02")
def f(self, names):
    if names is None:
        self._ensemble_names = None
        return
    if len(names) != self._size:
        raise ValueError('The length of ensemble_names ({}) must be equal to the size of the scenario ({})'.format(len(names), self.size))
    self._ensemble_names = names


@spec("_core.ScenarioCollection", "__getitem__", props="C02")
def f(self, name):
    for sc in self._scenarios:
        if sc._name == name:
            return sc
    raise KeyError("Scenario with name '{}' not found.".format(name))


@spec("_core.ScenarioCollection", "get_combinations", props="C02")
def f(self):
    if len(self._scenarios) == 0:
        combinations = [ScenarioIndex(0, np.array([0], dtype=np.int32))]
    elif self._user_combinations is not None:
        combinations = list([ScenarioIndex(i, self._user_combinations[i, :]) for i in range(self._user_combinations.shape[0])])
    else:
        iter = itertools.product(*[range(scenario._size)[scenario.slice] if scenario.slice else range(scenario._size) for scenario in self._scenarios])
        combinations = list([ScenarioIndex(i, np.array(x, dtype=np.int32)) for i, x in enumerate(iter)])
    if not combinations:
        raise ValueError('No scenarios were selected to be run')
    return combinations


@spec("_core.ScenarioCollection", "setup", props="C02")
def f(self):
    self.combinations = self.get_combinations()


@spec("_core.ScenarioCollection", "get_scenario_index", props="C02")
def f(self, sc):
    return self._scenarios.index(sc)


@spec("_core.ScenarioCollection", "add_scenario", props="C02")
def f(self, sc):
    if sc in self._scenarios:
        raise ValueError('The same scenario can not be added twice.')
    self.model.dirty = True
    self._scenarios.append(sc)


@spec("_core.ScenarioCollection", "__len__", props="C02")
def f(self):
    return len(self._scenarios)


@spec("_core.ScenarioCollection", "ravel_indices", props="C02")
def f(self, scenario_indices):
    if scenario_indices is None:
        return 0
    if scenario_indices.size == 0:
        return 0
    return np.ravel_multi_index(scenario_indices, np.array(self.shape))


@spec("_core.ScenarioCollection", "get scenarios", props="C02")
def f(self):
    return self._scenarios


@spec("_core.ScenarioCollection", "get user_combinations", props="C02")
def f(self):
    return self._user_combinations


@spec("_core.ScenarioCollection", "set user_combinations", props="C02")
def f(self, values):
    self.model.dirty = True
    if values is None:
        self._user_combinations = None
        return
    values = np.asarray(values, dtype=np.int32)
    if values.ndim != 2:
        raise ValueError('A 2-dimensional array of scenario indices must be provided.')
    if values.shape[1] != len(self._scenarios):
        raise ValueError('User defined combinations must have shape (N, S) where S in number of Scenarios')
    for sc, v in zip(self._scenarios, values.max(axis=0)):
        if v >= sc._size:
            raise ValueError('Given ensemble index for scenario "{}" out of range.'.format(sc.name))
    if np.any(values.min(axis=0) < 0):
        raise ValueError('Ensemble index less than zero is invalid.')
    self._user_combinations = values


@spec("_core.ScenarioCollection", "get combination_names", props="C02")
def f(self):
    for si in self.combinations:
        names = []
        for i, sc in enumerate(self._scenarios):
            names.append('{}.{:03d}'.format(sc._name, si._indices[i]))
        yield '-'.join(names)


@spec("_core.ScenarioCollection", "get shape", props="C02")
def f(self):
    if self._user_combinations is not None:
        return (len(self._user_combinations),)
    if len(self._scenarios) == 0:
        return (1,)
    return tuple((len(range(sc.size)[sc.slice]) if sc.slice is not None else sc.size for sc in self._scenarios))


@spec("_core.ScenarioCollection", "get multiindex", props="C02")
def f(self):
    if len(self._scenarios) == 0:
        return pd.MultiIndex.from_product([range(1)], names=[''])
    ensemble_names = [scenario.ensemble_names for scenario in self._scenarios]
    indices = [[ensemble_names[n][i] for n, i in enumerate(scenario_index.indices)] for scenario_index in self.model.scenarios.get_combinations()]
    names = [sc._name for sc in self._scenarios]
    return pd.MultiIndex.from_tuples(indices, names=names)


@spec("_core.ScenarioIndex", "get indices", props="C02")
def f(self):
    return np.array(self._indices)


@spec("_core.Scenario", "get slice", props="C02")
def f(self):
    return self._slice


@spec("_core.Scenario", "set slice", props="C02")
def f(self, value):
    self._slice = value
    self._model.dirty = True

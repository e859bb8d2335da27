# Limits and costs: what is assigned last is what is used.


@law("_core.Node _core.AggregatedNode", attrs="min_flow max_flow", at="set ATTR", props="C17 C08",
     cases=[{"value": "num"}], why="a number replaces what was set before")
@law("_core.Node _core.Storage", attrs="cost", at="set ATTR", props="C17 C08",
     cases=[{"value": "num"}], why="a number replaces what was set before")
@law("_core.Storage", attrs="min_volume max_volume", at="set ATTR", props="C17 C08",
     cases=[{"value": "num"}], why="a number replaces what was set before")
def f(self, value):
    self.ATTR = value
    same(self.ATTR, value)
    for i, si in enumerate(self.model.scenarios.combinations):
        same(self.get_ATTR(si), value)
        same(self.get_all_ATTR()[i], value)


@law("_core.Node _core.AggregatedNode", attrs="min_flow max_flow", at="set ATTR", props="C17 C08",
     cases=[{"value": "inst:parameters._parameters.Parameter"}], why="a parameter replaces what was set before")
@law("_core.Node _core.Storage", attrs="cost", at="set ATTR", props="C17 C08",
     cases=[{"value": "inst:parameters._parameters.Parameter"}], why="a parameter replaces what was set before")
@law("_core.Storage", attrs="min_volume max_volume", at="set ATTR", props="C17 C08",
     cases=[{"value": "inst:parameters._parameters.Parameter"}], why="a parameter replaces what was set before")
def f(self, value):
    self.ATTR = value
    same(self.ATTR, value)
    for i, si in enumerate(self.model.scenarios.combinations):
        same(self.get_ATTR(si), value.get_value(si))
        same(self.get_all_ATTR()[i], value.get_all_values()[i])


@law("_core.Storage", attrs="level area", at="set ATTR", props="C17",
     cases=[{"value": "num"}], why="a number replaces what was set before")
def f(self, value):
    self.ATTR = value
    same(self.ATTR, value)
    for i, si in enumerate(self.model.scenarios.combinations):
        same(self.get_ATTR(si), value)


@law("_core.Storage", attrs="level area", at="set ATTR", props="C17",
     cases=[{"value": "inst:parameters._parameters.Parameter"}], why="a parameter replaces what was set before")
def f(self, value):
    self.ATTR = value
    same(self.ATTR, value)
    for i, si in enumerate(self.model.scenarios.combinations):
        same(self.get_ATTR(si), value.get_value(si))


@law("_core.Storage", attrs="level area", at="set ATTR", props="C17", why="None means zero")
def f(self):
    self.ATTR = None
    same(self.ATTR, 0.0)


@law("_core.Node", at="set max_flow", props="C17 C08", why="None means no limit")
def f(self):
    self.max_flow = None
    self.min_flow = None
    same(self.min_flow, 0.0)
    same(self.max_flow, inf)


@law("_core.AggregatedNode", at="set max_flow", props="C17 C08", why="None means no limit")
def f(self):
    self.max_flow = None
    self.min_flow = None
    same(self.min_flow, -inf)
    same(self.max_flow, inf)


@law("_core.Node _core.AggregatedNode", attrs="min_flow max_flow", at="get_all_ATTR", over="get_ATTR get_all_ATTR", props="C17 C02 C08", cases=[{"out": None}, {"out": "array"}],
     why="all-scenario and single-scenario values agree")
@law("_core.AbstractNode _core.Node _core.StorageInput _core.StorageOutput _core.Storage", attrs="cost", at="get_all_ATTR", over="get_ATTR get_all_ATTR", props="C17 C02 C08",
     cases=[{"out": None}, {"out": "array"}], why="all-scenario and single-scenario values agree")
@law("_core.Storage", attrs="min_volume max_volume", at="get_all_ATTR", over="get_ATTR get_all_ATTR", props="C17 C02 C08",
     cases=[{"out": None}, {"out": "array"}], why="all-scenario and single-scenario values agree")
def f(self, out=None):
    r = self.get_all_ATTR(out)
    for i, si in enumerate(self.model.scenarios.combinations):
        same(r[i], self.get_ATTR(si))


@law("nodes.BreakLink", attrs="min_flow max_flow cost", at="get_all_ATTR", props="C17", cases=[{"value": "num"}],
     why="limits and costs of a break link are those of its link")
def f(self, value):
    self.ATTR = value
    same(self.ATTR, value)
    same(self.link.ATTR, value)
    for i, si in enumerate(self.model.scenarios.combinations):
        same(self.get_ATTR(si), self.link.get_ATTR(si))
        same(self.get_all_ATTR()[i], self.link.get_ATTR(si))


@law("nodes.LossLink", attrs="min_flow max_flow cost", at="get_all_ATTR", props="C17", cases=[{"value": "num"}],
     why="limits and costs of a loss link are those of its net flow")
def f(self, value):
    self.ATTR = value
    same(self.ATTR, value)
    same(self.net.ATTR, value)
    for i, si in enumerate(self.model.scenarios.combinations):
        same(self.get_ATTR(si), self.net.get_ATTR(si))
        same(self.get_all_ATTR()[i], self.net.get_ATTR(si))

"""Families of model components and the protocol methods the engine drives them with."""


def families(prog):
    node = prog.cls("_core.AbstractNode")
    par = prog.cls("parameters._parameters.Parameter")
    rec = prog.cls("recorders._recorders.Recorder")
    return {"node": node, "parameter": par, "recorder": rec}


RUN = {
    "node": ["before", "commit", "commit_all", "after", "finish"],
    "parameter": ["before", "calc_values", "value", "index", "after", "finish"],
    "recorder": ["before", "after", "finish"],
}
# methods of the protocol that may be consulted at any point of a run
QUERY = {
    "node": lambda n: n.startswith("get_") and n not in ("get_all_components",),
    "parameter": lambda n: n.startswith("get_") and "variables" not in n and "bounds" not in n,
    "recorder": lambda n: False,
}
NOT_RUN = ("__init__", "setup", "reset", "load", "pre_load", "finalise_load", "check", "register", "unregister",
           "__cinit__", "__dealloc__")


def component_classes(prog):
    """(family, class) for every node, parameter and recorder class."""
    out = []
    for fam, base in families(prog).items():
        for c in prog.subs(base):
            out.append((fam, c))
    return out


def method_names(c):
    seen = []
    for k in c.mro:
        for m in k.methods:
            if m not in seen:
                seen.append(m)
    return seen

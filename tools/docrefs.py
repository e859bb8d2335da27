"""Prints the table of document types and keys (sa/refs/documents.py) as it is on the current tree; read and corrected by hand."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.program import Program
from sa.docspec import describe, ctor_names

ABSTRACT = {"Parameter", "IndexParameter", "Recorder", "BaseControlCurveParameter", "FunctionParameter", "NodeRecorder", "StorageRecorder",
            "ParameterRecorder", "IndexParameterRecorder", "BaseConstantNodeRecorder", "BaseConstantParameterRecorder"}
P = Program()
d = describe(P)
print('"""Document types, the keys each accepts and the loader each reference in them goes through.  Read against the\n'
      'documentation; a tree may accept more, never less."""\n')
for fam in ("parameter", "recorder"):
    print("%s = {" % fam.upper())
    for c, x in sorted(d[fam].items(), key=lambda z: z[0].name):
        if c.name in ABSTRACT:
            continue
        ks = sorted(k for k in x["keys"] if k not in ("type", "param"))
        rs = {k: sorted(v) for k, v in sorted(x["resolved"].items())}
        print("    %r: (%r,\n        %r)," % (c.name, " ".join(ks), rs))
    print("}\n")
print("NODE = {")
for c, x in sorted(d["node"].items(), key=lambda z: (z[0].name, z[0].module.name)):
    print("    %r: (%r, %r, %r, %r)," % (c.name, " ".join(sorted(x["accepts"] - {"model"})), " ".join(sorted(x["__parameter_attributes__"])),
                                         " ".join(sorted(x["__node_attributes__"])), " ".join(sorted(x["__parameter_value_attributes__"]))))
print("}")
print('''
# sections and keys of the documents of whole models
MODEL = {
    "_model.Model": "metadata solver solver/name timestepper timestepper/start timestepper/end timestepper/timestep includes scenarios "
                    "scenarios/name scenarios/size scenarios/slice scenarios/ensemble_names scenario_combinations tables nodes "
                    "parameters recorders edges",
    "model.MultiModel": "timestepper timestepper/start timestepper/end timestepper/timestep models models/name models/filename models/data "
                        "models/path models/solver",
}''')

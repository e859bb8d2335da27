"""Prints the fields (attributes stored on self, or declared) of all classes: the vocabulary of sa/refs/fields.txt.
A value that uses a field not listed there is undecided for the reference equations, not wrong."""
import ast
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.program import Program

P = Program()
out = set()
for m in P.modules.values():
    for c in m.classes.values():
        out |= set(c.attr_ann) | set(c.props)
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    out.add(n.attr)
print("\n".join(sorted(out)))

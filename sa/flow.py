"""Small syntactic flow helpers shared by the checks."""
import ast


def functions(m):
    for f in m.funcs.values():
        yield f
    for c in m.classes.values():
        for f in c.methods.values():
            yield f
        for pr in c.props.values():
            for f in pr.values():
                if f is not None and hasattr(f, "node"):
                    yield f


def calls_in(node):
    """(name, call) for every call below node; nested functions included."""
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute):
                yield f.attr, n
            elif isinstance(f, ast.Name):
                yield f.id, n


def try_blocks(node):
    return [n for n in ast.walk(node) if isinstance(n, ast.Try)]


def jumps(stmts, loop=False):
    """return/break/continue statements that leave this block."""
    out = []
    for s in stmts:
        if isinstance(s, ast.Return):
            out.append(s)
        elif isinstance(s, (ast.Break, ast.Continue)) and not loop:
            out.append(s)
        elif isinstance(s, (ast.For, ast.While)):
            out += jumps(s.body, True) + jumps(s.orelse, loop)
        elif isinstance(s, ast.If):
            out += jumps(s.body, loop) + jumps(s.orelse, loop)
        elif isinstance(s, ast.With):
            out += jumps(s.body, loop)
        elif isinstance(s, ast.Try):
            for b in [s.body, s.orelse, s.finalbody] + [h.body for h in s.handlers]:
                out += jumps(b, loop)
    return out


def completes(stmts):
    """Whether the block may be left other than by raising."""
    for s in stmts:
        if isinstance(s, ast.Raise):
            return False
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return True
        if isinstance(s, ast.If):
            a, b = completes(s.body), completes(s.orelse) if s.orelse else True
            if not a and not b:
                return False
            if jumps([s]):
                return True
        elif isinstance(s, ast.With):
            if not completes(s.body):
                return False
        elif isinstance(s, ast.Try):
            if s.finalbody and not completes(s.finalbody):
                return False
            if not completes(s.body) and all(not completes(h.body) for h in s.handlers):
                return False
        elif isinstance(s, (ast.For, ast.While)):
            if jumps(s.body, True):
                return True
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and \
                    not any(isinstance(n, ast.Break) for n in ast.walk(s)):
                return False
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("sys.exit", "exit", "quit"):
            return True
    return True


ANCESTORS = {"Exception", "BaseException", "RuntimeError", "StandardError"}


def handler_names(h):
    if h.type is None:
        return ["BaseException"]
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else "?" for t in ts]


def catches(h, names):
    return any(n in ANCESTORS or n in names for n in handler_names(h))

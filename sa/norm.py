"""Normal form of statements: different spellings of one control flow become one.

* ``while i < n`` counting up by one from zero becomes ``for i in range(n)``;
* a conditional expression that is the whole value of an assignment or return becomes an ``if``;
* a branch that always leaves stands alone, what its other side does follows it.
"""
import ast
import copy


def _loc(new, old):
    return ast.copy_location(new, old)


def leaves(b):
    """Does the block always leave (return, raise, continue, break)?"""
    if not b:
        return False
    s = b[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    return isinstance(s, ast.If) and leaves(s.body) and leaves(s.orelse)


def names_stored(b):
    return {x.id for s in b for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def counted(s, before):
    """(index, end) of a while loop counting from zero, or None."""
    t = s.test
    if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and len(s.body) > 1):
        return None
    l, op, r = t.left, t.ops[0], t.comparators[0]
    if isinstance(op, ast.Gt) or isinstance(op, ast.NotEq) and not isinstance(l, ast.Name):
        l, r = r, l
    elif not isinstance(op, (ast.Lt, ast.NotEq)):
        return None
    if not isinstance(l, ast.Name):
        return None
    n, last = l.id, s.body[-1]
    if isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.value, ast.BinOp):
        x, y = last.value.left, last.value.right
        if isinstance(x, ast.Constant):
            x, y = y, x
        if not (isinstance(x, ast.Name) and isinstance(last.targets[0], ast.Name) and x.id == last.targets[0].id):
            return None
        last = ast.AugAssign(last.targets[0], last.value.op, y)
    if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == n
            and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1):
        return None
    body = s.body[:-1]
    if any(isinstance(x, (ast.Continue, ast.Break)) for b in body for x in ast.walk(b)):
        return None
    st = names_stored(body)
    if n in st or st & {x.id for x in ast.walk(r) if isinstance(x, ast.Name)}:
        return None
    if any(isinstance(x, (ast.Attribute, ast.Subscript)) for x in ast.walk(r)):
        attrs = {x.attr for b in body for x in ast.walk(b) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        if attrs & {x.attr for x in ast.walk(r) if isinstance(x, ast.Attribute)}:
            return None
    for p in reversed(before):
        v = p.value if isinstance(p, (ast.Assign, ast.AnnAssign)) else None
        t = p.targets if isinstance(p, ast.Assign) else [p.target] if isinstance(p, ast.AnnAssign) else []
        if v is not None and len(t) == 1 and isinstance(t[0], ast.Name) and t[0].id == n:
            return (n, r, body, p) if isinstance(v, ast.Constant) and v.value == 0 and not isinstance(v.value, bool) else None
        if n in names_stored([p]):
            return None
    return None


def block(b):
    out = []
    i = 0
    b = list(b)
    while i < len(b):
        s = b[i]
        i += 1
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp) and \
                (isinstance(s, ast.Return) or len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute))):
            e = s.value
            x, y = copy.copy(s), copy.copy(s)
            if isinstance(s, ast.Assign):
                y.targets = copy.deepcopy(s.targets)
            x.value, y.value = e.body, e.orelse
            s = _loc(ast.If(e.test, [x], [y]), s)
        if isinstance(s, ast.While):
            c = counted(s, out)
            if c is not None:
                n, end, body, _ = c
                s = _loc(ast.For(_loc(ast.Name(n, ast.Store()), s), _loc(ast.Call(
                    _loc(ast.Name("range", ast.Load()), s), [end], []), s), body, []), s)
                s.cy_while = True
        stmt(s)
        if isinstance(s, ast.If) and s.orelse:
            if leaves(s.body):
                rest, s.orelse = s.orelse, []
                b[i:i] = rest
                # the moved statements are already normal
            elif leaves(s.orelse) and not leaves(s.body):
                s.test = _loc(ast.UnaryOp(ast.Not(), s.test), s.test)
                rest, s.body, s.orelse = s.body, s.orelse, []
                b[i:i] = rest
        out.append(s)
    return out


def stmt(s):
    for f in ("body", "orelse", "finalbody"):
        v = getattr(s, f, None)
        if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
            setattr(s, f, block(v))
    for h in getattr(s, "handlers", []):
        stmt(h)


class Private(ast.NodeTransformer):
    """Private names carry their class, as the compilers see to."""

    def __init__(self):
        self.cls = []

    def visit_ClassDef(self, n):
        self.cls.append(n.name.lstrip("_"))
        self.generic_visit(n)
        self.cls.pop()
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if self.cls and n.attr.startswith("__") and not n.attr.endswith("__"):
            n.attr = "_%s%s" % (self.cls[-1], n.attr)
        return n


def normalise(tree):
    Private().visit(tree)
    for s in tree.body:
        stmt(s)
    return tree

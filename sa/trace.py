"""Ordered trace of the calls a function makes on other objects (helpers inlined), with the
conditions, the enclosing clean-up blocks and the iterated collection of each call."""
import ast

from .flow import completes, handler_names
from .interp import Interp, V, E, NOK
from .program import Cls


class CallEv:
    __slots__ = ("name", "recv", "types", "args", "kw", "guards", "must", "where", "finals", "infinal", "node", "func",
                 "kind", "val", "loops", "handlers", "cond", "aug", "idx", "inhandler")

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))

    def __repr__(self):
        return "%s %s.%s g=%s f=%s/%s @%s" % (self.kind, sorted(self.recv or ()), self.name, self.guards,
                                              self.finals, self.infinal, self.where)


class CallTrace(Interp):
    """Sub-objects' methods are events; methods on self are inlined unless named in ``keep``."""
    keep = ()

    def __init__(self, prog):
        super().__init__(prog)
        self.evs = []
        self.finals = ()
        self.infinal = ()
        self.inhandler = ()
        self.hand = ()
        self.loopstack = ()

    def collect(self, func, cls, **k):
        self.evs = []
        r, st = self.run(func, cls, **k)
        return self.evs, st

    def event(self, kind, name, recv, args, kw, node, st, val=None):
        self.evs.append(CallEv(kind=kind, name=name, recv=recv.p if recv is not None else E,
                               types=recv.insts() if recv is not None else [], args=args, kw=kw, guards=st.guards,
                               must=st.must, where=self.loc(node), finals=self.finals, infinal=self.infinal, node=node,
                               func=self.fr.func, val=val, loops=self.loopstack, handlers=self.hand,
                               inhandler=self.inhandler))

    def on_call(self, name, fv, recv, args, kw, node, st):
        self.event("call", name, recv, args, kw, node, st, val=fv)
        return None

    def opaque(self, name, recv, args, kw, node, st, func=None):
        r = super().opaque(name, recv, args, kw, node, st, func)
        if recv is not None and recv.p and not r.p:
            p = frozenset("%s.%s()" % (q, name) for q in recv.p if len(q) < 120)
            r = r.with_(p=p, d=r.d | p)
        return r

    def inline(self, func, recv, node, st):
        if func.name in self.keep:
            return False
        return super().inline(func, recv, node, st)

    def builtin(self, name, recv, args, kw, node, st):
        r = super().builtin(name, recv, args, kw, node, st)
        if name in ("list", "tuple", "iter") and args:
            r = r.with_(p=args[0].p, it=self.iter_elem(args[0], node, st))
        elif name in ("sorted", "reversed", "set") and args:
            p = frozenset("%s(%s)" % (name, q) for q in args[0].p)
            r = r.with_(p=p, it=V(t=self.elem_of(args[0]), p=frozenset(q + "[*]" for q in p)))
        return r

    def on_write(self, b, attr, val, node, st, aug):
        self.event("write", attr, b, [val], {}, node, st, val=val)
        self.evs[-1].aug = aug

    def st_Try(self, s, st):
        if not s.finalbody:
            # a handler of every error that raises again is clean-up code for its try body
            hs = [h for h in s.handlers if "BaseException" in handler_names(h) and not completes(h.body)]
            if hs and not isinstance(s.body[0], _Label):
                h = hs[-1]
                h2 = ast.ExceptHandler(h.type, h.name, [_Label(h.body, self.finals, self.inhandler + (id(s),))])
                ast.copy_location(h2, h)
                s2 = ast.Try([_Label(s.body, self.finals + (id(s),), self.inhandler)],
                             [h2 if x is h else x for x in s.handlers], s.orelse, [])
                ast.copy_location(s2, s)
                return self._try(s2, st)
            return self._try(s, st)
        save = self.finals
        self.finals = save + (id(s),)
        try:
            body = s.finalbody
            marker = _Final(self, id(s), body, save)
            # interpret with the clean-up wrapped so that its events are labelled
            s2 = ast.Try(s.body, s.handlers, s.orelse, [marker])
            ast.copy_location(s2, s)
            return self._try(s2, st)
        finally:
            self.finals = save

    def _try(self, s, st):
        return super().st_Try(s, st)

    def st__Final(self, s, st):
        f, i = self.finals, self.infinal
        self.finals, self.infinal = s.saved, i + (s.tid,)
        try:
            return self.block(s.body, st)
        finally:
            self.finals, self.infinal = f, i

    def st__Label(self, s, st):
        f, h = self.finals, self.inhandler
        self.finals, self.inhandler = s.finals, s.inhandler
        try:
            return self.block(s.body, st)
        finally:
            self.finals, self.inhandler = f, h

    def st_For(self, s, st):
        itv = self.ev(s.iter, st)
        self.on_loop(s, itv, st)
        el = self.iter_elem(itv, s.iter, st)
        save = self.loopstack
        self.loopstack = save + ((id(s), itv.p),)
        try:
            return self.loop(s, st, lambda x: self.assign(s.target, el, x, s))
        finally:
            self.loopstack = save


    def getitem(self, b, idx, node, st):
        r = super().getitem(b, idx, node, st)
        for v in idx:
            if ("slice", False) in v.t:
                r = r.with_(p=frozenset(q + "{part}" for q in b.p), it=None)
        return r

    def comp(self, e, elt, st):
        v = super().comp(e, elt, st)
        conds = [c for g in e.generators for c in g.ifs]
        if conds and v.p:
            tag = "{if}"
            if len(conds) == 1:
                k = self.isinstance_of(conds[0])
                if k is not None:
                    tag = "{isinstance:%s}" % k.name
            v = v.with_(p=frozenset(q + tag for q in v.p))
        return v

    def isinstance_of(self, c):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "isinstance" and len(c.args) == 2:
            k = self.prog.resolve_expr(self.fr.module, c.args[1])
            if isinstance(k, Cls):
                return k
        return None

    def leave(self, kind, s, st):
        self.event(kind, kind, None, [], {}, s, st)

    def st_Break(self, s, st):
        self.leave("break", s, st)
        return super().st_Break(s, st)

    def st_Return(self, s, st):
        r = super().st_Return(s, st)
        self.leave("return", s, st)
        return r


class _Label(ast.stmt):
    _fields = ("body",)

    def __init__(self, body, finals, inhandler):
        super().__init__(body)
        self.finals, self.inhandler = finals, inhandler
        self.lineno = getattr(body[0], "lineno", 0)
        self.col_offset = 0


class _Final(ast.stmt):
    _fields = ()

    def __init__(self, tr, tid, body, saved):
        super().__init__()
        self.tid, self.body, self.saved = tid, body, saved
        self.lineno = getattr(body[0], "lineno", 0)
        self.col_offset = 0

"""Where a value comes from, per path: tokens
   ("A", k, off)  pointer to offset off of argument k        ("L", k, off)  value loaded from there
   ("F", rec, i)  went through field i of a record            ("S", text)    constant string
   ("C", name)    result or output of a call
Local buffers are tracked in the typestate: the last whole write determines the tokens of their contents."""
import esp, ext
from ir import Inst, Const, Arg, Global


class ProvClient(esp.BaseClient):
    """ts = (state, B) with B a frozenset of (alloca, frozenset(tokens))"""

    def B(self, st):
        return dict(st.ts[1])

    def setB(self, st, a, toks, weak=False):
        d = dict(st.ts[1])
        d[a] = frozenset(toks) | (d.get(a, frozenset()) if weak else frozenset())
        st.ts = (st.ts[0], frozenset(d.items()))

    def set(self, st, s):
        st.ts = (s, st.ts[1])

    def tok(self, E, st, v, d=0, seen=None):
        v = E.res(st, v)
        if isinstance(v, Arg):
            return frozenset((("A", v.idx, 0),))
        if isinstance(v, Global):
            s = v.init_str
            return frozenset((("S", s.rstrip(b"\0")),)) if s is not None else frozenset((("G", v.name),))
        if not isinstance(v, Inst) or d > 14:
            return frozenset()
        seen = seen or ()
        if v in seen:
            return frozenset()
        seen = seen + (v,)
        if v.op == "gep":
            b, off = E.ptr(st, v)
            out = set()
            if isinstance(b, Arg):
                out.add(("A", b.idx, off))
            elif isinstance(b, Inst) and b.op == "alloca":
                out |= self.B(st).get(b, frozenset())
            else:
                out |= self.tok(E, st, b, d + 1, seen)
            x = v
            while isinstance(x, Inst) and x.op == "gep":
                if x.sf:
                    out.add(("F",) + tuple(x.sf))
                x = E.res(st, x.ops[0])
            return frozenset(out)
        if v.op == "alloca":
            return self.B(st).get(v, frozenset())
        if v.op == "load":
            b, off = E.ptr(st, v.ops[0])
            out = set()
            if isinstance(b, Arg):
                out.add(("L", b.idx, off))
            elif isinstance(b, Inst) and b.op == "alloca":
                out |= self.B(st).get(b, frozenset())
            elif isinstance(b, Inst):
                out |= self.tok(E, st, b, d + 1, seen)
            elif isinstance(b, Global):
                out.add(("G", b.name))
            p = E.res(st, v.ops[0])
            while isinstance(p, Inst) and p.op == "gep":
                if p.sf:
                    out.add(("F",) + tuple(p.sf))
                p = E.res(st, p.ops[0])
            return frozenset(out)
        if v.op == "call":
            out = {("C", v.cname or "?")}
            for o in v.ops:
                out |= self.tok(E, st, o, d + 1, seen)
            return frozenset(out)
        if v.op in ("phi", "select") or v.op in esp.PURE:
            out = set()
            for o in (v.ops if v.op != "select" else v.ops[1:]):
                out |= self.tok(E, st, o, d + 1, seen)
            return frozenset(out)
        return frozenset()

    def prov_store(self, E, st, i, base, off, val):
        if isinstance(base, Inst) and base.op == "alloca":
            whole = off == 0 and i.size == base.size
            self.setB(st, base, self.tok(E, st, i.ops[0]), weak=not whole)

    def prov_call(self, E, st, i):
        n = i.cname or ""
        if n in ext.READONLY or n.startswith(("llvm.lifetime", "llvm.dbg")):
            return
        wr = None
        if n in self.P.fn:
            wr = {E.ptr(st, w[0])[0] for w in E.fx.writes(E, st, i)} | {E.ptr(st, w)[0] for w in E.fx.deep(i)}
        toks = [self.tok(E, st, o) for o in i.ops]
        for k, a in enumerate(i.ops):
            b, off = E.ptr(st, a)
            if isinstance(b, Inst) and b.op == "alloca" and (wr is None or b in wr):
                if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) and k != 0:
                    continue
                t = {("C", n)}
                for j, x in enumerate(toks):
                    if j != k:
                        t |= x
                self.setB(st, b, t)

    def prune(self, E, st, blk):
        if not st.ts[1]:
            return
        live = E.info.live[blk]
        self_live = {v for v in live}
        keep = frozenset((a, t) for a, t in st.ts[1] if isinstance(a, str) or a in self_live or a in E.esc())
        if keep != st.ts[1]:
            st.ts = (st.ts[0], keep)

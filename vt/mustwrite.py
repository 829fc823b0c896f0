"""Which fields of an output object have definitely been given a value when a function reports success."""
import esp, ext, prog
from esp import BaseClient, mk
from ir import Inst, Const, Arg


class MustWrite(BaseClient):
    cap = 16

    def __init__(self, P, fn, fields, succ):
        self.P, self.fn, self.fields, self.succ = P, fn, fields, succ
        self.init = frozenset()
        self.good = []

    def touch(self, E, st, base, lo, hi):
        if isinstance(base, Arg):
            new = set(st.ts)
            for name, (a, o, n) in self.fields.items():
                if a == base.idx and (lo is None or lo < o + n and hi > o):
                    new.add(name)
            st.ts = frozenset(new)

    def on_store(self, E, st, i, base, off, size, val):
        self.touch(E, st, base, off, None if off is None else off + size)
        return None

    def on_call(self, E, st, i):
        n = i.cname or ""
        if n.startswith("llvm.memset"):
            return None
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            b, o = E.ptr(st, i.ops[0])
            ln = E.ev(st, i.ops[2])
            if o is None:
                return None
            self.touch(E, st, b, o, o + (ln or 1))
            return None
        for p, lo, hi in E.fx.writes(E, st, i):
            b, o = E.ptr(st, p)
            if o is None:
                continue
            self.touch(E, st, b, o + (lo or 0), o + (hi if hi is not None else 1))
        return None

    def on_ret(self, E, st, i, val):
        for s in self.succ(E, st.copy(), val):
            self.good.append((s, i))


def run(P, name, fields, succ, limit=60000):
    f = P.get(name)
    return esp.explore(lambda: MustWrite(P, f, fields, succ), f, P.fx, limit, bad=lambda c: any(set(fields) - x[0].ts for x in c.good))

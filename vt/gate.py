"""Running a gate: all states reaching a success return of one function, with their facts."""
import esp, terms
from esp import mk
from ir import Const, Inst
from front import Broken

CMP0 = ("nostr_constant_time_memcmp", "memcmp")
SW = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}


def sgn(v, w=64):
    return v - (1 << w) if v >= 1 << (w - 1) else v


class Facts(object):
    def __init__(self, client, E, st):
        self.c, self.E, self.st = client, E, st
        self.F = st.ts.F
        self.sub = {}
        for p, a, b in self.F:
            self.sub.setdefault(a, set()).add((p, b))
            self.sub.setdefault(b, set()).add((SW[p], a))

    def zero(self, t):
        return ("eq", ("c", 0)) in self.sub.get(t, ())

    def nonzero(self, t):
        for p, b in self.sub.get(t, ()):
            if b[0] == "c":
                if p == "ne" and b[1] == 0 or p == "eq" and b[1] != 0 or p == "ugt" or p == "uge" and b[1] > 0 or \
                   p == "sgt" and sgn(b[1], 32) >= 0:
                    return True
        return False

    def eqc(self, t, k):
        return ("eq", ("c", k)) in self.sub.get(t, ())

    def has(self, pred, a, b):
        return (pred, b) in self.sub.get(a, ())

    def any(self, f):
        return any(f(p, a, b) for p, a, b in self.F) or any(f(SW[p], b, a) for p, a, b in self.F)

    def heads(self, *names):
        """terms with that head that occur as the subject of some fact"""
        out = []
        for t in self.sub:
            if t and t[0] in names:
                out.append(t)
        return out

    def eqbytes(self, x, y, n):
        """a byte comparison of x and y over n bytes came out equal"""
        for t in self.heads(*CMP0):
            if t[3:] == (("c", n),) and set(t[1:3]) == {x, y} and self.zero(t):
                return True
        return x == y

    def content(self, argi, off, ln):
        return self.c.cont(self.E, self.st, self.c.fn.args[argi], off, ln)

    def at(self, ptr, off, ln):
        return self.c.cont(self.E, self.st, ptr, off, ln)


def succ_zero(E, st, v):
    return E.acmp(st, "eq", v, mk(0, E.width(E.res(st, v)) if not isinstance(v, Const) else v.w))


def succ_nonzero(E, st, v):
    return E.acmp(st, "ne", v, mk(0, E.width(E.res(st, v)) if not isinstance(v, Const) else v.w))


def succ_ge0(E, st, v):
    return E.acmp(st, "sge", v, mk(0, 32))


class GateClient(terms.TermClient):
    def __init__(self, P, fn, succ, models=None, interest=None, cap=6, pure=()):
        terms.TermClient.__init__(self, P, fn, interest)
        self.succ = succ
        self.models = models or {}
        self.cap = cap
        self.good = []
        self.bad = []
        self.nret = 0
        self.pure = set(pure)
        self.bk = {}

    def user_call(self, E, st, i):
        n = i.cname
        if n in self.P.fn and n not in self.models and n not in terms.M:
            s = self.P.sum[n]
            if n in self.pure or (not s.mod and not s.deep and not s.globs):
                t = (n,) + tuple(self.vterm(E, st, o) for o in i.ops)
                self.generic_writes(E, st, i, t)
                self.drop(st, i)
                L = dict(st.ts.L)
                L[i.id] = t
                st.ts = st.ts.with_(L=L)
                return [st]
        return None

    # ---- promotion: once a check of a buffer is known to have succeeded, the buffer is named after the check
    promote = ()

    def note_ptr(self, E, st, ptr):
        b, o = E.ptr(st, ptr)
        k = terms.bkey(b)
        self.bk[k] = b
        return ("@", k, o)

    def on_fact(self, E, st, pred, a, b):
        r = terms.TermClient.on_fact(self, E, st, pred, a, b)
        if self.promote:
            t = self.vterm(E, st, a)
            if t[0] in self.promote:
                self.promote[t[0]](self, E, st, t, pred, self.vterm(E, st, b))
        return r

    def rename(self, E, st, at, old, new):
        """content at a remembered pointer, if still equal to old, is from now on called new"""
        b = self.bk.get(at[1])
        if b is None or at[2] is None or self.cont(E, st, b, at[2], None) != old:
            return False
        C = {k: v for k, v in st.ts.C.items() if not (k[0] is b and (v[0] is None or k[1] + v[0] > at[2]))}
        C[(b, at[2])] = (None, new)
        st.ts = st.ts.with_(C=C)
        return True

    def on_ret(self, E, st, i, val):
        self.nret += 1
        n = 0
        if val is None:
            self.good.append((st, i, val))
            return
        for s in self.succ(E, st.copy(), val):
            n += 1
            self.good.append((s, i, val))
        if n == 0:
            self.bad.append((st, i, val))


def run(P, name, succ=succ_zero, models=None, interest=None, cap=6, limit=60000, pure=(), promote=None, tcap=8):
    f = P.get(name)
    c = GateClient(P, f, succ, models, interest, cap, pure)
    c.promote = promote or {}
    c.tcap = tcap
    E = esp.Engine(f, c, P.fx, limit)
    E.run()
    c.E = E
    c.steps = E.steps
    return c

"""Path-sensitive typestate dataflow over the normalised IR (property simulation).

A run analyses ONE function with ONE client automaton.  The abstract state is
    ts    client typestate (hashable)
    env   SSA value -> alias (what a phi / forwarded load currently stands for)
    con   SSA root -> constraint (unsigned range, signed range, excluded constants)
    rel   set of known comparisons between two non-constant roots
    mem   (base, offset) -> value currently stored there
States with equal typestate are joined when a block has seen too many of them, so the analysis
terminates on every CFG and never enumerates paths unboundedly; no solver is involved.
"""
from ir import Inst, Const, Arg, Global, NEG, SWAP
from front import Broken

U64 = (1 << 64) - 1

SCALE = 1


class scaled:
    """with scaled(k): analyses keep k times as many states apart (any scale is sound; a larger one is more precise)"""

    def __init__(self, k):
        self.k = k

    def __enter__(self):
        global SCALE
        self.old, SCALE = SCALE, self.k

    def __exit__(self, *a):
        global SCALE
        SCALE = self.old


def refine(attempt, scales=(1, 4, 16)):
    """attempt() -> (ok, result). Tried with growing precision until it succeeds; the last complete result counts."""
    from front import Broken
    out = err = None
    for k in scales:
        try:
            with scaled(k):
                ok, r = attempt()
        except Broken as e:
            err = e
            if out is not None:
                break
            continue
        out = r
        if ok:
            break
    if out is None:
        raise err
    return out


def explore(mkc, fn, fx, limit=60000, bad=lambda c: c.bad, eng=None, scales=(1, 4)):
    """run a fresh client over fn, again with more precision while it reports something"""
    def attempt():
        c = mkc()
        c.E = (eng or Engine)(fn, c, fx, limit)
        c.E.run()
        return not bad(c), c
    return refine(attempt, scales)


class BaseClient(object):
    init = ()
    cap = 10
    strict_alias = False
    def memcount(self, E, st, b, h, back):
        pass
    def memtight(self, E, st, k, v, r):
        return r
    def store_range(self, E, st, i, sz):
        """first and last byte a store at a computed offset can touch, (None, None) when unknown"""
        return None, None
    def tighten(self, E, st, phi, r):
        pass
    def pre_call(self, E, st, i):
        pass
    def on_call(self, E, st, i):
        """return None (default effects), or list of states"""
        return None
    def on_fact(self, E, st, pred, a, b):
        return st
    def on_store(self, E, st, i, base, off, size, val):
        return None
    def on_load(self, E, st, i, base, off):
        return None
    def on_free(self, E, st, i):
        return None
    def on_ret(self, E, st, i, val):
        pass
    def on_block(self, E, st, blk):
        return st
    def on_push(self, E, st, blk):
        pass
    def on_phi(self, E, st, phis):
        pass


class State(object):
    __slots__ = ("ts", "env", "con", "rel", "mem", "trail")
    def __init__(s, ts):
        s.ts, s.env, s.con, s.rel, s.mem, s.trail = ts, {}, {}, frozenset(), {}, None
    def copy(s):
        n = State(s.ts)
        n.env, n.con, n.rel, n.mem, n.trail = dict(s.env), dict(s.con), s.rel, dict(s.mem), s.trail
        return n
    def key(s):
        return (s.ts, frozenset(s.env.items()), frozenset(s.con.items()), s.rel, frozenset(s.mem.items()))


def is_const(v):
    return isinstance(v, Const) and v.kind in ("int", "null")


class IntC(object):
    """interned integer constants so that equality works in dict keys"""
    tab = {}


def mk(v, w):
    v &= (1 << w) - 1 if w else U64
    k = (v, w)
    c = IntC.tab.get(k)
    if c is None:
        c = Const(v, w, "int" if w else "null")
        IntC.tab[k] = c
    return c


def intern_const(c):
    if c.kind == "int":
        return mk(c.v, c.w)
    if c.kind == "null":
        return mk(0, 0)
    return c


PURE = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "gep", "trunc",
        "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "icmp", "select", "freeze"}


def s_of(v, w):
    return v - (1 << w) if w and v >= (1 << (w - 1)) else v


def fold(op, a, b, w):
    m = (1 << w) - 1
    if op == "add": return (a + b) & m
    if op == "sub": return (a - b) & m
    if op == "mul": return (a * b) & m
    if op == "and": return a & b
    if op == "or": return a | b
    if op == "xor": return a ^ b
    if op == "shl": return (a << b) & m if b < w else None
    if op == "lshr": return a >> b if b < w else None
    if op == "ashr": return (s_of(a, w) >> b) & m if b < w else None
    if op == "udiv": return a // b if b else None
    if op == "urem": return a % b if b else None
    if op in ("sdiv", "srem"):
        if not b:
            return None
        x, y = s_of(a, w), s_of(b, w)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return (q if op == "sdiv" else x - q * y) & m
    return None


def cmpc(pred, a, b, w):
    if pred == "eq": return a == b
    if pred == "ne": return a != b
    if pred[0] == "s":
        a, b = s_of(a, w), s_of(b, w)
    return {"gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[pred[1:]]


class FnInfo(object):
    """per-function precomputation shared by all runs"""
    def __init__(self, fn):
        self.fn = fn
        self.deps = {}
        # RPO
        seen, order = set(), []
        st = [(fn.blocks[0], iter(fn.blocks[0].succs))]
        seen.add(fn.blocks[0])
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(s.succs)))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: k for k, b in enumerate(order)}
        self.order = order
        self.headers = {t for b in order for t in b.succs if self.rpo.get(t, 1 << 30) <= self.rpo[b]}
        # users of each value through pure ops (for live roots)
        for b in fn.blocks:
            for i in b.insts:
                self.dep(i)
        self._live()

    def dep(self, i, depth=0):
        if not isinstance(i, Inst):
            return frozenset((i,)) if isinstance(i, Arg) else frozenset()
        d = self.deps.get(i)
        if d is not None:
            return d
        if i.op in PURE or i.bb is None:
            self.deps[i] = frozenset((i,))
            s = {i}
            for o in i.ops:
                s |= self.dep(o, depth + 1)
            d = frozenset(s)
        else:
            d = frozenset((i,))
        self.deps[i] = d
        return d

    def _live(self):
        """live-in sets of SSA insts per block (through phi edges too)"""
        fn = self.fn
        use, dfn = {}, {}
        for b in fn.blocks:
            u, d = set(), set()
            for i in b.insts:
                if i.op != "phi":
                    for o in i.ops:
                        for x in self.dep(o):
                            if isinstance(x, Inst) and x not in d and x.bb is not None:
                                u.add(x)
                    if i.op == "call" and isinstance(i.callee, Inst):
                        for x in self.dep(i.callee):
                            if x not in d:
                                u.add(x)
                d.add(i)
            use[b], dfn[b] = u, d
        live = {b: set(use[b]) for b in fn.blocks}
        phiuse = {}
        for b in fn.blocks:
            for i in b.insts:
                if i.op != "phi":
                    break
                for v, p in i.inc:
                    for x in self.dep(v):
                        if isinstance(x, Inst):
                            phiuse.setdefault(p, set()).add(x)
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                out = set(phiuse.get(b, ()))
                for s in b.succs:
                    out |= live[s]
                n = use[b] | (out - dfn[b])
                if len(n) > len(live[b]):
                    live[b] = n
                    ch = True
        # phis of the block itself are live at its entry for env purposes
        self.live = {b: frozenset(live[b] | {i for i in b.insts if i.op == "phi"}) for b in fn.blocks}


_info = {}


def info(fn):
    r = _info.get(fn)
    if r is None:
        r = _info[fn] = FnInfo(fn)
    return r


NOEFF = ("llvm.dbg.", "llvm.lifetime.", "llvm.assume", "llvm.stacksave", "llvm.stackrestore")


class Engine(object):
    def __init__(self, fn, client, effects, limit=60000):
        self.fn, self.c, self.fx = fn, client, effects
        self.info = info(fn)
        self.steps = 0
        self.limit = limit * SCALE
        self.k = SCALE
        self.cnt = {}
        self.flags = getattr(client, "flags", False) or SCALE > 1
        self.escaped = None

    # ---- value resolution -------------------------------------------------
    def res(self, st, v):
        n = 0
        while True:
            if isinstance(v, Const):
                return intern_const(v) if v.kind != "undef" else v
            t = st.env.get(v)
            if t is None:
                if isinstance(v, Inst) and (v.op in ("bitcast", "freeze") or v.op == "call" and v.cname == "llvm.threadlocal.address.p0"):
                    v = v.ops[0]
                    continue
                return v
            v = t
            n += 1
            if n > 60:
                return v

    def ev(self, st, v, d=0):
        """constant value (int) or None"""
        v = self.res(st, v)
        if isinstance(v, Const):
            return v.v if v.kind in ("int", "null") else None
        if not isinstance(v, Inst):
            return None
        c = st.con.get(v)
        if c is not None and c[0] == c[1]:
            return c[0]
        if d > 12 or v.op not in PURE:
            return None
        if v.op in ("zext", "trunc", "sext", "ptrtoint", "inttoptr"):
            a = self.ev(st, v.ops[0], d + 1)
            if a is None:
                return None
            if v.op == "sext":
                a = s_of(a, getattr(self.res(st, v.ops[0]), "w", 64) or v.ops[0].w)
            return a & ((1 << v.w) - 1) if v.w else a
        if v.op == "icmp":
            return self.evcmp(st, v.pred, v.ops[0], v.ops[1], d + 1)
        if v.op == "select":
            k = self.ev(st, v.ops[0], d + 1)
            if k is None:
                return None
            return self.ev(st, v.ops[1] if k else v.ops[2], d + 1)
        if v.op == "gep":
            return None
        if len(v.ops) == 2 and v.w:
            a, b = self.ev(st, v.ops[0], d + 1), self.ev(st, v.ops[1], d + 1)
            if a is not None and b is not None:
                return fold(v.op, a, b, v.w)
            if v.op == "and" and (a == 0 or b == 0):
                return 0
        return None

    def width(self, v):
        w = getattr(v, "w", 0)
        if isinstance(v, Arg):
            t = v.ty
            return int(t[1:]) if t.startswith("i") and t[1:].isdigit() else 64
        return w or 64

    def rng(self, st, v, d=0):
        """(ulo, uhi, slo, shi, excl) of a resolved value"""
        v = self.res(st, v)
        w = self.width(v)
        if isinstance(v, Const):
            if v.kind == "undef":
                return (0, (1 << w) - 1, -(1 << (w - 1)), (1 << (w - 1)) - 1, frozenset())
            s = s_of(v.v, w)
            return (v.v, v.v, s, s, frozenset())
        k = st.con.get(v)
        if k is not None:
            return k
        m = (1 << w) - 1
        full = (0, m, -(1 << (w - 1)) if w > 1 else 0, (1 << (w - 1)) - 1 if w > 1 else 1, frozenset())
        if isinstance(v, (Global,)):
            return (1, m, full[2], full[3], frozenset((0,)))
        if isinstance(v, Inst):
            if v.op == "alloca":
                return (1, m, full[2], full[3], frozenset((0,)))
            if v.op == "gep" and d < 6:
                b = self.rng(st, v.ops[0], d + 1)
                if 0 in b[4] or b[0] > 0:
                    return (1, m, full[2], full[3], frozenset((0,)))
            if v.op == "zext" and d < 6:
                b = self.rng(st, v.ops[0], d + 1)
                return (b[0], b[1], b[0], b[1], b[4])
            if v.op == "sext" and d < 6:
                b = self.rng(st, v.ops[0], d + 1)
                if b[2] >= 0:
                    return (b[2], b[3], b[2], b[3], frozenset(x for x in b[4]))
                return (0, m, b[2], b[3], frozenset())
            if v.op in ("add", "sub") and d < 6 and w > 1:
                b = self.ev(st, v.ops[1])
                if b is not None:
                    a = self.rng(st, v.ops[0], d + 1)
                    k = s_of(b, w) if v.op == "add" else -s_of(b, w)
                    lo, hi, sl, sh = 0, m, full[2], full[3]
                    if a[0] + k >= 0 and a[1] + k <= m:
                        lo, hi = a[0] + k, a[1] + k
                    if a[2] + k >= full[2] and a[3] + k <= full[3]:
                        sl, sh = a[2] + k, a[3] + k
                    if lo <= hi and hi <= full[3] and (lo > 0 or hi < m):
                        sl, sh = max(sl, lo), min(sh, hi)
                    if sl <= sh and sl >= 0:
                        lo, hi = max(lo, sl), min(hi, sh)
                    if lo <= hi and sl <= sh:
                        return (lo, hi, sl, sh, frozenset())
            if v.op == "and" and d < 6:
                b = self.ev(st, v.ops[1])
                if b is not None and b < (1 << (w - 1)):
                    return (0, b, 0, b, frozenset())
            if v.op == "urem" and d < 6:
                b = self.ev(st, v.ops[1])
                if b:
                    return (0, b - 1, 0, b - 1, frozenset())
            if v.op in ("mul", "udiv", "sdiv", "srem", "shl") and d < 6 and w > 1:
                b = self.ev(st, v.ops[1])
                a = self.rng(st, v.ops[0], d + 1)
                if b and b < 1 << (w - 1) and a[2] >= 0:
                    if v.op == "shl":
                        b = 1 << min(b, 64)
                    if v.op in ("mul", "shl"):
                        if a[3] * b <= full[3]:
                            return (a[2] * b, a[3] * b, a[2] * b, a[3] * b, frozenset())
                    elif v.op == "srem":
                        h = min(b - 1, a[3])
                        return (0, h, 0, h, frozenset())
                    else:
                        return (a[2] // b, a[3] // b, a[2] // b, a[3] // b, frozenset())
            if v.op == "lshr" and d < 6:
                b = self.ev(st, v.ops[1])
                if b and b < w:
                    h = m >> b
                    return (0, h, 0, h, frozenset())
        return full

    def evcmp(self, st, pred, a, b, d=0):
        x, y = self.ev(st, a, d), self.ev(st, b, d)
        ra, rb = self.res(st, a), self.res(st, b)
        w = max(self.width(ra), self.width(rb)) if not (is_const(ra) and ra.w) else self.width(rb)
        w = self.width(ra) if not isinstance(ra, Const) else self.width(rb)
        if x is not None and y is not None:
            return int(cmpc(pred, x, y, w))
        if ra is rb and not isinstance(ra, Const):
            return int(pred in ("eq", "uge", "ule", "sge", "sle"))
        A, B = self.rng(st, ra), self.rng(st, rb)
        if pred in ("eq", "ne"):
            if A[0] > B[1] or B[0] > A[1] or (y is not None and y in A[4]) or (x is not None and x in B[4]):
                return int(pred == "ne")
            if A[2] > B[3] or B[2] > A[3]:
                return int(pred == "ne")
        else:
            lo, hi = (2, 3) if pred[0] == "s" else (0, 1)
            a0, a1, b0, b1 = A[lo], A[hi], B[lo], B[hi]
            p = pred[1:]
            if p == "lt":
                if a1 < b0: return 1
                if a0 >= b1: return 0
            elif p == "le":
                if a1 <= b0: return 1
                if a0 > b1: return 0
            elif p == "gt":
                if a0 > b1: return 1
                if a1 <= b0: return 0
            elif p == "ge":
                if a0 >= b1: return 1
                if a1 < b0: return 0
        r = self.relq(st, pred, ra, rb)
        return r

    def relq(self, st, pred, a, b):
        for (p, x, y) in st.rel:
            if x is a and y is b:
                q = p
            elif x is b and y is a:
                q = SWAP[p]
            else:
                continue
            if q == pred: return 1
            if q == NEG[pred]: return 0
            if q == "eq":
                return int(pred in ("ule", "uge", "sle", "sge"))
            if q[1:] in ("lt", "gt") and pred == "ne": return 1
            if q[1:] in ("lt", "gt") and pred == "eq": return 0
            if q[0] == pred[0] and q[1:] == "lt" and pred[1:] == "le": return 1
            if q[0] == pred[0] and q[1:] == "gt" and pred[1:] == "ge": return 1
        return None

    def ptr(self, st, v):
        """-> (base root, constant offset or None)"""
        off = 0
        n = 0
        while True:
            v = self.res(st, v)
            if isinstance(v, Inst) and v.op == "gep":
                o, var = v.gep
                if off is not None:
                    off += o
                    for x, sc in var:
                        k = self.ev(st, x)
                        if k is None:
                            off = None
                            break
                        off += s_of(k, self.width(self.res(st, x))) * sc
                v = v.ops[0]
                n += 1
                if n > 60:
                    return v, None
                continue
            if isinstance(v, Inst) and v.op == "phi":
                b = self.fibase(v)
                if b is not None and b is not v:
                    b2, _ = self.ptr(st, b) if not (isinstance(b, Inst) and b.op == "phi") else (b, None)
                    return b2, None
            return v, off

    def fibase(self, v, seen=None):
        """flow-insensitive base of a pointer phi when all its inputs agree"""
        seen = set() if seen is None else seen
        if isinstance(v, Inst):
            if v in seen:
                return None
            if v.op in ("gep", "bitcast", "freeze"):
                return self.fibase(v.ops[0], seen)
            if v.op == "phi":
                seen.add(v)
                bs = []
                for o in v.ops:
                    if isinstance(o, Const):
                        if o.kind == "undef":
                            continue
                        return v
                    b = self.fibase(o, seen)
                    if b is not None and b not in bs:
                        bs.append(b)
                return bs[0] if len(bs) == 1 else v
        return v

    # ---- assumptions --------------------------------------------------------
    def setcon(self, st, v, k):
        ulo, uhi, slo, shi, ex = k
        w = self.width(v)
        while ulo in ex: ulo += 1
        while uhi in ex: uhi -= 1
        exs = {s_of(e, w) for e in ex}
        while slo in exs: slo += 1
        while shi in exs: shi -= 1
        half = 1 << (w - 1)
        if w > 1:
            if uhi < half:
                slo, shi = max(slo, ulo), min(shi, uhi)
            if slo >= 0:
                ulo, uhi = max(ulo, slo), min(uhi, shi)
            if shi < 0:
                ulo, uhi = max(ulo, slo + 2 * half), min(uhi, shi + 2 * half)
        if ulo > uhi or slo > shi:
            return False
        ex = frozenset(e for e in ex if ulo <= e <= uhi)
        st.con[v] = (ulo, uhi, slo, shi, ex)
        return True

    def assume(self, st, v, truth):
        """list of states in which i1/int value v is (non)zero"""
        v = self.res(st, v)
        if isinstance(v, Const):
            if v.kind == "undef":
                return [st]
            return [st] if bool(v.v) == truth else []
        if isinstance(v, Inst):
            if v.op == "icmp":
                return self.acmp(st, v.pred if truth else NEG[v.pred], v.ops[0], v.ops[1])
            if v.op == "xor" and isinstance(v.ops[1], Const) and v.ops[1].v == 1 and v.w == 1:
                return self.assume(st, v.ops[0], not truth)
            if v.w == 1 and v.op in ("and", "or"):
                a, b = v.ops
                if (v.op == "and") == truth:
                    out = []
                    for s in self.assume(st, a, truth):
                        out += self.assume(s, b, truth)
                    return out
                out = []
                for s in self.assume(st.copy(), a, truth):
                    out.append(s)
                for s in self.assume(st, a, not truth):
                    out += self.assume(s, b, truth)
                return out
            if v.w == 1 and v.op == "select":
                out = []
                for s in self.assume(st.copy(), v.ops[0], True):
                    out += self.assume(s, v.ops[1], truth)
                for s in self.assume(st, v.ops[0], False):
                    out += self.assume(s, v.ops[2], truth)
                return out
        return self.acmp(st, "ne" if truth else "eq", v, mk(0, self.width(v) if getattr(v, "w", 0) else 0))

    def acmp(self, st, pred, a, b):
        ra, rb = self.res(st, a), self.res(st, b)
        if isinstance(ra, Const) and not isinstance(rb, Const):
            ra, rb, pred = rb, ra, SWAP[pred]
        k = self.evcmp(st, pred, ra, rb)
        if k == 0:
            return []
        kb = self.ev(st, rb)
        if kb is None and self.ev(st, ra) is not None:
            ra, rb, pred = rb, ra, SWAP[pred]
            kb = self.ev(st, rb)
        if isinstance(ra, Inst):
            # unwrap width changes of booleans / small ints
            if kb is not None and ra.op in ("zext", "sext", "trunc"):
                x = self.res(st, ra.ops[0])
                wx = self.width(x)
                if ra.op == "zext" and wx == 1 and pred in ("eq", "ne") and kb in (0, 1):
                    return self.assume(st, x, (kb == 1) == (pred == "eq"))
                if ra.op == "zext" and (pred in ("eq", "ne") or pred[0] == "u" or kb < (1 << (ra.w - 1))) and kb < (1 << wx):
                    p2 = pred if pred in ("eq", "ne") else "u" + pred[1:]
                    return self._fact(st, p2, x, mk(kb, wx), also=(pred, ra, rb))
                if ra.op == "sext" and pred in ("eq", "ne") or ra.op == "sext" and pred[0] == "s":
                    ks = s_of(kb, ra.w)
                    if -(1 << (wx - 1)) <= ks < (1 << (wx - 1)):
                        return self._fact(st, pred, x, mk(ks, wx), also=(pred, ra, rb))
                if ra.op == "trunc" and ra.w == 1 and pred in ("eq", "ne"):
                    return self.assume(st, x, (kb == 1) == (pred == "eq")) if wx <= 8 else self._fact(st, pred, ra, rb)
            if kb is not None and ra.op in ("sdiv", "udiv"):
                r = self.quot(st, pred, ra, kb)
                if r is not None:
                    out = []
                    for s in r:
                        out += self._fact(s, pred, ra, rb)
                    return out
            if kb is not None and pred in ("eq", "ne") and ra.op == "and" and ra.w == 1:
                return self.assume(st, ra, (kb == 1) == (pred == "eq"))
            if kb is not None and ra.w == 1 and pred in ("eq", "ne") and ra.op in ("icmp", "xor", "or"):
                return self.assume(st, ra, (kb == 1) == (pred == "eq"))
            if kb is not None and pred in ("eq", "ne") and ra.op == "xor" and self.ev(st, ra.ops[1]) is None:
                if kb == 0:
                    return self.acmp(st, pred, ra.ops[0], ra.ops[1])
            if kb is not None and pred in ("eq", "ne") and ra.op == "sub" and kb == 0 and not isinstance(ra.ops[1], Const):
                return self.acmp(st, pred, ra.ops[0], ra.ops[1])
        return self._fact(st, pred, ra, rb)

    def quot(self, st, pred, q, k):
        """a quotient by a constant was compared with a constant: what that says about the dividend"""
        c = self.ev(st, q.ops[1])
        w = self.width(q)
        sg = q.op == "sdiv"
        k = s_of(k, w) if sg else k
        if c is None or (s_of(c, w) if sg else c) <= 0 or k < 0 or sg and (k + 1) * c >= 1 << (w - 1) or pred[0] == ("u" if sg else "s"):
            return None
        p = "s" if sg else "u"
        lo, hi = (k * c if k or not sg else -(c - 1)), k * c + c - 1
        x = q.ops[0]

        def le(s, v):
            return self.acmp(s, p + "le", x, mk(v & ((1 << w) - 1), w)) if sg or v >= 0 else []

        def ge(s, v):
            return self.acmp(s, p + "ge", x, mk(v & ((1 << w) - 1), w)) if sg or v > 0 else [s]
        if pred == "eq":
            return [t for s in ge(st, lo) for t in le(s, hi)]
        if pred == "ne":
            return le(st.copy(), lo - 1) + ge(st.copy(), hi + 1)
        if pred[1:] == "lt":
            return le(st, lo - 1)
        if pred[1:] == "le":
            return le(st, hi)
        return ge(st, hi + 1 if pred[1:] == "gt" else lo)

    def _fact(self, st, pred, a, b, also=None):
        kb = self.ev(st, b)
        if self.evcmp(st, pred, a, b) == 0:
            return []
        if kb is not None and not isinstance(a, Const):
            ulo, uhi, slo, shi, ex = self.rng(st, a)
            w = self.width(a)
            ks = s_of(kb, w)
            if pred == "eq":
                if not (ulo <= kb <= uhi) or kb in ex or not (slo <= ks <= shi):
                    return []
                ulo = uhi = kb
                slo = shi = ks
            elif pred == "ne": ex = ex | {kb}
            elif pred == "ult": uhi = min(uhi, kb - 1)
            elif pred == "ule": uhi = min(uhi, kb)
            elif pred == "ugt": ulo = max(ulo, kb + 1)
            elif pred == "uge": ulo = max(ulo, kb)
            elif pred == "slt": shi = min(shi, ks - 1)
            elif pred == "sle": shi = min(shi, ks)
            elif pred == "sgt": slo = max(slo, ks + 1)
            elif pred == "sge": slo = max(slo, ks)
            if len(ex) > 24:
                ex = frozenset(sorted(ex)[:24])
            if not self.setcon(st, a, (ulo, uhi, slo, shi, ex)):
                return []
        elif not isinstance(a, Const) and not isinstance(b, Const):
            if len(st.rel) < 40:
                st.rel = st.rel | {(pred, a, b)}
            if pred in ("slt", "sgt", "ult", "ugt"):
                x, y = (a, b) if pred[1:] == "lt" else (b, a)
                X, Y = self.rng(st, x), self.rng(st, y)
                if pred[0] == "s":
                    if X[3] >= Y[3] and not self.setcon(st, x, (X[0], X[1], X[2], Y[3] - 1, X[4])):
                        return []
                    X = self.rng(st, x)
                    if Y[2] <= X[2] and X[2] > -(1 << (self.width(y) - 1)) and not self.setcon(st, y, (Y[0], Y[1], X[2] + 1, Y[3], Y[4])):
                        return []
                else:
                    if X[1] >= Y[1] and not self.setcon(st, x, (X[0], Y[1] - 1, X[2], X[3], X[4])):
                        return []
                    X = self.rng(st, x)
                    if Y[0] <= X[0] and X[0] > 0 and not self.setcon(st, y, (X[0] + 1, Y[1], Y[2], Y[3], Y[4])):
                        return []
        outs = [st]
        r = self.c.on_fact(self, st, pred, a, b)
        if r is None:
            return []
        outs = r if isinstance(r, list) else [r]
        if also:
            o2 = []
            for s in outs:
                r = self.c.on_fact(self, s, *also)
                if r is None:
                    continue
                o2 += r if isinstance(r, list) else [r]
            outs = o2
        return outs

    # ---- invalidation -------------------------------------------------------
    def forget(self, st, i):
        """instruction i is about to receive a new dynamic value"""
        if i in st.con:
            del st.con[i]
        st.env.pop(i, None)
        deps = self.info.deps
        bad = [p for p, t in st.env.items() if isinstance(t, Inst) and i in deps.get(t, ())]
        for p in bad:
            t = st.env.pop(p)
            k = st.con.get(t)
            if k is None and t is not i:
                k = None
            if k is not None and p not in st.con:
                st.con[p] = k
        badc = [x for x in st.con if isinstance(x, Inst) and x is not i and i in deps.get(x, ()) and x.op in PURE]
        for x in badc:
            del st.con[x]
        if st.rel:
            if any((isinstance(x, Inst) and i in deps.get(x, ())) or (isinstance(y, Inst) and i in deps.get(y, ())) for _, x, y in st.rel):
                st.rel = frozenset(r for r in st.rel if not ((isinstance(r[1], Inst) and i in deps.get(r[1], ())) or (isinstance(r[2], Inst) and i in deps.get(r[2], ()))))
        badm = [k for k, v in st.mem.items() if k[0] is i or (isinstance(v[1], Inst) and i in deps.get(v[1], ()))]
        for k in badm:
            del st.mem[k]

    # ---- memory -------------------------------------------------------------
    def kill_base(self, st, base, lo=None, hi=None):
        for k in list(st.mem):
            if k[0] is base:
                if lo is None or (k[1] < hi and k[1] + st.mem[k][0] > lo):
                    del st.mem[k]

    def may_alias_unknown(self, base):
        """could an unknown pointer point into `base`?"""
        if isinstance(base, Inst) and base.op == "alloca":
            return base in self.esc()
        return True

    def esc(self):
        """allocas whose address is stored somewhere or passed to a capturing callee"""
        if self.escaped is None:
            e = set()
            for i in self.fn.insts():
                if i.op == "store" and isinstance(i.ops[0], Inst):
                    b = self.fibase(i.ops[0])
                    if isinstance(b, Inst) and b.op == "alloca" and i.ops[0].ty == "ptr":
                        e.add(b)
                elif i.op == "call" and self.fx.captures(i):
                    for o in i.ops:
                        b = self.fibase(o) if isinstance(o, Inst) else None
                        if isinstance(b, Inst) and b.op == "alloca":
                            e.add(b)
            self.escaped = e
        return self.escaped

    def distinct(self, b1, b2):
        """two different base roots that certainly do not overlap"""
        if b1 is b2:
            return False
        def ident(b):
            return isinstance(b, Global) or (isinstance(b, Inst) and (b.op == "alloca" or (b.op == "call" and self.fx.is_alloc(b))))
        if ident(b1) and ident(b2):
            return True
        if self.c.strict_alias:
            for x, y in ((b1, b2), (b2, b1)):
                if isinstance(x, Inst) and x.op in ("load", "phi", "call") and (isinstance(y, (Arg, Global)) or isinstance(y, Inst) and y.op == "alloca"):
                    return True     # a heap object is not the argument object (or the local) that refers to it
        for x, y in ((b1, b2), (b2, b1)):
            if isinstance(x, Inst) and x.op == "alloca" and x not in self.esc():
                return True
        if isinstance(b1, Arg) and isinstance(b2, Arg):
            return True     # stated assumption: distinct pointer parameters do not overlap
        return False

    def do_store(self, st, i):
        val, p = i.ops
        base, off = self.ptr(st, p)
        sz = i.size
        v = self.res(st, val)
        if isinstance(v, Inst) and v.op in PURE:
            k = self.ev(st, v)
            if k is not None and v.w:
                v = mk(k, v.w)
        r = self.c.on_store(self, st, i, base, off, sz, v)
        sts = r if r is not None else [st]
        for s in sts:
            if off is None:
                self.kill_base(s, base, *self.c.store_range(self, s, i, sz))
            else:
                self.kill_base(s, base, off, off + sz)
            for k in list(s.mem):
                if k[0] is not base and not self.distinct(k[0], base):
                    # typed heuristics: same offset+size overlap required when both are param/loaded objects
                    if off is None or (k[1] < off + sz and k[1] + s.mem[k][0] > off):
                        del s.mem[k]
            if off is not None:
                s.mem[(base, off)] = (sz, v)
        return sts

    def do_load(self, st, i):
        base, off = self.ptr(st, i.ops[0])
        r = self.c.on_load(self, st, i, base, off)
        if r is not None:
            return r
        self.forget(st, i)
        if off is not None:
            m = st.mem.get((base, off))
            if m is not None and m[0] == i.size:
                if m[1] is not i:
                    v = m[1]
                    if isinstance(v, Const) and v.kind == "int" and i.w and v.w != i.w:
                        v = mk(v.v, i.w)
                    st.env[i] = v
                return [st]
            if isinstance(base, Global) and base.const and base.init_ints is not None and off == 0 and i.w:
                st.env[i] = mk(base.init_ints, i.w)
                return [st]
            if m is None and not any(k[0] is base and k[1] < off + i.size and k[1] + st.mem[k][0] > off for k in st.mem):
                if not i.vol and i not in self.info.dep(base) and base is not i:      # p = p->next: the cell was that of the old p
                    st.mem[(base, off)] = (i.size, i)
        return [st]

    def clobber(self, st, i):
        self.fx.clobber(self, st, i)

    # ---- main loop ----------------------------------------------------------
    def run(self):
        import heapq
        fn = self.fn
        st0 = State(self.c.init)
        entry = fn.blocks[0]
        self.inq = {}
        self.seen = {}
        self.merged = {}
        self.store = {}
        self.tmerged = {}
        self.mphi = {}
        self.njoin = {}
        self.tjoin = getattr(self.c, "join_ts", None)
        self.heap = []
        self.push(entry, st0)
        while self.heap:
            k = heapq.heappop(self.heap)
            b = self.info.order[k]
            pend = self.inq.pop(b, None)
            if not pend:
                continue
            for st in pend:
                self.steps += 1
                if self.steps > self.limit:
                    raise Broken("analysis budget exceeded in %s (%s)" % (fn.name, type(self.c).__name__))
                self.block(b, st)

    def push(self, b, st):
        import heapq
        self.c.on_push(self, st, b)
        # prune to live
        live = self.info.live[b]
        keepv = set()
        for k, (sz, v) in st.mem.items():
            if isinstance(v, Inst):
                keepv.add(v)
            if isinstance(k[0], Inst):
                keepv.add(k[0])
        ck = self.c.keep(st) if hasattr(self.c, "keep") else ()
        if ck and self.c.strict_alias:
            keepv |= ck
        env = {p: t for p, t in st.env.items() if p in live or p in keepv}
        tg = set()
        for t in env.values():
            if isinstance(t, Inst):
                tg |= self.info.dep(t)
        if self.c.strict_alias:
            work = list(tg)
            while work:
                t = st.env.get(work.pop())
                if isinstance(t, Inst):
                    new = self.info.dep(t) - tg
                    tg |= new
                    work += new
        keep = live | tg | keepv
        st.env = {p: t for p, t in st.env.items() if p in keep}
        if self.c.strict_alias:
            # facts about computed values stay as long as what they are computed from is still used
            ex = set()
            for x in [x for r in st.rel for x in r[1:]] + list(st.con):
                if isinstance(x, Inst) and x not in keep and x.op in PURE:
                    d = self.info.dep(x)
                    if all(y in keep or y.op in PURE and y is not x or y in ck for y in d if isinstance(y, Inst) and y is not x):
                        ex.add(x)
            keep = keep | ex
        st.con = {v: k for v, k in st.con.items() if not isinstance(v, Inst) or v in keep or v in ck}
        if st.rel:
            st.rel = frozenset(r for r in st.rel if all(not isinstance(x, Inst) or x in keep or x in ck for x in r[1:]))
        st.mem = {k: v for k, v in st.mem.items() if not isinstance(k[0], Inst) or k[0] in keep or k[0].op == "alloca" or k[0] in ck}
        seen = self.seen.setdefault(b, {})
        gk = self.group(b, st)
        if self.tjoin is not None:
            tk = self.nulls(b, st)
            tm = self.tmerged.get((b, tk))
            if tm is None and gk not in seen and len(seen) >= self.k * (self.c.tcap if b in self.info.headers else self.c.tcap * 12):
                tm = st.copy()
                for ts, l in list(seen.items()):
                    for o in list(self.store.get((b, ts), ())) + ([self.merged[(b, ts)]] if (b, ts) in self.merged else []):
                        if self.nulls(b, o) == tk:
                            tm = self.tjoin2(b, tm, o)
                self.tmerged[(b, tk)] = tm
                self.inq[b] = [s for s in self.inq.get(b, ()) if self.nulls(b, s) != tk] + [tm.copy()]
                heapq.heappush(self.heap, self.info.rpo[b])
                return
            if tm is not None:
                j = self.tjoin2(b, tm, st, True)
                if j.key() == tm.key():
                    return
                self.tmerged[(b, tk)] = j
                self.inq[b] = [s for s in self.inq.get(b, ()) if self.nulls(b, s) != tk] + [j.copy()]
                heapq.heappush(self.heap, self.info.rpo[b])
                return
        lst = seen.setdefault(gk, [])
        mg = self.merged.get((b, gk))
        if mg is not None:
            nj = self.njoin[(b, gk)] = self.njoin.get((b, gk), 0) + 1
            j = self.join(mg, st, nj > 3 if b in self.info.headers else nj > 60)
            if j.key() == mg.key():
                return
            self.merged[(b, gk)] = j
            new = j
            new = new.copy()
        else:
            key = st.key()
            if key in lst:
                return
            lst.append(key)
            if len(lst) > self.k * (self.c.cap if b.succs else max(self.c.cap, getattr(self.c, "exit_cap", 0))):
                # join everything seen so far
                j = st
                self.merged[(b, gk)] = j
                allst = self.store.get((b, gk), []) if hasattr(self, "store") else []
                for o in allst:
                    j = self.join(j, o)
                self.merged[(b, gk)] = j
                new = j.copy()
                self.inq[b] = [s for s in self.inq.get(b, []) if self.group(b, s) != gk]
            else:
                self.store.setdefault((b, gk), []).append(st.copy())
                new = st
        q = self.inq.setdefault(b, [])
        if mg is not None:
            q[:] = [s for s in q if self.group(b, s) != gk]
        q.append(new)
        heapq.heappush(self.heap, self.info.rpo[b])

    def nulls(self, b, st):
        """the pointers in use that are known to be null: states that differ in them are kept apart when the client asks for it"""
        if not getattr(self.c, "nullsplit", False):
            return None
        live = self.info.live[b]
        out = set()
        for p in live:
            if isinstance(p, Inst) and p.op == "phi":
                t = st.env.get(p, p)
                k = st.con.get(t)
                if isinstance(t, Const) and t.kind == "null" or k is not None and k[1] == 0 and not p.w:
                    out.add(p)
        return frozenset(out)

    def group(self, b, st):
        """states are only merged with states of the same group: same typestate and same values of live flags"""
        if not self.flags:
            return (st.ts, self.nulls(b, st)) if getattr(self.c, "nullsplit", False) else st.ts
        live = self.info.live[b]
        return (st.ts, frozenset((p, t.v) for p, t in st.env.items() if p in live and isinstance(p, Inst) and p.op == "phi" and p.w and p.w <= 32 and
                                 isinstance(t, Const) and t.kind == "int" and len(p.inc) > 1 and not self.counter(p)), self.nulls(b, st))

    def counter(self, p):
        r = self.cnt.get(p)
        if r is None:
            r = self.cnt[p] = any(isinstance(v, Inst) and v.op in PURE and p in self.info.dep(v) and not self.flagchain(p, v) for v, _ in p.inc)
        return r

    def tjoin2(self, blk, a, b, widen=False):
        n = self.join(a, b, widen)
        n.ts = self.tjoin(self, blk, a.ts, b.ts)
        return n

    def join(self, a, b, widen=False):
        n = State(a.ts)
        n.trail = a.trail
        for p, t in a.env.items():
            if b.env.get(p) is t:
                n.env[p] = t
        if self.c.strict_alias:
            # values that differ between the states but are equal to each other in both
            cls = {}
            for p in sorted((p for p in set(a.env) | set(b.env) if p not in n.env and isinstance(p, Inst)), key=lambda x: x.id):
                cls.setdefault((self.res(a, p), self.res(b, p)), []).append(p)
            for l in cls.values():
                for q in l[1:]:
                    n.env[q] = l[0]
        for v in set(a.con) | set(b.con):
            if v in a.con and v in b.con:
                x, y = a.con[v], b.con[v]
                k = (min(x[0], y[0]), max(x[1], y[1]), min(x[2], y[2]), max(x[3], y[3]), x[4] & y[4])
                if widen and k[:4] != x[:4]:
                    w = self.width(v)
                    T = 1 << 20
                    k = (k[0] if k[0] == x[0] else 0,
                         k[1] if k[1] == x[1] else (1 << w) - 1,
                         k[2] if k[2] == x[2] else (0 if k[2] >= 0 else -(1 << (w - 1)) if w > 1 else 0),
                         k[3] if k[3] == x[3] else ((1 << (w - 1)) - 1 if w > 1 else 1), k[4])
                n.con[v] = k
        # phis / loads aliased differently: keep joined ranges
        for p in set(a.env) | set(b.env):
            if p in n.env or not isinstance(p, Inst):
                continue
            x, y = self.rng(a, p), self.rng(b, p)
            k = (min(x[0], y[0]), max(x[1], y[1]), min(x[2], y[2]), max(x[3], y[3]), frozenset())
            ex = set()
            for e in (0,):
                if (e in x[4] or x[0] > e) and (e in y[4] or y[0] > e):
                    ex.add(e)
            w = self.width(p)
            lo_u, hi_u, lo_s, hi_s = k[:4]
            if widen:
                # only keep bounds that are not moving
                lo_u = k[0] if k[0] in (x[0], 1) and x[0] <= y[0] else 0
                hi_u = k[1] if x[1] >= y[1] else (1 << w) - 1
                lo_s = k[2] if x[2] <= y[2] else (0 if k[2] >= 0 else -(1 << (w - 1)))
                hi_s = k[3] if x[3] >= y[3] else (1 << (w - 1)) - 1
            if w > 1 and (lo_u or ex or hi_u != (1 << w) - 1 or lo_s != -(1 << (w - 1)) or hi_s != (1 << (w - 1)) - 1):
                n.con[p] = (lo_u, hi_u, lo_s, hi_s, frozenset(ex))
        n.rel = a.rel & b.rel
        if self.c.strict_alias:
            # a comparison known in one state and implied by the other survives
            for x, y in ((a, b), (b, a)):
                for r in x.rel:
                    if r not in n.rel and len(n.rel) < 40 and r[0] != "ne" and not (r[1] in n.env or r[2] in n.env) and self.c.implied(self, y, r):
                        n.rel = n.rel | {r}
            # candidate bounds of loop-carried values that hold in both
            for p, ys in self.c.cands.items():
                if p in n.env or not (p in a.env or p in b.env):
                    continue
                for y in ys:
                    r = ("ule", p, y)
                    if r not in n.rel and len(n.rel) < 60 and self.c.implied(self, a, r) and self.c.implied(self, b, r):
                        n.rel = n.rel | {r}
        lost = []
        for k, v in a.mem.items():
            w = b.mem.get(k)
            if w == v:
                n.mem[k] = v
            elif w is not None and w[0] == v[0] and self.c.strict_alias:
                # the two states may agree on a name for the two values
                for p in sorted({p for p, t in a.env.items() if t is v[1]} | {p for p, t in b.env.items() if t is w[1]}, key=lambda x: getattr(x, "id", 0)):
                    if self.res(a, p) is v[1] and self.res(b, p) is w[1] and p not in n.env:
                        n.mem[k] = (v[0], p)
                        break
                else:
                    if getattr(v[1], "w", 0) and getattr(w[1], "w", 0) == v[1].w and k in self.c.mconst:
                        lost.append((k, v, w))
        for k, v, w in lost:
            # a value kept in memory that differs between the two states gets a name of its own, with the range of both
            m = self.memsym(("j", k), v[1].w)
            x, y = self.rng(a, v[1]), self.rng(b, w[1])
            r = (min(x[0], y[0]), max(x[1], y[1]), min(x[2], y[2]), max(x[3], y[3]), frozenset())
            if widen and v[1] is m and r[:4] != x[:4]:
                continue
            if any(z[1] is m for q, z in n.mem.items() if q != k):
                continue
            self.forget(n, m)
            n.con[m] = r
            n.mem[k] = (v[0], m)
        if hasattr(self.c, "join"):
            self.c.join(self, n, a, b)
        return n

    def memsym(self, key, w):
        m = self.mphi.get(key)
        if m is None:
            m = self.mphi[key] = Inst()
            m.op, m.ops, m.ty, m.w, m.bb, m.id, m.name, m.line, m.file, m.size, m.sf = "memphi", [], "i%d" % w, w, None, -len(self.mphi), "", 0, "", 0, None
        return m

    def block(self, b, st):
        r = self.c.on_block(self, st, b)
        if r is None:
            return
        st = r
        if st.trail is not None or True:
            st.trail = (st.trail, b) if self._trail_len(st) < 400 else st.trail
        states = [st]
        for i in b.insts:
            if i.op == "phi":
                continue
            nxt = []
            for s in states:
                nxt += self.step(s, i)
            states = nxt
            if not states:
                return

    def _trail_len(self, st):
        n = 0
        t = st.trail
        while t is not None and n < 500:
            n += 1
            t = t[0]
        return n

    def trail_lines(self, st):
        out = []
        t = st.trail
        while t is not None:
            b = t[1]
            for i in b.insts:
                if i.line:
                    out.append("%s:%d" % (i.file, i.line))
                    break
            t = t[0]
        out.reverse()
        d = []
        for x in out:
            if not d or d[-1] != x:
                d.append(x)
        return d[-25:]

    def flagchain(self, phi, v, d=0):
        """v is computed from phi by logical operations only, so it takes finitely many values"""
        if v is phi or phi not in self.info.dep(v):
            return True
        if not isinstance(v, Inst) or d > 12:
            return False
        if v.op == "icmp":
            return True
        if v.op == "phi" or v.op not in ("and", "or", "xor", "zext", "trunc", "select", "freeze", "bitcast"):
            return False
        return all(self.flagchain(phi, o, d + 1) for o in v.ops)

    def edge(self, st, b, succ):
        sts = [st]
        for i in succ.insts:
            if i.op != "phi":
                break
            for v, p in i.inc:
                if p is b and isinstance(v, Inst) and v.op in PURE and i in self.info.dep(v) and self.flagchain(i, v):
                    x = v
                    while x.op in ("zext", "trunc", "freeze") and isinstance(x.ops[0], Inst):
                        x = x.ops[0]
                    if x.w == 1 and x.op != "phi":
                        sts = [y if True else None for t in sts for y in ([t] if self.ev(t, x) is not None else self.assume(t.copy(), x, True) + self.assume(t.copy(), x, False))]
        for t in sts:
            self.edge1(t, b, succ)

    def memphi(self, st, h):
        """values computed in a loop body and kept in memory across its back edge become symbols of their own"""
        for k, (sz, v) in list(st.mem.items()):
            if isinstance(v, Inst) and v.op in PURE and v.op not in ("gep", "bitcast") and v.w and self.ev(st, v) is None:
                key = (h, k)
                m = self.memsym(key, v.w)
                r = self.c.memtight(self, st, k, v, self.rng(st, v))
                self.forget(st, m)
                st.con[m] = r
                st.mem[k] = (sz, m)

    def edge1(self, st, b, succ):
        st = st.copy()
        if self.c.strict_alias and succ in self.info.headers and self.info.rpo[succ] <= self.info.rpo[b]:
            self.c.memcount(self, st, b, succ, True)
            self.memphi(st, succ)
        elif self.c.strict_alias and succ in self.info.headers:
            self.c.memcount(self, st, b, succ, False)
        new, extra, carried = [], [], []
        for i in succ.insts:
            if i.op != "phi":
                break
            for v, p in i.inc:
                if p is b:
                    r = self.res(st, v)
                    k = self.ev(st, r)
                    if k is not None and not isinstance(r, Const):
                        r = mk(k, self.width(r) if getattr(r, "w", 0) else i.w)
                    elif isinstance(r, Const) and r.kind != "undef":
                        r = intern_const(r)
                    if self.c.strict_alias and isinstance(v, Inst) and v.op in ("phi", "select") and isinstance(r, Inst) and r is not i and r.op in PURE and i.w and i in self.info.dep(r):
                        v = r
                    if isinstance(v, Inst) and v.op in PURE and i in self.info.dep(v) and not self.flagchain(i, v):
                        # loop-carried value computed from itself: never unrolled
                        k0 = self.loopk(st, i, v)
                        if self.c.strict_alias:
                            k0, rl = self.c.loop_facts(self, st, i, v, k0)
                            extra += rl
                        new.append((i, i, k0))
                        carried.append(i)
                        break
                    if self.c.strict_alias and isinstance(r, Inst) and r.op in PURE and i.w and k is None:
                        self.c.tighten(self, st, i, r)
                    new.append((i, r, self.rng(st, r)))
                    break
        phis = [i for i, _, _ in new]
        self.c.on_phi(self, st, phis)
        same = [i for i, r, k in new if r is i and i not in carried] if self.c.strict_alias else ()
        for i, r, k in new:
            if i not in same:
                self.forget(st, i)
        for i, r, k in new:
            if i in same:
                continue
            if isinstance(r, Const) and r.kind == "undef":
                continue
            if r is i:
                if k is not None:
                    st.con[i] = k
                continue
            if isinstance(r, Inst) and any(p in self.info.dep(r) for p in phis):
                full = self.rng(State(()), i)
                if k != full and i.w:
                    st.con[i] = k
                continue
            st.env[i] = r
        for r in extra:
            # r = (pred, phi, x): holds for the new phi if x did not change with it
            if not (isinstance(r[2], Inst) and any(p in self.info.dep(r[2]) for p in phis)):
                st.rel = st.rel | {r}
        self.push(succ, st)

    def loopk(self, st, phi, v):
        """range that survives an arbitrary number of `phi = phi + c` steps"""
        w = phi.w
        if not w or v.op != "add" or not isinstance(v.ops[1], Const):
            return None
        c = v.ops[1].s
        k = self.rng(st, phi)
        if c > 0:
            # counts up from a known start; an increment of a value bounded above by a guard cannot wrap
            lo, hi = k[0], k[1]
            if lo == 0 and k[2] == 0:
                # after one step it is at least c
                k = (min(c, hi + c), hi, c, k[3], k[4])
                lo = k[0]
            elif lo == hi == k[2] == k[3]:
                # the guard left one value: the next one is known
                k = (lo + c, hi, lo + c, k[3], k[4])
                lo = k[0]
            if hi < (1 << w) - c and hi < (1 << (w - 1)):
                return (lo, (1 << w) - 1, k[2] if k[2] >= 0 else -(1 << (w - 1)), (1 << (w - 1)) - 1, frozenset())
            if k[3] + c <= (1 << (w - 1)) - 1 and k[2] >= 0:
                return (k[2], (1 << (w - 1)) - 1, k[2], (1 << (w - 1)) - 1, frozenset())
        return None

    def leaf(self, st, v, d=0):
        """an undecided comparison the returned sign is computed from"""
        v = self.res(st, v)
        if not isinstance(v, Inst) or d > 5:
            return None
        if v.op == "icmp":
            return v if self.ev(st, v) is None else None
        if v.op in ("zext", "sext", "trunc", "freeze"):
            return self.leaf(st, v.ops[0], d + 1)
        if v.op in ("sub", "add", "or", "and", "xor") and all(isinstance(x, Const) or isinstance(x, Inst) and x.op in ("zext", "sext", "sub", "add", "icmp", "and", "or", "xor") for x in (self.res(st, o) for o in v.ops)):
            for o in v.ops:
                x = self.leaf(st, o, d + 1)
                if x is not None:
                    return x
        return None

    def step(self, st, i):
        op = i.op
        if op in PURE:
            if i in st.con or i in st.env or any(i is t for t in st.env.values()):
                self.forget(st, i)
            if op == "select":
                k = self.ev(st, i.ops[0])
                if k is not None:
                    st.env[i] = self.res(st, i.ops[1] if k else i.ops[2])
                else:
                    out = []
                    for tr in (True, False):
                        for s in self.assume(st.copy(), i.ops[0], tr):
                            s.env[i] = self.res(s, i.ops[1] if tr else i.ops[2])
                            out.append(s)
                    return out
            return [st]
        if op == "load":
            return self.do_load(st, i)
        if op == "store":
            return self.do_store(st, i)
        if op == "call":
            n = i.cname
            if n and n.startswith(NOEFF):
                return [st]
            self.c.pre_call(self, st, i)
            self.forget(st, i)
            r = self.c.on_call(self, st, i)
            if r is None:
                self.clobber(st, i)
                return [st]
            return r
        if op == "br":
            b = i.bb
            if not i.ops:
                self.edge(st, b, i.succs[0])
                return []
            # operand 0 condition; successors [true, false]
            for truth, succ in ((True, i.succs[0]), (False, i.succs[1])):
                for s in self.assume(st.copy(), i.ops[0], truth):
                    self.edge(s, b, succ)
            return []
        if op == "switch":
            b = i.bb
            v = i.ops[0]
            dfl = [st.copy()]
            groups = {}
            for cv, tb in i.cases:
                w = self.width(self.res(st, v)) if not isinstance(self.res(st, v), Const) else getattr(v, "w", 32)
                for s in self.acmp(st.copy(), "eq", v, mk(cv, getattr(v, "w", 0) or w)):
                    self.edge(s, b, tb)
                n2 = []
                for s in dfl:
                    n2 += self.acmp(s, "ne", v, mk(cv, getattr(v, "w", 0) or w))
                dfl = n2
            for s in dfl:
                self.edge(s, b, i.succs[0])
            return []
        if op == "ret":
            v = i.ops[0] if i.ops else None
            if v is not None:
                r = self.res(st, v)
                x = r
                while isinstance(x, Inst) and x.op in ("zext", "sext", "trunc", "freeze"):
                    x = self.res(st, x.ops[0])
                if isinstance(x, Inst) and self.ev(st, x) is None and (x.op == "icmp" or (x.w == 1)):
                    for tr in (True, False):
                        for s in self.assume(st.copy(), x, tr):
                            w = getattr(r, "w", 1) or 1
                            self.c.on_ret(self, s, i, mk((1 if not (isinstance(r, Inst) and r.op == "sext") else (1 << w) - 1) if tr else 0, w))
                    return []
                k = self.ev(st, r)
                if k is None:
                    # a sign computed from comparisons, (a > b) - (a < b): decide the comparisons
                    leaf = self.leaf(st, r)
                    if leaf is not None:
                        out = []
                        for tr in (True, False):
                            out += self.assume(st.copy(), leaf, tr)
                        for s in out:
                            self.step(s, i)
                        return []
                if k is not None:
                    r = mk(k, self.width(r) if getattr(r, "w", 0) else 0)
                self.c.on_ret(self, st, i, r)
            else:
                self.c.on_ret(self, st, i, None)
            return []
        if op == "unreachable":
            return []
        if op == "alloca":
            return [st]
        self.forget(st, i)
        return [st]

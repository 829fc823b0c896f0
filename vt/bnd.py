"""Bounds of memory accesses: a difference/linear-inequality domain on top of the path-sensitive ranges.

For every store, every buffer-filling call and every read of a sized object the obligation
    offset + extent <= size(object)
is proved as a linear inequality over the values of the current path from: the value ranges, the comparisons taken on the
path, and the sizes requested from the allocator.  No solver: inequalities are eliminated one by one (Fourier-Motzkin style, bounded depth).
"""
import re
from esp import BaseClient, Engine, mk, is_const, s_of
from ir import Inst, Const, Arg, Global, SWAP
from front import Broken
import prog, layout, ext

BIG = 1 << 47      # no object, string or stored element count exceeds the address space


def add(a, b, k=1):
    c = dict(a)
    for v, n in b.items():
        n = c.get(v, 0) + k * n
        if n:
            c[v] = n
        else:
            c.pop(v, None)
    return c


ONE = "1"       # the constant term


def const(k):
    return {ONE: k} if k else {}


def xt(l, k):
    """scale"""
    return {v: n * k for v, n in l.items()}


def counter(v, seen=None):
    """a loop counter that moves by a bounded constant per iteration"""
    seen = seen or set()
    if isinstance(v, Const):
        return v.kind == "int" and v.v < 1 << 32
    if not isinstance(v, Inst):
        return isinstance(v, Arg) and v.ty == "i64"
    if v in seen:
        return True
    seen.add(v)
    if v.op == "phi":
        return all(counter(o, seen) for o in v.ops)
    if v.op == "add" and isinstance(v.ops[1], Const) and 0 <= v.ops[1].s < 1 << 16:
        return counter(v.ops[0], seen)
    return v.op == "load" or v.op == "call" and v.cname in ("strlen", "strnlen")


def sizeish(v):
    """lengths and stored element counts"""
    if isinstance(v, Inst) and v.w == 64 and v.op == "phi":
        return counter(v)
    if isinstance(v, Inst) and v.w == 64 and (v.op == "memphi" or v.op == "sub" and all(isinstance(o, Inst) and o.op == "ptrtoint" for o in v.ops)):
        return True
    return isinstance(v, Arg) and v.ty == "i64" or isinstance(v, Inst) and v.w == 64 and (v.op == "load" or v.op == "call" and v.cname in ("strlen", "strnlen", "strspn", "strcspn"))


class Lin(object):
    """linear view of values in one state"""
    def __init__(self, E, st):
        self.E, self.st = E, st
        self.c = E.c if hasattr(E.c, "post") else None

    def rng(self, v):
        """mathematical (unsigned) range"""
        r = self.E.rng(self.st, v)
        lo, hi = r[0], r[1]
        v = self.E.res(self.st, v)
        if sizeish(v):
            hi = min(hi, BIG)
        elif isinstance(v, Inst) and v.op in ("add", "mul", "shl", "zext", "sub", "udiv", "lshr", "select", "phi", "or", "and", "trunc") and hi > BIG:
            x = self.lin(v, 0, v)
            if x is not None:
                h = self.upper(x)
                if h is not None:
                    hi = min(hi, h)
        return lo, hi

    def lin(self, v, d=0, top=None):
        """linear expression equal to the unsigned value of v; None only when called with top=v and v is opaque"""
        E, st = self.E, self.st
        v = E.res(st, v)
        k = E.ev(st, v)
        if k is not None:
            return const(k)
        r = self._lin(v, d)
        if r is None:
            return None if top is not None else {v: 1}
        return r

    def _lin(self, v, d):
        E, st = self.E, self.st
        if not isinstance(v, Inst) or d > 10:
            return None
        m = 1 << v.w if v.w else 1 << 64
        if v.op == "add":
            kb = E.ev(st, v.ops[1])
            if kb is not None and s_of(kb, v.w) < 0:
                c = -s_of(kb, v.w)
                a = self.lin(v.ops[0], d + 1)
                if self.lower(a) >= c or self.ge(a, c):
                    return add(a, const(-c))
                return None
            a, b = self.lin(v.ops[0], d + 1), self.lin(v.ops[1], d + 1)
            s = add(a, b)
            h = self.upper(s)
            if h < m:
                return s
            if self.busy < 2 and self.facts():
                self.busy += 1
                try:
                    if self.prove(add(s, const(1 - m)), 4):
                        return s
                finally:
                    self.busy -= 1
            return None
        if v.op == "sub":
            a, b = self.lin(v.ops[0], d + 1), self.lin(v.ops[1], d + 1)
            s = add(a, b, -1)
            if self.lower(s) >= 0 or self.prove(xt(s, -1), 4):
                return s
            return None
        if v.op in ("mul", "shl"):
            k = E.ev(st, v.ops[1])
            o = v.ops[0]
            if k is None and v.op == "mul":
                k, o = E.ev(st, v.ops[0]), v.ops[1]
            if k is None:
                return None
            if v.op == "shl":
                k = 1 << k
            a = xt(self.lin(o, d + 1), k)
            h = self.upper(a)
            return a if h is not None and h < m else None
        if v.op == "zext":
            return self.lin(v.ops[0], d + 1)
        if v.op == "sext":
            return self.lin(v.ops[0], d + 1) if self.nonneg(v.ops[0], d + 1) else None
        if v.op == "trunc":
            a = self.lin(v.ops[0], d + 1)
            h = self.upper(a)
            return a if h is not None and h < m and self.lower(a) >= 0 else None
        if v.op == "call" and v.cname == "strlen" and self.c is not None:
            c = self.c.samestr(E, st, v)
            return {c: 1} if c is not v else None
        return None

    def nonneg(self, x, d=0):
        """the signed and the unsigned value of x agree"""
        E, st = self.E, self.st
        x = E.res(st, x)
        if E.rng(st, x)[2] >= 0:
            return True
        w = E.width(x)
        if self.c is not None and x in self.c.rising and d < 10 and self.nonneg(self.c.rising[x], d + 5):
            return True
        if not isinstance(x, Inst) or x.op not in ("add", "sub", "mul", "shl", "zext", "sext", "trunc"):
            return False
        l = self._lin(x, d)
        return l is not None and (self.upper(l) < 1 << (w - 1) or self.prove(add(l, const((1 << (w - 1)) - 1), -1), 3))

    def r0(self, v):
        if v == ONE:
            return 1, 1
        if getattr(v, "ty", "") == "ptr":
            return -BIG, BIG          # stands for the offset of a moving pointer from the start of its object
        r = self.E.rng(self.st, v)
        lo, hi = r[0], r[1]
        if self.c is not None and v in self.c.ups and v.w:
            lo, hi = max(lo, self.c.ups[v]), min(hi, (1 << v.w - 1) - 1)
        if sizeish(v):
            hi = min(hi, BIG)
        return lo, hi

    def upper(self, l):
        t = 0
        for v, n in l.items():
            lo, hi = self.r0(v)
            t += n * (hi if n > 0 else lo)
        return t

    def lower(self, l):
        t = 0
        for v, n in l.items():
            lo, hi = self.r0(v)
            t += n * (lo if n > 0 else hi)
        return t

    def ge(self, l, c):
        return self.prove(add(const(c), l, -1), 3)

    def facts(self):
        """known inequalities  l <= 0"""
        if getattr(self, "_f", None) is not None:
            return self._f
        self._f = []
        out = self._facts()
        self._f = out
        if any(r[0] == "ne" for r in self.st.rel):
            self._f = self._f + [f for f in self._apart() if f not in self._f]
            self._ix = None
        # what the comparisons say about one another: a sum that cannot wrap because of one comparison makes another usable
        for n in range(3):
            if self.c is None or not any(isinstance(v, Inst) and v.op in ("add", "sub", "sext", "trunc") for f in self._f for v in f):
                break
            more = [f for f in self._facts() if f not in self._f]
            if not more:
                break
            self._f = self._f + more
            self._ix = None
        return self._f

    busy = 0

    def _facts(self):
        out = []
        E, st = self.E, self.st
        for p, a, b in st.rel:
            if p == "ne":
                continue
            if getattr(a, "ty", "") == "ptr" or getattr(b, "ty", "") == "ptr":
                continue
            if p[0] == "s":
                ra, rb = E.rng(st, a), E.rng(st, b)
                if ra[2] < 0 and rb[2] < 0:
                    continue
                # a signed comparison between possibly negative values only helps when both are known non-negative
                if ra[2] < 0 or rb[2] < 0:
                    lowside = b if p[1:] in ("gt", "ge") else a
                    # x < y with x >= 0 makes y positive
                    if E.rng(st, lowside)[2] < 0:
                        continue
            la, lb = self.lin(a, 4), self.lin(b, 4)
            if p[1:] in ("lt", "le"):
                out.append(add(add(la, lb, -1), const(1 if p[1:] == "lt" else 0)))
            elif p[1:] in ("gt", "ge"):
                out.append(add(add(lb, la, -1), const(1 if p[1:] == "gt" else 0)))
            elif p == "eq":
                out.append(add(la, lb, -1))
                out.append(add(lb, la, -1))
        for p, a, b in st.rel:
            # comparisons of pointers into the same object
            if p != "ne" and getattr(a, "ty", "") == "ptr" and self.c is not None and getattr(b, "ty", "") == "ptr" and p[0] != "s":
                (ba, oa), (bb, ob) = self.c.linptr(E, st, a, self), self.c.linptr(E, st, b, self)
                if ba is bb and oa is not None and ob is not None:
                    if p[1:] in ("lt", "le"):
                        out.append(add(add(oa, ob, -1), const(1 if p[1:] == "lt" else 0)))
                    elif p[1:] in ("gt", "ge"):
                        out.append(add(add(ob, oa, -1), const(1 if p[1:] == "gt" else 0)))
                    elif p == "eq":
                        out += [add(oa, ob, -1), add(ob, oa, -1)]
        if self.c is not None:
            out += self.c.companions(E, st, self)
            if self.c.msyms:
                out += self.c.outrun(E, st, self)
            if self.c.items:
                out += self.c.children(E, st, self)
        # a quotient and what it divides; the same quotient computed twice
        qs = {}
        for v in sorted({x for r in st.rel for x in r[1:] if isinstance(x, Inst) and x.op in ("udiv", "lshr")} | {x for x in st.con if isinstance(x, Inst) and x.op in ("udiv", "lshr")}, key=lambda x: x.id):
            k = E.ev(st, v.ops[1])
            if k is None:
                continue
            k = k if v.op == "udiv" else 1 << k
            if not 1 < k < 1 << 20:
                continue
            d = self.lin(v.ops[0], 4)
            out.append(add({v: k}, d, -1))
            q = (k, frozenset(d.items()))
            if q in qs:
                out += [add({v: 1}, {qs[q]: 1}, -1), add({qs[q]: 1}, {v: 1}, -1)]
            else:
                qs[q] = v
        for v, k in st.con.items():
            if isinstance(v, Inst) and v.op in ("add", "sub", "mul", "shl", "zext", "sext", "trunc"):
                l = self._lin(v, 4)
                if l is None:
                    continue
                m = (1 << v.w) - 1
                if k[1] < m:
                    out.append(add(l, const(-k[1])))
                if k[0] > 0:
                    out.append(add(const(k[0]), l, -1))
        return out

    def _apart(self):
        """a <= b and a != b give a + 1 <= b"""
        E, st, out = self.E, self.st, []
        for p, a, b in st.rel:
            if p != "ne":
                continue
            if getattr(a, "ty", "") == "ptr" or getattr(b, "ty", "") == "ptr":
                if self.c is None or isinstance(a, Const) or isinstance(b, Const):
                    continue
                (ba, la), (bb, lb) = self.c.linptr(E, st, a, self), self.c.linptr(E, st, b, self)
                if ba is not bb or la is None or lb is None:
                    continue
            else:
                la, lb = self.lin(a, 4), self.lin(b, 4)
            for x, y in ((la, lb), (lb, la)):
                if self.prove(add(x, y, -1), 3):
                    out.append(add(add(x, y, -1), const(1)))
        return out

    def prove(self, l, depth=8, seen=None):
        """l <= 0 ?  eliminates one variable at a time with the known inequalities; a form tried before with no larger constant is not tried again"""
        if self.upper(l) <= 0:
            return True
        if depth == 0:
            return False
        if seen is None and any(len(f) == 1 and f.get(ONE, 0) > 0 for f in self.facts()):
            return True         # the comparisons on this path contradict each other
        seen = {} if seen is None else seen
        vp = frozenset(x for x in l.items() if x[0] != ONE)
        k0 = l.get(ONE, 0)
        old = seen.get(vp)
        if old is not None and any(k <= k0 and d >= depth for k, d in old):
            return False
        if len(seen) > 400:
            return False
        seen.setdefault(vp, []).append((k0, depth))
        fs = self.index()
        for v, n in l.items():
            if v == ONE:
                continue
            for f in fs.get((v, n > 0), ()):
                c = f[v]
                if n % c == 0:
                    l2 = add(l, f, -(n // c))
                    if len(l2) <= len(l) + 2 and self.prove(l2, depth - 1, seen):
                        return True
        # semantic bounds of opaque roots
        E = self.E
        for v, n in list(l.items()):
            if v == ONE or not isinstance(v, Inst) or n <= 0:
                continue
            if v.op == "call" and self.c is not None:
                for s in self.c.post(E, self.st, v, self):
                    if self.prove(add(add(l, {v: n}, -1), xt(s, n)), depth - 1, seen):
                        return True
            if v.op == "trunc":
                if self.prove(add(add(l, {v: n}, -1), xt(self.lin(v.ops[0], 4), n)), depth - 1, seen):
                    return True
            if v.op in ("udiv", "lshr"):
                k = self.E.ev(self.st, v.ops[1])
                if k is not None:
                    k = k if v.op == "udiv" else 1 << k
                    if k and n % k == 0:
                        l2 = add(add(l, {v: n}, -1), xt(self.lin(v.ops[0], 4), n // k))
                        if self.prove(l2, depth - 1, seen):
                            return True
        return False

    def index(self):
        """facts by (variable, sign of its coefficient); complete only once facts() has been"""
        fs = self.facts()
        if getattr(self, "_ix", None) is None or self._ixn != len(fs):
            self._ix, self._ixn = {}, len(fs)
            for f in fs:
                for v, c in f.items():
                    if v != ONE:
                        l = self._ix.setdefault((v, c > 0), [])
                        if f not in l:
                            l.append(f)
        return self._ix


def wid(v):
    w = getattr(v, "w", 0)
    t = getattr(v, "ty", "")
    return w or (int(t[1:]) if t[:1] == "i" and t[1:].isdigit() else 0)


class Bounds(BaseClient):
    """collects (ok, kind, instruction, why) for every access"""
    cap = 6
    strict_alias = True
    def __init__(self, P, fn, L, contracts, heap=None, reads=True):
        self.P, self.fn, self.L = P, fn, L
        self.contracts = contracts
        self.heap = heap or {}
        self.reads = reads
        self.res = {}
        self.kept = self._keep()
        self.cands = self._cands()
        self.steps = self._steps()
        # counters that start at a non-negative constant and never go down
        self.rising = {x: init for ps in self.steps.values() for x, init, m, M in ps if m >= 0 and x.w}
        self.ups = {x: init.s for ps in self.steps.values() for x, init, m, M in ps
                    if m >= 0 and isinstance(init, Const) and init.kind == "int" and init.s >= 0}
        # loads and the constants they are compared with
        self.strlens = [c for c in self.fn.insts() if c.op == "call" and c.cname == "strlen"]
        self.ccmp, self.mconst = {}, {}
        for i in self.fn.insts():
            if i.op == "icmp":
                for x, y in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
                    if isinstance(x, Inst) and x.op == "load" and isinstance(y, Const) and y.kind == "int" and 0 < y.s < 1 << 20:
                        self.ccmp.setdefault(x, set()).update((y.s, y.s - 1))
        self.items = self._items()
        self.incs = self._incs()
        self.mslots, self.msyms = {}, {}
        for s in self.incs.values():
            for h in s:
                self.kept |= {x for x, _, _, _ in self.steps[h]}
        for h, (item, arr) in self.items.items():
            self.kept |= {x for x, _, _, _ in self.steps.get(h, ())} | {item} | set(self.sizes)
        # a moving pointer is only bounded through the counters that move with it
        for h, ps in self.steps.items():
            if len(ps) > 1:
                self.kept |= {x for x, _, _, _ in ps if x.ty != "ptr"}
            if any(x.ty == "ptr" for x, _, _, _ in ps):
                for x, _, _, _ in ps:
                    self.kept.add(x)
                    self.kept |= {y for y in self.cands.get(x, ()) if isinstance(y, Inst)}

    def _steps(self):
        """header -> [(phi, initial value, least step, greatest step)] of the values that move by constants in each round"""
        from esp import info
        I = info(self.fn)
        out = {}
        def delta(v, phi, path):
            if v is phi:
                return {0}
            if not isinstance(v, Inst) or v in path or len(path) > 12:
                return None
            path = path + [v]
            if v.op in ("zext", "sext", "trunc", "freeze"):
                return None
            if v.op in ("add", "sub") and isinstance(v.ops[1], Const):
                d = delta(v.ops[0], phi, path)
                k = v.ops[1].s if v.op == "add" else -v.ops[1].s
                return None if d is None else {x + k for x in d}
            if v.op == "gep" and not v.gep[1]:
                d = delta(v.ops[0], phi, path)
                return None if d is None else {x + v.gep[0] for x in d}
            if v.op in ("phi", "select"):
                r = set()
                for o in (v.ops if v.op == "phi" else v.ops[1:]):
                    d = delta(o, phi, path)
                    if d is None:
                        return None
                    r |= d
                return r if len(r) < 20 else None
            return None
        for h in I.headers:
            for phi in h.insts:
                if phi.op != "phi":
                    break
                if phi.ty != "ptr" and not (phi.w and phi.w > 8):
                    continue
                back = [v for v, p in phi.inc if I.rpo.get(p, -1) >= I.rpo[h]]
                init = [v for v, p in phi.inc if p in I.rpo and I.rpo[p] < I.rpo[h]]
                if len(init) != 1 or not back:
                    continue
                ds = set()
                for v in back:
                    d = delta(v, phi, [])
                    if d is None:
                        ds = None
                        break
                    ds |= d
                if ds:
                    out.setdefault(h, []).append((phi, init[0], min(ds), max(ds)))
        return out

    def _items(self):
        """header -> (item, array value): loops over the children of a JSON array"""
        from esp import info
        I = info(self.fn)
        self.sizes = [i for i in self.fn.insts() if i.op == "call" and i.cname == "cJSON_GetArraySize"]
        out = {}
        if not self.sizes:
            return out
        nx, ch = self.L.cjson["next"], self.L.cjson["child"]
        def addr(v):
            if isinstance(v, Inst) and v.op == "load":
                q = v.ops[0]
                if isinstance(q, Inst) and q.op == "gep" and not q.gep[1]:
                    return q.ops[0], q.gep[0]
                return q, 0
            return None, None
        for h in I.headers:
            for phi in h.insts:
                if phi.op != "phi":
                    break
                if phi.ty != "ptr":
                    continue
                back = [v for v, p in phi.inc if I.rpo.get(p, -1) >= I.rpo[h]]
                init = [v for v, p in phi.inc if p in I.rpo and I.rpo[p] < I.rpo[h]]
                if not back or any(addr(v) != (phi, nx) for v in back):
                    continue
                todo, arr = list(init), []
                for v in todo:
                    if isinstance(v, Inst) and v.op == "phi" and len(todo) < 8:
                        todo += v.ops
                    elif isinstance(v, Const) and v.kind == "null":
                        pass
                    else:
                        b, o = addr(v)
                        arr.append(b if o == ch else None)
                if len(set(arr)) == 1 and arr[0] is not None:
                    out[h] = (phi, arr[0])
        return out

    def _incs(self):
        """stores `*p = *p + constant` inside loops: {store: headers of the loops around it}"""
        from esp import info
        import walk
        I = info(self.fn)
        out = {}
        for h in I.headers:
            if not self.steps.get(h):
                continue
            for b in walk.loop_body(I, h):
                for i in b.insts:
                    if i.op == "store" and isinstance(i.ops[0], Inst) and i.ops[0].op == "add" and isinstance(i.ops[0].ops[1], Const) and i.ops[0].ops[1].s > 0 and i.ops[0].w and i.ops[0].w >= 32:
                        l = i.ops[0].ops[0]
                        if isinstance(l, Inst) and l.op == "load":
                            p, q = l.ops[0], i.ops[1]
                            if p is q or isinstance(p, Inst) and isinstance(q, Inst) and p.op == q.op == "gep" and p.gep == q.gep and p.ops[0] is q.ops[0] or \
                               isinstance(p, Inst) and isinstance(q, Inst) and p.op == q.op == "gep" and p.gep == q.gep and not p.gep[1]:
                                out.setdefault(i, []).append(h)
        return out

    def memcount(self, E, st, b, h, back):
        """element counts kept in memory and moved in a loop: a symbol per loop, together with the loop counters it cannot outrun"""
        slots = self.mslots.get(h)
        if not slots:
            return
        if not back:
            for k in slots:
                v = st.mem.get(k)
                if v is not None and isinstance(v[1], Inst) and v[1].op == "memphi" and getattr(v[1], "idx", None) and v[1].idx[0] is h:
                    st.mem[k] = (v[0], self.msym(E, st, (h, k, None), v[0]))
            return
        X = Lin(E, st)
        for k in slots:
            w = st.mem.get(k)
            if w is None:
                continue
            v = w[1]
            if isinstance(v, Inst) and v.op == "memphi" and getattr(v, "idx", None) and v.idx[0] is h:
                continue
            l = X.lin(v)
            R = []
            for phi, init, m, M in self.steps.get(h, ()):
                if phi.ty == "ptr" or M <= 0 or m < 0:
                    continue
                nxt = next(x for x, p in phi.inc if p is b) if any(p is b for _, p in phi.inc) else None
                if nxt is None:
                    continue
                d = add(X.lin(nxt), X.lin(init), -1)
                if X.prove(add(l, d, -1), 5):
                    R.append((phi, init))
            st.mem[k] = (w[0], self.msym(E, st, (h, k, tuple(R)), w[0]))

    def msym(self, E, st, key, sz):
        m = self.msyms.get(key)
        if m is None:
            m = self.msyms[key] = Inst()
            m.op, m.ops, m.ty, m.w, m.bb, m.id, m.name, m.line, m.file, m.size, m.sf = "memphi", [], "i%d" % (8 * sz), 8 * sz, None, -1000 - len(self.msyms), "", 0, "", 0, None
            m.idx = (key[0], key[2] or ())
        E.forget(st, m)
        return m

    def outrun(self, E, st, X):
        out = []
        for m in self.msyms.values():
            for phi, init in m.idx[1]:
                if E.ev(st, phi) is None and E.rng(st, phi)[2] < 0 and not sizeish(phi):
                    continue
                out.append(add({m: 1}, add(X.lin(phi), X.lin(init), -1), -1))
        return out

    def children(self, E, st, X):
        """a counter that moves at most M per child of a JSON array stays within M times its size"""
        out = []
        for h, (item, arr) in self.items.items():
            for phi, init, m, M in self.steps.get(h, ()):
                if phi.ty == "ptr" or M <= 0 or E.rng(st, phi)[2] < 0 and not sizeish(phi) and E.ev(st, phi) is None:
                    continue
                d = add(X.lin(phi), X.lin(init), -1)
                k = E.rng(st, item)
                for c in self.sizes:
                    if E.res(st, c.ops[0]) is E.res(st, arr):
                        out.append(add(add(d, {c: -M}), const(M if k[0] > 0 else 0)))
        return out

    def companions(self, E, st, X):
        """values that move together in the same loop: m2*(a - a0) <= M1*(b - b0) when a moves by at most M1 whenever b moves by at least m2"""
        out = []
        for h, ps in self.steps.items():
            ls = []
            for phi, init, m, M in ps:
                if phi.ty == "ptr":
                    r = E.res(st, phi)
                    if r is not phi:
                        continue
                    bi, oi = self.linptr(E, st, init, X)
                    if oi is None or isinstance(bi, Const):
                        continue
                    l = {phi: 1}
                else:
                    if E.res(st, phi) is not phi or not sizeish(phi) and not X.nonneg(phi):
                        continue
                    oi, l = X.lin(init), {phi: 1}
                d = add(l, oi, -1)
                ls.append((phi, d, m, M))
                if m >= 0:
                    out.append(xt(d, -1))
            for x, dx, mx, Mx in ls:
                for y, dy, my, My in ls:
                    if x is y:
                        continue
                    if my > 0 and Mx >= 0:
                        out.append(add(xt(dx, my), dy, -Mx))
                    if mx >= 0 and My > 0:
                        # x moves at least mx whenever y moves at most My
                        out.append(add(xt(dy, mx), dx, -My)) if mx else None
        return [o for o in out if o]

    def _cands(self):
        """loop-carried value -> values it is compared with somewhere: candidate upper bounds"""
        par = {}
        def find(x):
            while par.get(x, x) is not x:
                x = par[x]
            return x
        def strip(x):
            while isinstance(x, Inst) and (x.op in ("zext", "sext", "trunc", "freeze") or x.op in ("add", "sub") and isinstance(x.ops[1], Const)):
                x = x.ops[0]
            return x
        phis = [i for i in self.fn.insts() if i.op == "phi" and i.w and i.w > 1]
        self.kcands = {}
        for i in phis:
            for v, _ in i.inc:
                v = strip(v)
                if isinstance(v, Inst) and v.op == "phi":
                    a, b = find(i), find(v)
                    if a is not b:
                        par[a] = b
        cs, pc = {}, {}
        def addends(x, n=0):
            if not isinstance(x, Inst) or n > 6:
                return
            if x.op == "phi":
                yield x
            elif x.op in ("zext", "sext", "trunc", "freeze", "mul", "shl") or x.op in ("sub", "udiv", "lshr"):
                yield from addends(x.ops[0], n + 1)
            elif x.op == "add":
                for o in x.ops:
                    yield from addends(o, n + 1)
        for i in self.fn.insts():
            if i.op != "icmp" or len(i.ops) != 2:
                continue
            for x, y in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
                for x0 in set(addends(x)):
                    if isinstance(y, Const) and y.kind == "int" and 0 < y.s < 1 << 20:
                        self.kcands.setdefault(find(x0), set()).update((y.s, y.s - 1))
                    if isinstance(y, Const) or wid(y) != x0.w:
                        continue
                    if isinstance(y, Inst) and y.op == "phi" and find(strip(y)) is find(x0):
                        continue
                    l = cs.setdefault(find(x0), [])
                    if y not in l:
                        l.append(y)
                # room left, n - i: the counter is bounded by n
                z = strip(x)
                if isinstance(z, Inst) and z.op == "sub":
                    for x0 in set(addends(z.ops[1])):
                        if wid(z.ops[0]) == x0.w and not isinstance(z.ops[0], Const):
                            l = cs.setdefault(find(x0), [])
                            if z.ops[0] not in l:
                                l.append(z.ops[0])
                # moving pointers
                if isinstance(x, Inst) and x.op == "phi" and x.ty == "ptr" and not isinstance(y, Const):
                    pc.setdefault(x, []).append(y)
        self.kcands = {p: self.kcands[find(p)] for p in phis if find(p) in self.kcands}
        r = {p: cs[find(p)] for p in phis if find(p) in cs}
        r.update(pc)
        return r

    def _keep(self):
        ks = set()
        from esp import info
        I = info(self.fn)
        for i in self.fn.insts():
            if i.op == "call" and i.cname in ALLOCSZ:
                for k in ALLOCSZ[i.cname]:
                    ks |= I.dep(i.ops[k])
            if i.op == "call" and i.cname in POST:
                ks.add(i)
            if i.op == "icmp":
                # what the caller's sizes were compared with
                for x, y in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
                    if isinstance(x, Arg) and x.ty == "i64" and isinstance(y, Inst):
                        ks.add(y)
                        ks |= {z for z in I.dep(y) if isinstance(z, Inst) and z.op not in ("phi", "alloca")}
        # a place that is read again after it was compared: the value that was compared
        def addr(p, d=0):
            if isinstance(p, Inst) and p.op == "gep" and d < 4:
                return (addr(p.ops[0], d + 1), p.gep[0], tuple(p.gep[1]))
            return p
        g = {}
        for i in self.fn.insts():
            if i.op == "load" and i.w and not i.vol:
                a = addr(i.ops[0])
                if isinstance(a, tuple) or isinstance(a, Arg):
                    g.setdefault(a, []).append(i)
        cmp = {o for i in self.fn.insts() if i.op == "icmp" for o in i.ops}
        for l in g.values():
            if 1 < len(l) < 12:
                ks |= {x for x in l if x in cmp}
        return {x for x in ks if isinstance(x, Inst)}

    def keep(self, st):
        return self.kept

    def implied(self, E, st, r):
        p, a, b = r
        if wid(a) == wid(b) and E.evcmp(st, p, a, b) == 1:
            return True
        X = Lin(E, st)
        if getattr(a, "ty", "") == "ptr" or getattr(b, "ty", "") == "ptr":
            return p == "ule" and self.below(E, st, a, b, X)
        if p[0] == "s" and not (X.nonneg(a) and X.nonneg(b)):
            return False
        la, lb = X.lin(a), X.lin(b)
        if p[1:] in ("lt", "le"):
            return X.prove(add(add(la, lb, -1), const(1 if p[1:] == "lt" else 0)), 3)
        if p[1:] in ("gt", "ge"):
            return X.prove(add(add(lb, la, -1), const(1 if p[1:] == "gt" else 0)), 3)
        return False

    def below(self, E, st, a, b, X):
        """a <= b, pointers into one object"""
        (ba, oa), (bb, ob) = self.linptr(E, st, a, X), self.linptr(E, st, b, X)
        return ba is bb and oa is not None and ob is not None and not isinstance(ba, Const) and X.prove(add(oa, ob, -1), 4)

    def loop_facts(self, E, st, phi, v, k0):
        """what is still known about a loop-carried value after one more round: upper bounds it was checked against"""
        if phi.ty == "ptr":
            X = Lin(E, st)
            return k0, [("ule", phi, y) for y in self.cands.get(phi, ()) if self.below(E, st, v, y, X)]
        if not phi.w or phi.w == 1:
            return k0, []
        X = Lin(E, st)
        dep = E.info.dep
        l = X.lin(v)
        full = (1 << phi.w) - 1
        rel, his = [], set(self.kcands.get(phi, ()))
        top = 1 << (phi.w - 1)
        near = lambda x: x is phi or isinstance(x, Inst) and phi in dep(x)
        for p, a, b in st.rel:
            if p == "ne" or getattr(a, "ty", "") == "ptr":
                continue
            for x, y in ((a, b), (b, a)):
                if near(x) and not near(y) and y is not phi and E.width(y) == phi.w:
                    r = ("ule", phi, y)
                    if r not in rel and X.nonneg(v) and X.prove(add(l, X.lin(y), -1), 4):
                        rel.append(r)
        for y in self.cands.get(phi, ()):
            r = ("ule", phi, y)
            if r not in rel and X.nonneg(v) and X.prove(add(l, X.lin(y), -1), 4):
                rel.append(r)
        for x, k in st.con.items():
            if near(x) and k[1] < top:
                his.add(k[1])
        best = None
        for h in sorted(his):
            for d in (h, h + 1):
                if X.prove(add(l, const(-d)), 4):
                    best = d
                    break
            if best is not None:
                break
        if best is not None and best < top:
            lo = max(0, k0[0] if k0 else 0)
            k0 = (lo, best, lo, best, frozenset())
        return k0, rel

    def tighten(self, E, st, phi, r):
        """a computed value about to be merged with others: keep the smallest constant it was checked against"""
        ks = self.kcands.get(phi)
        if not ks:
            return
        k = E.rng(st, r)
        X = Lin(E, st)
        l = X.lin(r)
        top = 1 << (phi.w - 1)
        for d in sorted(ks):
            if d >= k[1]:
                break
            if X.prove(add(l, const(-d)), 4):
                st.con[r] = (k[0], d, max(k[2], 0) if d < top else k[2], min(k[3], d), k[4])
                break

    def size(self, E, st, b, X):
        if isinstance(b, Inst):
            if b.op == "alloca":
                return const(b.size) if not (b.ops and E.ev(st, b.ops[0]) not in (1, None)) else None
            if b.op == "call":
                a = ALLOCSZ.get(b.cname)
                if a is not None:
                    if len(a) == 1:
                        return X.lin(b.ops[a[0]])
                    k0, k1 = E.ev(st, b.ops[a[0]]), E.ev(st, b.ops[a[1]])
                    if k1 is not None:
                        return xt(X.lin(b.ops[a[0]]), k1)
                    if k0 is not None:
                        return xt(X.lin(b.ops[a[1]]), k0)
                    return None
            if b.op in ("call", "load"):
                ty = CALLOBJ.get(b.cname) if b.op == "call" else None
                if ty:
                    return const(ty)
            if b.op == "load" and b.ops:
                h = self.heapsize(E, st, b, X)
                if h is not None:
                    return h
            return None
        if isinstance(b, Global):
            return const(b.size) if b.size and not b.is_fn else None
        if isinstance(b, Arg):
            c = self.contracts(self.fn.name, b.idx)
            if c is None:
                return None
            if isinstance(c, int):
                return const(c)
            k, args = c
            t = const(k)
            for n, idx in args:
                t = add(t, xt(X.lin(self.fn.args[idx]), n))
            return t
        return None

    def post(self, E, st, v, X):
        """linear upper bounds of the result of call v"""
        if v.cname == "strlen":
            # a terminator lies inside the object
            b, off = self.linptr(E, st, v.ops[0], X)
            if off is not None and not isinstance(b, (Const, Arg)):
                s = self.size(E, st, b, X)
                if s is not None:
                    yield add(add(s, off, -1), const(-1))
        for k, idx in POST.get(v.cname, ()) if E.rng(st, v)[2] >= 0 else ():
            yield add(X.lin(v.ops[idx]), const(k)) if idx is not None else const(k)

    def heapsize(self, E, st, b, X):
        g = E.res(st, b.ops[0])
        sf = getattr(g, "sf", None) if isinstance(g, Inst) and g.op == "gep" else None
        if sf is None:
            return None
        h = self.heap.get(sf)
        if h is None:
            return None
        cnt, esz = h
        b2, o2 = E.ptr(st, b.ops[0])
        if isinstance(cnt, int) and esz is None:
            return const(cnt)
        if o2 is None:
            return None
        m = st.mem.get((b2, o2 + cnt))
        if m is None:
            return None
        return xt(X.lin(m[1]), esz)

    def linptr(self, E, st, p, X):
        """(base, linear offset | None)"""
        off = {}
        n = 0
        while True:
            p = E.res(st, p)
            n += 1
            if n > 60:
                return p, None
            if isinstance(p, Inst) and p.op == "gep":
                o, var = p.gep
                if off is not None:
                    off = add(off, const(o))
                    for x, sc in var:
                        x = E.res(st, x)
                        k = E.ev(st, x)
                        if k is not None:
                            off = add(off, const(s_of(k, E.width(x)) * sc))
                            continue
                        off = add(off, xt(X.lin(x), sc))
                p = p.ops[0]
                continue
            if isinstance(p, Inst) and p.op == "phi":
                b = E.fibase(p)
                if b is not None and b is not p:
                    b = E.ptr(st, b)[0] if not (isinstance(b, Inst) and b.op == "phi") else b
                    if off is not None and any(q is p for q, _, _, _ in self.steps.get(p.bb, ())):
                        return b, add(off, {p: 1})
                    return b, None
            return p, off

    def check(self, E, st, i, p, ext_, kind, X=None):
        """ext_: linear extent"""
        X = X or Lin(E, st)
        b, off = self.linptr(E, st, p, X)
        if isinstance(b, Const):
            return          # null dereference is another property
        sz = self.size(E, st, b, X)
        key = (i, kind)
        if sz is None:
            self.res.setdefault(key, {})["unsized"] = (b, None)
            return
        if off is None:
            self.res.setdefault(key, {})["bad"] = (b, "its offset is not bounded", E.trail_lines(st))
            return
        low = X.lower(off) >= 0 or X.prove(xt(off, -1), 4)
        hi = X.prove(add(add(off, ext_), sz, -1))
        if isinstance(b, Global) and b.const and all(v == ONE or isinstance(v, Inst) and v.op == "load" and v.w == 8 for v in off) and not (low and hi):
            self.res.setdefault(key, {})["unsized"] = (b, None)     # a table indexed by the contents of a buffer
            return
        if low and not hi:
            hi = self.record(E, st, b, off, X)
        if not (low and hi) and isinstance(b, Inst) and b.op == "call" and b.cname in ALLOCSZ and any(self.counted(o, E) for o in b.ops):
            self.res.setdefault(key, {})["soft"] = (b, "offset %s extent %s, in a block with room for as many elements as an earlier loop counted" % (sh(off), sh(ext_)), E.trail_lines(st))
            return
        if low and hi:
            self.res.setdefault(key, {}).setdefault("ok", (b, None))
        elif "bad" not in self.res.get(key, {}):
            self.res.setdefault(key, {})["bad"] = (b, "offset %s extent %s size %s%s" % (sh(off), sh(ext_), sh(sz), "" if low else " (may be negative)"), E.trail_lines(st))

    def samestr(self, E, st, v):
        """the length of a constant string argument is the same wherever it is taken"""
        a = E.res(st, v.ops[0])
        if isinstance(a, Arg):
            p = self.L.protos.get(self.fn.name)
            if p and a.idx < len(p[1]) and "const" in p[1][a.idx][1] and p[1][a.idx][1].count("*") == 1:
                for c in self.strlens:
                    if c is v or E.res(st, c.ops[0]) is a:
                        return c
        return v

    def counted(self, o, E):
        return isinstance(o, Inst) and any(x in self.rising for x in E.info.dep(o) | {o})

    def record(self, E, st, b, off, X):
        """an element of an array inside a record, at a position below a count read from the same record (stated assumption: the count describes the array)"""
        vs = [v for v in off if v != ONE]
        if len(vs) != 1 or not isinstance(b, Arg):
            return False
        for f in X.index().get((vs[0], True), ()):
            for x, n in f.items():
                if n == -1 and f[vs[0]] == 1 and f.get(ONE, 0) >= 1 and len(f) == 3 and isinstance(x, Inst) and x.op == "load" and E.ptr(st, x.ops[0])[0] is b:
                    return True
        return False

    def on_store(self, E, st, i, base, off, size, val):
        for h in self.incs.get(i, ()):
            if off is not None:
                self.mslots.setdefault(h, set()).add((base, off))
        self.check(E, st, i, i.ops[1], const(size), "write")
        return None

    def store_range(self, E, st, i, sz):
        X = Lin(E, st)
        b, off = self.linptr(E, st, i.ops[1], X)
        if off is None or isinstance(b, Const):
            return None, None
        lo = X.lower(off)
        if lo < 0:
            return None, None
        hi = X.upper(off)
        if hi < 1 << 20:
            return lo, hi + sz
        s = self.size(E, st, b, X)
        if s is None or set(s) - {ONE}:
            return None, None
        top = s.get(ONE, 0)
        for h in [x for x in self.fieldends(b) if x <= top]:
            if X.prove(add(add(off, const(sz)), const(-h)), 5):
                return lo, h
        return None, None

    def fieldends(self, b):
        """offsets in b that are accessed on their own: candidate ends of the arrays in front of them"""
        r = self.ends.get(b) if hasattr(self, "ends") else None
        if r is None:
            if not hasattr(self, "ends"):
                self.ends = {}
            r = self.ends[b] = sorted({i.gep[0] for i in self.fn.insts() if i.op == "gep" and not i.gep[1] and i.ops[0] is b and i.gep[0] > 0})
        return r

    def on_call(self, E, st, i):
        if i.cname == "realloc":
            q = E.ptr(st, i.ops[0])[0]
            if not isinstance(q, Const):
                E.kill_base(st, q)
            return [st]
        return None

    def memtight(self, E, st, k, v, r):
        ks = self.mconst.get(k)
        if ks:
            X = Lin(E, st)
            l = X.lin(v)
            top = 1 << (v.w - 1)
            for d in sorted(ks):
                if d < top and X.prove(add(l, const(-d)), 4):
                    return (r[0], d, max(r[2], 0), d, r[4])
        return r

    def on_load(self, E, st, i, base, off):
        if i in self.ccmp and off is not None:
            self.mconst.setdefault((base, off), set()).update(self.ccmp[i])
        if self.reads:
            self.check(E, st, i, i.ops[0], const(i.size), "read")
        return None

    def pre_call(self, E, st, i):
        n = i.cname
        if n is None or n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"):
            return
        X = Lin(E, st)
        for p, l, kind in self.extents(E, st, i, X):
            if l is None:
                self.res.setdefault((i, kind), {})["bad"] = (None, "the amount written is not bounded", E.trail_lines(st))
            else:
                self.check(E, st, i, p, l, kind, X)

    def extents(self, E, st, i, X):
        n = i.cname
        a = i.ops
        if n in self.P.fn:
            f = self.P.fn[n]
            for arg in f.args:
                if arg.idx >= len(a) or getattr(arg, "ty", "") != "ptr":
                    continue
                c = self.contracts(n, arg.idx)
                if c is None or (isinstance(E.res(st, a[arg.idx]), Const)):
                    continue
                if isinstance(c, int):
                    l = const(c)
                else:
                    l = const(c[0])
                    for k, idx in c[1]:
                        l = add(l, xt(X.lin(a[idx]), k))
                yield a[arg.idx], l, "arg%d of %s" % (arg.idx, n)
            return
        if n == "sprintf" or n == "__sprintf_chk":
            k = fmtmax(E, st, a[1], a[2:])
            yield a[0], k, "sprintf"
            return
        if n in ("strcpy", "__strcpy_chk", "stpcpy"):
            v = E.res(st, a[1])
            l = [c for c in E.fn.insts() if c.op == "call" and c.cname == "strlen" and E.res(st, c.ops[0]) is v]
            g, o = E.ptr(st, v)
            if isinstance(g, Global) and g.init_str is not None and o == 0:
                yield a[0], const(1 + len(g.init_str.rstrip("\0" if isinstance(g.init_str, str) else b"\0"))), n
            else:
                yield a[0], (add(const(1), {l[0]: 1}) if l else None), n
            return
        w = EXT.get(n) or ext.W.get(n)
        if isinstance(w, list):
            for e in w:
                k, s = e[0], e[1]
                if k >= len(a) or s is None:
                    continue
                if isinstance(E.res(st, a[k]), Const):
                    continue
                if isinstance(s, tuple):
                    l = X.lin(a[s[1]])
                else:
                    l = const(s)
                yield a[k], l, n
        r = EXTR.get(n)
        if r and self.reads:
            for k, s in r:
                if isinstance(E.res(st, a[k]), Const):
                    continue
                l = X.lin(a[s[1]]) if isinstance(s, tuple) else const(s)
                yield a[k], l, n + " source"


# results of library functions, established by posts() on their bodies
POST = {}
ALLOCSZ = {"malloc": (0,), "calloc": (0, 1), "realloc": (1,)}
CALLOBJ = {}
EXT = {"HMAC": [(5, 64)], "EVP_EncryptUpdate": [(1, ("a", 4)), (2, 4)], "EVP_DecryptUpdate": [(1, ("a", 4)), (2, 4)], "secp256k1_ec_pubkey_serialize": [(1, 33), (2, 8)],
       "EVP_CIPHER_CTX_ctrl": []}
EXTR = {"llvm.memcpy.p0.p0.i64": [(1, ("a", 2))], "llvm.memmove.p0.p0.i64": [(1, ("a", 2))], "memcmp": [(0, ("a", 2)), (1, ("a", 2))],
        "SHA256": [(0, ("a", 1))], "SHA512": [(0, ("a", 1))], "secp256k1_schnorrsig_sign32": [(2, 32), (4, 32)], "secp256k1_ec_pubkey_create": [(2, 32)],
        "secp256k1_keypair_create": [(2, 32)], "secp256k1_xonly_pubkey_parse": [(2, 32)], "secp256k1_schnorrsig_verify": [(1, 64), (2, ("a", 3))],
        "mbedtls_sha256": [(0, ("a", 1))], "secp256k1_ec_pubkey_parse": [(2, ("a", 3))], "PKCS5_PBKDF2_HMAC": [(2, ("a", 3))], "HMAC": [(1, ("a", 2)), (3, ("a", 4))]}
ID = "n"


def fmtmax(E, st, f, args):
    """longest output (with terminator) of a constant format whose conversions are bounded"""
    b, o = E.ptr(st, f)
    if not isinstance(b, Global) or b.init_str is None or o != 0:
        return None
    s = b.init_str
    if isinstance(s, bytes):
        s = s.decode("latin1")
    s = s.rstrip("\0")
    n, k, pos = 1, 0, 0
    strs = {}
    while pos < len(s):
        if s[pos] != "%":
            n += 1
            pos += 1
            continue
        m = re.match(r"%(0?)(\d*)(hh|h|ll|l|z)?([xXdugcs%])", s[pos:])
        if not m:
            return None
        pos += m.end()
        if m.group(4) == "%":
            n += 1
            continue
        v = E.res(st, args[k])
        k += 1
        r = E.rng(st, v)
        if m.group(4) == "c":
            n += 1
            continue
        if m.group(4) == "s":
            if m.group(2):
                return None
            b, o = E.ptr(st, v)
            if isinstance(b, Global) and b.init_str is not None and o == 0:
                n += len(b.init_str.rstrip("\0" if isinstance(b.init_str, str) else b"\0"))
                continue
            l = [c for c in E.fn.insts() if c.op == "call" and c.cname == "strlen" and E.res(st, c.ops[0]) is v]
            if not l:
                return None
            strs[l[0]] = strs.get(l[0], 0) + 1
            continue
        if m.group(4) in "xX":
            w = len("%x" % r[1])
        elif m.group(4) == "u":
            w = len("%d" % r[1])
        else:
            w = max(len(str(r[2])), len(str(r[3])))
        n += max(w, int(m.group(2) or 0))
    return add(const(n), strs)


def sh(l):
    def nm(v):
        if isinstance(v, Arg):
            return v.name
        if isinstance(v, Inst):
            if v.op == "call":
                return "%s()" % v.cname
            return "%s@%s" % (v.op, v.line)
        return str(v)
    return " + ".join(("%d" % n) if v == ONE else ("%s%s" % ("" if n == 1 else "%d*" % n, nm(v))) for v, n in sorted(l.items(), key=lambda x: str(x[0]))) or "0"


class Posts(Bounds):
    """upper bounds of an integer function's result that hold at every return"""
    def __init__(self, P, fn, L, contracts, heap=None):
        Bounds.__init__(self, P, fn, L, contracts, heap, reads=False)
        self.cand = {a.idx for a in fn.args if a.ty in ("i64", "i32")}
        self.hi = 0
        self.n = 0
    def check(self, *a, **k):
        pass
    def pre_call(self, E, st, i):
        pass
    def on_ret(self, E, st, i, val):
        self.n += 1
        if E.rng(st, val)[3] < 0:
            return
        X = Lin(E, st)
        l = X.lin(val)
        self.hi = max(self.hi, X.upper(l) if E.rng(st, val)[2] >= 0 else 1 << 64)
        for k in list(self.cand):
            if not X.prove(add(l, X.lin(self.fn.args[k]), -1)):
                self.cand.discard(k)


def posts(P, L, contracts, heap=None):
    import esp
    POST.clear()
    for n, f in sorted(P.fn.items()):
        t = L.protos.get(n)
        if f.insts is None or not any(i.op == "ret" and i.ops and getattr(i.ops[0], "ty", "") in ("i32", "i64") for i in f.insts()):
            continue
        if t and t[0] in ("nostr_error_t", "bool"):
            continue
        c = Posts(P, f, L, contracts, heap)
        try:
            esp.Engine(f, c, P.fx, 30000).run()
        except Broken:
            continue
        if c.n:
            POST[n] = [(0, k) for k in sorted(c.cand)] + ([(c.hi, None)] if c.hi < 1 << 20 else [])
    return POST

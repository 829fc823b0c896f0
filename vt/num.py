"""Numbers read from text and JSON: conversions checked on every path, no value-changing narrowing or wrap.

Two analyses per function.
  Conv: one run per conversion call (strto*, ato*).  The state is split on what the call can report: a number
        ('g'), no digits ('e': end pointer = start), trailing characters ('t': end pointer at a non-zero
        character), out of range ('o': saturated value and errno = ERANGE).  In e/t/o the value may not be used:
        stored outside the frame, returned, passed on or compared with something that is not a constant.
        A trailing part the code goes on to interpret (its character is compared with another constant or
        passed on, or the end pointer becomes the parsing cursor) is not trailing garbage.
  Narrow: one run per function.  Every truncation, floating-to-integer conversion and multiplication of a
        parsed value must keep the value on every path (ranges from the dominating comparisons)."""
import math
import esp, prog, layout
from esp import BaseClient, mk, s_of, cmpc, fold
from ir import Inst, Const, Arg, Global

STRTO = {"strtoul": (64, False), "strtoull": (64, False), "strtol": (64, True), "strtoll": (64, True),
         "__isoc23_strtoul": (64, False), "__isoc23_strtoull": (64, False), "__isoc23_strtol": (64, True), "__isoc23_strtoll": (64, True),
         "strtoumax": (64, False), "strtoimax": (64, True)}
ATO = {"atoi": 32, "atol": 64, "atoll": 64}
SCAN = {"sscanf", "__isoc99_sscanf", "__isoc23_sscanf"}
ERRNO = Inst()
ERRNO.op, ERRNO.ops, ERRNO.ty, ERRNO.w, ERRNO.bb, ERRNO.id, ERRNO.name, ERRNO.line, ERRNO.file, ERRNO.size, ERRNO.sf = "errno", [], "ptr", 0, None, -9001, "errno", 0, "", 0, None
CARRY = {"trunc", "zext", "sext", "add", "sub", "mul", "shl", "or", "and", "xor", "phi", "select", "fptosi", "fptoui", "sitofp", "uitofp", "udiv", "sdiv", "freeze", "fpext", "fptrunc", "fmul", "fadd", "fsub", "fdiv"}


def fake(name, ty, w):
    x = Inst()
    x.op, x.ops, x.ty, x.w, x.bb, x.id, x.name, x.line, x.file, x.size, x.sf = name, [], ty, w, None, -9002, name, 0, "", 0, None
    return x


class Conv(BaseClient):
    init = "n"
    cap = 12

    def __init__(self, P, fn, site):
        self.P, self.fn, self.site = P, fn, site
        n = site.cname
        self.w, self.sg = STRTO[n] if n in STRTO else (ATO[n], True)
        self.endv = fake("endp", "ptr", 0)
        self.bad = {}
        p = layout.layout(P.cfg).protos.get(fn.name)
        self.err = p is not None and p[0] in ("nostr_error_t", "nostr_relay_error_t")

    def keep(self, st):
        return {self.site} if st.ts != "n" else ()

    def from_site(self, E, v, depth=0):
        return isinstance(v, Inst) and (v is self.site or self.site in E.info.dep(v))

    def chain(self, E, st, v, x, d=0):
        """value of v when the conversion returned x, if v is a pure function of it"""
        v = E.res(st, v)
        if v is self.site:
            return x & ((1 << self.w) - 1)
        if isinstance(v, Const):
            return v.v if v.kind == "int" else None
        if isinstance(v, Inst) and d < 8 and v.op in ("zext", "sext", "trunc"):
            y = self.chain(E, st, v.ops[0], x, d + 1)
            if y is None:
                return None
            if v.op == "sext":
                y = s_of(y, E.width(E.res(st, v.ops[0])))
            return y & ((1 << v.w) - 1)
        if isinstance(v, Inst) and d < 8 and v.w and len(v.ops) == 2 and v.op in esp.PURE and v.op not in ("gep", "icmp"):
            a, b = self.chain(E, st, v.ops[0], x, d + 1), self.chain(E, st, v.ops[1], x, d + 1)
            if a is not None and b is not None:
                return fold(v.op, a, b, v.w)
        return E.ev(st, v)

    def t(self, st):
        return st.ts[0] if isinstance(st.ts, tuple) else st.ts

    def val(self, ts):
        return {"e": 0, "oh": ((1 << (self.w - 1)) - 1) if self.sg else (1 << self.w) - 1, "ol": -(1 << (self.w - 1))}.get(ts)

    def use(self, E, st, v, i, how):
        if st.ts in ("n", "g") or isinstance(st.ts, tuple):
            return
        if v is not None and self.from_site(E, E.res(st, v)):
            st.ts = (st.ts, i, how)

    def report(self, E, st):
        """a value used in an outcome other than 'g' survives"""
        if isinstance(st.ts, tuple):
            t, i, how = st.ts
            what = {"e": "no digits were found", "t": "characters after the number were ignored", "oh": "the number was out of range", "ol": "the number was out of range"}[t]
            self.bad.setdefault((t[0], i), (i, what, how, E.trail_lines(st)))

    def on_call(self, E, st, i):
        n = i.cname
        if n == "__errno_location":
            E.forget(st, i)
            st.env[i] = ERRNO
            return [st]
        if i is not self.site:
            for a in i.ops:
                if self.t(st) == "t" and self.is_tail(E, st, a):
                    st.ts = "g"
                if not (n or "").startswith("llvm."):
                    self.use(E, st, a, i, "passed to %s" % (n or "a function pointer"))
            return None
        self.report(E, st)
        E.clobber(st, i)
        start = E.res(st, i.ops[0])
        eb, eo = E.ptr(st, i.ops[1]) if n in STRTO else (None, None)
        has_end = n in STRTO and not (isinstance(E.res(st, i.ops[1]), Const))
        out = []
        cases = ["g", "e", "t", "oh"] + (["ol"] if self.sg else [])
        for c in cases:
            s = st.copy()
            s.ts = c
            s.env.pop(i, None)
            if has_end and eo is not None:
                E.kill_base(s, eb, eo, eo + 8)
                if c == "e":
                    s.mem[(eb, eo)] = (8, start)
                elif c == "t":
                    s.mem[(eb, eo)] = (8, self.endv)
            if c in ("oh", "ol"):
                E.kill_base(s, ERRNO, 0, 4)
                s.mem[(ERRNO, 0)] = (4, mk(34, 32))
            elif c in ("g", "t") and st.mem.get((ERRNO, 0)):
                s.mem[(ERRNO, 0)] = st.mem[(ERRNO, 0)]
            out.append(s)
        return out

    def is_tail(self, E, st, v):
        """v is the end pointer or the character it points at"""
        v = E.res(st, v)
        n = 0
        while isinstance(v, Inst) and n < 12:
            if v is self.endv:
                return True
            if v.op in ("zext", "sext", "trunc", "freeze", "gep", "load"):
                if v.op == "load" and E.ptr(st, v.ops[0])[0] is not self.endv:
                    return False
                v = E.res(st, v.ops[0])
                n += 1
                continue
            return False
        return False

    def on_load(self, E, st, i, base, off):
        if base is self.endv and off == 0 and self.t(st) == "t":
            m = st.mem.get((base, off))
            if m is None:
                E.forget(st, i)
                st.mem[(base, off)] = (i.size, i)
                w = i.w
                st.con[i] = (1, (1 << w) - 1, -(1 << (w - 1)), (1 << (w - 1)) - 1, frozenset((0,)))
                return [st]
        return None

    def on_fact(self, E, st, pred, a, b):
        t = self.t(st)
        if t in ("n", "g"):
            return st
        ra, rb = E.res(st, a), E.res(st, b)
        for x, y in ((ra, rb), (rb, ra)):
            if t == "t":
                if self.is_tail(E, st, x) and isinstance(y, Const) and y.kind == "int" and y.v != 0:
                    st.ts = "g"
                    return st
                if (x is self.endv or y is self.endv) and pred == "eq":
                    # equal to the start (no digits) or to the limit of the text: not this outcome / nothing behind
                    return None
        sa, sb = self.from_site(E, ra), self.from_site(E, rb)
        if sa or sb:
            x = self.val(t)
            if x is not None:
                va, vb = self.chain(E, st, ra, x), self.chain(E, st, rb, x)
                if va is not None and vb is not None:
                    return st if cmpc(pred, va, vb, E.width(ra) if not isinstance(ra, Const) else E.width(rb)) else None
            other = rb if sa else ra
            if E.ev(st, other) is None and not (sa and sb):
                w = ra if sa else rb
                self.use(E, st, w, self.cur or self.site, "compared with another value")
        return st

    cur = None

    def on_block(self, E, st, blk):
        self.cur = blk.insts[-1]
        if self.t(st) == "t":
            for i in blk.insts:
                if i.op != "phi":
                    break
                if E.res(st, i) is self.endv:
                    st.ts = "g"
                    break
        return st

    def on_store(self, E, st, i, base, off, size, val):
        if isinstance(base, Inst) and base.op == "alloca" and base not in E.esc():
            return None
        if base is ERRNO:
            return None
        v = E.res(st, i.ops[0])
        if self.t(st) == "t" and v is self.endv:
            st.ts = "g"
        self.use(E, st, v, i, "stored")
        return None

    def on_ret(self, E, st, i, val):
        if i.ops:
            self.use(E, st, i.ops[0], i, "returned")
            if self.err and val is not None and E.ev(st, val) not in (0, None):
                return
        self.report(E, st)


def sources(f):
    out = []
    for i in f.insts():
        if i.op == "call" and (i.cname in STRTO or i.cname in ATO or i.cname in ("cJSON_GetNumberValue", "strtod", "atof")):
            out.append(i)
        elif i.op == "load":
            p = i.ops[0]
            if isinstance(p, Inst) and p.op == "gep" and p.sf and p.sf[0] == "struct.cJSON" and p.sf[1] in (5, 6):
                out.append(i)
    return out


def users(f):
    u = {}
    for i in f.insts():
        for o in i.ops:
            if isinstance(o, Inst):
                u.setdefault(o, []).append(i)
    return u


class Narrow(BaseClient):
    init = frozenset()
    cap = 12

    def __init__(self, P, fn, T, targets):
        self.P, self.fn, self.T, self.targets = P, fn, T, targets
        self.bad = {}
        self.okk = set()

    def keep(self, st):
        return {r for r, l, h in st.ts} | {h for r, l, h in st.ts if l == "div"}

    def droot(self, E, st, v):
        v = E.res(st, v)
        while isinstance(v, Inst) and v.op in ("fpext", "fptrunc", "freeze"):
            v = E.res(st, v.ops[0])
        return v

    def on_fact(self, E, st, pred, a, b):
        ra, rb = E.res(st, a), E.res(st, b)
        for x, y, p in ((ra, rb, pred), (rb, ra, esp.SWAP[pred])):
            if p in ("ule", "ult") and isinstance(y, Inst) and y.op == "udiv" and isinstance(x, Inst):
                s = E.res(st, y.ops[1])
                if isinstance(s, Inst) and E.ev(st, y.ops[0]) is not None:
                    st.ts = st.ts | {(x, "div", s)}
        if isinstance(ra, Inst) and ra.op == "fcmp" and isinstance(b, Const):
            truth = (pred == "ne") == (b.v == 0)
            x, y = self.droot(E, st, ra.ops[0]), E.res(st, ra.ops[1])
            p = ra.pred
            if getattr(x, "f", None) is not None and getattr(y, "f", None) is None:
                x, y = self.droot(E, st, ra.ops[1]), x
                p = p[0] + {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}.get(p[1:], p[1:])
            k = getattr(y, "f", None)
            if k is None or not isinstance(x, Inst):
                return st
            q = p[1:]
            if not truth:
                q = {"gt": "le", "lt": "ge", "ge": "lt", "le": "gt", "eq": "ne", "ne": "eq"}.get(q, "")
            lo, hi = -math.inf, math.inf
            if q == "gt": lo = math.nextafter(k, math.inf)
            elif q == "ge": lo = k
            elif q == "lt": hi = math.nextafter(k, -math.inf)
            elif q == "le": hi = k
            elif q == "eq": lo = hi = k
            else:
                return st
            d = {r: (l, h) for r, l, h in st.ts if l != "div"}
            l, h = d.get(x, (-math.inf, math.inf))
            lo, hi = max(lo, l), min(hi, h)
            if lo > hi:
                return None
            d[x] = (lo, hi)
            st.ts = frozenset((r, l, h) for r, (l, h) in d.items()) | frozenset(t for t in st.ts if t[1] == "div")
        return st

    def on_load(self, E, st, i, base, off):
        if any(r is i or h is i for r, _, h in st.ts):
            st.ts = frozenset(t for t in st.ts if t[0] is not i and t[2] is not i)
        return None

    def on_phi(self, E, st, phis):
        if any(r in phis or h in phis for r, _, h in st.ts):
            st.ts = frozenset(t for t in st.ts if t[0] not in phis and t[2] not in phis)

    def fits(self, E, st, i):
        w = i.w
        if i.op == "trunc":
            r = E.rng(st, i.ops[0])
            return r[1] < (1 << w) or (r[2] >= -(1 << (w - 1)) and r[3] < (1 << w))
        if i.op in ("fptosi", "fptoui"):
            v = self.droot(E, st, i.ops[0])
            if getattr(v, "f", None) is not None:
                return True
            if isinstance(v, Inst) and v.op in ("sitofp", "uitofp"):
                return True
            d = {r: (l, h) for r, l, h in st.ts if l != "div"}
            l, h = d.get(v, (-math.inf, math.inf))
            if i.op == "fptosi":
                return l >= -(2.0 ** (w - 1)) and h < 2.0 ** (w - 1)
            return l > -1.0 and h < 2.0 ** w
        if i.op in ("mul", "shl"):
            a, b = E.rng(st, i.ops[0]), E.rng(st, i.ops[1])
            if i.op == "shl":
                if b[1] > 63:
                    return False
                b = (1 << b[0], 1 << b[1], 1 << b[0], 1 << b[1])
            if a[1] * b[1] < (1 << w):
                return True
            x, y = E.res(st, i.ops[0]), E.res(st, i.ops[1])
            if i.op == "mul" and ((x, "div", y) in st.ts or (y, "div", x) in st.ts):
                return True
            c = [x * y for x in (a[2], a[3]) for y in (b[2], b[3])]
            return min(c) >= -(1 << (w - 1)) and max(c) < 1 << (w - 1)
        return True

    def visit(self, E, st, i):
        if self.fits(E, st, i):
            self.okk.add(i)
        else:
            self.bad.setdefault(i, (E.rng(st, i.ops[0])[:4] if i.op not in ("fptosi", "fptoui") else None, E.trail_lines(st)))


class NEngine(esp.Engine):
    def step(self, st, i):
        if i in self.c.targets:
            self.c.visit(self, st, i)
        return esp.Engine.step(self, st, i)


def one(a):
    cfg, name = a
    P = prog.prog(cfg)
    f = P.fn[name]
    out, nconv, nnar = [], 0, 0
    if not f.blocks:
        return name, 0, 0, []
    src = sources(f)
    for i in f.insts():
        if i.op == "call" and i.cname in SCAN:
            g = prog.base_off(i.ops[1])[0]
            fmt = getattr(g, "init_str", None)
            import re
            if fmt is None or re.search(rb"%[0-9]*[hlzjt]*[diouxX]", fmt):
                out.append(("conversion", i.cname, i.loc, "sscanf does not report out-of-range numbers and ignores what follows them", []))
            nconv += 1
    for i in src:
        if i.op != "call" or (i.cname not in STRTO and i.cname not in ATO):
            continue
        nconv += 1
        c = esp.explore(lambda: Conv(P, f, i), f, P.fx)
        seen = set()
        for j, what, how, tr in c.bad.values():
            if what not in seen:
                seen.add(what)
                out.append(("conversion", i.cname, i.loc, "%s at %s:%s although %s" % (how, j.file, j.line, what), tr))
    lens = [i for i in f.insts() if i.op == "call" and i.cname in ("strlen", "strnlen")]
    if src or lens:
        u = users(f)

        def closure(src):
            T, work = set(src), list(src)
            while work:
                for x in u.get(work.pop(), ()):
                    if x.op in CARRY and x not in T:
                        T.add(x)
                        work.append(x)
            return T
        T, L = closure(src), closure(lens)
        targets = {i for i in T if (i.op == "trunc" and i.w > 1 and i.ops[0] in T) or (i.op in ("fptosi", "fptoui")) or (i.op in ("mul", "shl") and not i in src)}
        targets |= {i for i in L if i.op == "trunc" and 1 < i.w <= 16 and i.ops[0] in L}
        nnar = len(targets)
        if targets:
            c = esp.explore(lambda: Narrow(P, f, T, targets), f, P.fx, eng=NEngine)
            for i, (r, tr) in c.bad.items():
                kind = {"trunc": "truncated to %d bits" % i.w, "fptosi": "converted to a %d-bit integer" % i.w, "fptoui": "converted to a %d-bit integer" % i.w}.get(i.op, "multiplied")
                out.append(("narrow", i.op, i.loc, "a parsed number or length is %s without having been checked to fit%s" % (kind, "" if r is None else " (possible range %d..%d)" % (r[2], r[3]) if r[2] > -(1 << 62) else ""), tr))
    return name, nconv, nnar, out


def run(cfg):
    import multiprocessing
    P = prog.prog(cfg)
    layout.layout(cfg)
    names = sorted(P.fn, key=lambda n: -sum(1 for _ in P.fn[n].insts()))
    with multiprocessing.get_context("fork").Pool(8) as pool:
        return pool.map(one, [(cfg, n) for n in names], chunksize=1)

"""What a filter match means: every constraint that is present was found to hold, on every path that answers yes;
some constraint was found not to hold, on every path that answers no."""
import esp, prog, layout
from prov import ProvClient
from esp import mk
from ir import Inst, Const, Arg

FR, ER = "nostr_filter_t", "nostr_event"
GENREC = "struct.nostr_generic_tag_filter_t"
FULL = {"strcmp", "strcasecmp"}


def off(L, rec, f):
    return L.off[(rec, f)][0]


class One(ProvClient):
    """true side, one constraint"""
    cap = 8
    tcap = 10
    flags = True

    def __init__(self, P, fn, L, name):
        self.P, self.fn, self.L, self.name = P, fn, L, name
        self.init = ("u", frozenset())
        self.tags = off(L, ER, "tags")
        self.theads = tag_heads(fn)
        self.arr = off(L, FR, name)
        self.cnt = off(L, FR, name + "_count") if name not in ("since", "until") else None
        self.bad = []
        self.nret = 0
        self.why = {}

    def on_push(self, E, st, blk):
        self.prune(E, st, blk)

    def want(self, name=None):
        n = self.name
        if n == "ids": return ("A", 1, off(self.L, ER, "id"))
        if n == "authors": return ("A", 1, off(self.L, ER, "pubkey.data"))
        if n == "kinds": return ("L", 1, off(self.L, ER, "kind"))
        if n == "e_tags": return ("S", b"e")
        if n == "p_tags": return ("S", b"p")
        return None

    def iscnt(self, E, st, v):
        v = E.res(st, v)
        if isinstance(v, Inst) and v.op == "load":
            b, o = E.ptr(st, v.ops[0])
            return isinstance(b, Arg) and b.idx == 0 and o == self.cnt
        return False

    def compare(self, E, st, call):
        """a successful comparison call: does it establish the constraint?"""
        n = call.cname
        if n not in ("strcmp", "strncmp", "memcmp", "nostr_constant_time_memcmp", "strcasecmp", "strncasecmp"):
            return False
        a, b = self.tok(E, st, call.ops[0]), self.tok(E, st, call.ops[1])
        f = ("L", 0, self.arr)
        w = self.want()
        if self.name in ("e_tags", "p_tags", "generic_tags"):
            # a value of the constraint against the value of an event tag of the right name
            for x, y, cx, ey in ((a, b, call.ops[0], call.ops[1]), (b, a, call.ops[1], call.ops[0])):
                if f in x and not self.fromev(x) and (self.name != "generic_tags" or ("F", GENREC, 1) in x) and self.fromev(y) and self.tagvalue(E, st, ey, y):
                    return self.whole(E, st, call)
            return False
        if not ((f in a and w in b and f not in b) or (f in b and w in a and f not in a)):
            return False
        # ids and authors: a prefix of the value's own hex
        ev = b if f in a else a
        if not any(t[0] == "C" and "hex" in t[1] for t in ev):
            return False
        if n == "strcmp":
            return True
        if len(call.ops) < 3:
            return False
        k = E.ev(st, call.ops[2])
        v = E.res(st, call.ops[2])
        while isinstance(v, Inst) and v.op in ("zext", "freeze"):
            v = E.res(st, v.ops[0])
        return isinstance(v, Inst) and v.op == "call" and v.cname in ("strlen", "strnlen") and f in self.tok(E, st, v.ops[0]) or (k is not None and k >= 64)

    def fromev(self, t):
        return any(x[0] in ("A", "L") and x[1] == 1 for x in t)

    def isname(self, t):
        """text derived from the tag name this constraint is about"""
        if self.name == "generic_tags":
            return ("L", 0, self.arr) in t and ("F", GENREC, 1) not in t
        return self.want() in t

    def tagvalue(self, E, st, v, t):
        """is v the value of a tag whose name was found to be the constraint's?"""
        if ("C", "nostr_event_get_tag_values") in t:
            return self.isname(t)       # see lookup()
        return self.cell(E, st, v) == 8 and "nm" in self.B(st)

    def cell(self, E, st, v):
        v = E.res(st, v)
        if isinstance(v, Inst) and v.op == "load":
            b, o = E.ptr(st, v.ops[0])
            if isinstance(b, Inst) and b.op == "load" and ("L", 1, self.tags) in self.tok(E, st, b):
                return o
        return None

    def name_fact(self, E, st, x, y):
        """strcmp(name of an event tag, the constraint's name) came out equal"""
        if isinstance(x, Inst) and x.op == "call" and x.cname == "strcmp" and E.ev(st, y) == 0:
            for p, q in ((0, 1), (1, 0)):
                t = self.tok(E, st, x.ops[q])
                if self.cell(E, st, x.ops[p]) == 0 and not self.fromev(t) and self.isname(t):
                    self.setB(st, "nm", ())

    def whole(self, E, st, call):
        """does the comparison cover both texts to their end?"""
        if call.cname == "strcmp":
            return True
        k = E.ev(st, call.ops[2]) if call.cname == "strncmp" else None
        return k is not None and k >= 1 << 31

    def on_fact(self, E, st, pred, a, b):
        ra, rb = E.res(st, a), E.res(st, b)
        s = st.ts[0]
        if self.name in ("since", "until"):
            return self.bound(E, st, pred, ra, rb)
        for x, y in ((ra, rb), (rb, ra)):
            if self.iscnt(E, st, x) and E.rng(st, x)[1] == 0:
                self.set(st, "z")
                return st
        hit = False
        if pred == "eq":
            for x, y in ((ra, rb), (rb, ra)):
                if self.name in ("e_tags", "p_tags", "generic_tags"):
                    self.name_fact(E, st, x, y)
                if isinstance(x, Inst) and x.op == "call" and E.ev(st, y) == 0 and self.compare(E, st, x):
                    hit = True
            if self.name == "kinds" and not isinstance(ra, Const) and not isinstance(rb, Const):
                ta, tb = self.tok(E, st, ra), self.tok(E, st, rb)
                f, w = ("L", 0, self.arr), self.want()
                if (f in ta and w in tb or f in tb and w in ta) and not self.narrowed(E, st, ra) and not self.narrowed(E, st, rb):
                    hit = True
        if hit:
            self.set(st, ("m",) if isinstance(s, tuple) or self.name == "generic_tags" else "m")
            if self.name == "generic_tags":
                self.set(st, "gm")
            return st
        if self.name == "generic_tags" and s in ("gm", "gk", "u"):
            # the loop over the constraints ended at its end
            for x, y, p in ((ra, rb, pred), (rb, ra, esp.SWAP[pred])):
                if self.iscnt(E, st, y) and p in ("uge", "eq", "ugt") and s in ("gm", "gk"):
                    self.set(st, "gd")
                    return st
        return st

    def narrowed(self, E, st, v):
        v = E.res(st, v)
        n = 0
        while isinstance(v, Inst) and v.op in ("zext", "sext", "trunc", "freeze") and n < 6:
            if v.op == "trunc" or v.op == "sext" and self.want() in self.tok(E, st, v):
                return True      # the event's kind is unsigned
            v = E.res(st, v.ops[0])
            n += 1
        return False

    def isload(self, E, st, v, arg, o):
        v = E.res(st, v)
        if isinstance(v, Inst) and v.op == "load":
            b, k = E.ptr(st, v.ops[0])
            return isinstance(b, Arg) and b.idx == arg and k == o
        return False

    def bound(self, E, st, pred, ra, rb):
        cr = off(self.L, ER, "created_at")
        for x, y, p in ((ra, rb, pred), (rb, ra, esp.SWAP[pred])):
            if self.isload(E, st, x, 0, self.arr) and E.rng(st, x)[3] <= 0:
                self.set(st, "z")
                return st
            if self.isload(E, st, x, 1, cr) and self.isload(E, st, y, 0, self.arr):
                if p == ("sge" if self.name == "since" else "sle"):
                    self.set(st, "m")
                elif p == ("sgt" if self.name == "since" else "slt"):
                    self.set(st, "strict")
                elif p == ("slt" if self.name == "since" else "sgt"):
                    self.set(st, "viol")
        return st

    def on_call(self, E, st, i):
        self.prov_call(E, st, i)
        return None

    def on_store(self, E, st, i, base, o, size, val):
        self.prov_store(E, st, i, base, o, val)
        return None

    def on_load(self, E, st, i, base, o):
        if self.name == "generic_tags" and isinstance(i.ops[0], Inst):
            p = i.ops[0]
            if p.op == "gep" and p.sf and p.sf[0] == GENREC and ("L", 0, self.arr) in self.tok(E, st, p):
                if st.ts[0] in ("gm", "gk", "u", "z"):
                    ix = tuple(sorted(id(E.res(st, v)) for q in self.geps(E, st, p) for v, _ in q.gep[1]))
                    if st.ts[0] == "gm" and not self.fresh_iter(st):
                        return None
                    self.set(st, "gp")
        return None

    def geps(self, E, st, p):
        out = []
        while isinstance(p, Inst) and p.op == "gep":
            out.append(p)
            p = E.res(st, p.ops[0])
        return out

    def fresh_iter(self, st):
        return False

    def on_block(self, E, st, blk):
        if blk in self.theads and "nm" in self.B(st):
            st.ts = (st.ts[0], frozenset(x for x in st.ts[1] if x[0] != "nm"))
        # the head of the loop over the generic constraints: a new one begins
        if self.name == "generic_tags" and blk in self.heads:
            if st.ts[0] == "gm":
                self.set(st, "gk")
            elif st.ts[0] == "gp" and blk in self.heads:
                self.set(st, "gx")
        return st

    def on_ret(self, E, st, i, val):
        self.nret += 1
        if val is None or E.rng(st, val)[1] == 0:
            return
        if E.ev(st, val) == 0:
            return
        s = st.ts[0]
        ok = s in ("z", "m") or s == "gd"
        if not ok:
            self.bad.append((i, s, E.trail_lines(st)))


def outer_heads(f, L):
    """headers of the loops that advance over filter->generic_tags (the loop whose phi indexes the element)"""
    import esp as _e
    info = _e.info(f)
    hs = set()
    for i in f.insts():
        if i.op == "gep" and i.sf and i.sf[0] == GENREC:
            q = i.ops[0]
            n = 0
            while isinstance(q, Inst) and q.op == "gep" and n < 6:
                for v, _ in q.gep[1]:
                    for x in info.dep(v):
                        if isinstance(x, Inst) and x.op == "phi" and x.bb in info.headers:
                            hs.add(x.bb)
                q = q.ops[0]
                n += 1
            if isinstance(q, Inst) and q.op == "phi" and q.bb in info.headers:
                hs.add(q.bb)
    return hs


def tag_heads(f):
    """headers of the loops that advance over an event's tags"""
    info = esp.info(f)
    hs = set()
    for i in f.insts():
        if i.op == "gep" and i.gep and i.gep[1] and isinstance(i.ops[0], Inst) and i.ops[0].op == "load":
            p = i.ops[0].ops[0]
            if isinstance(p, Inst) and p.op == "gep" and p.sf and p.sf[0] == "struct.nostr_event":
                for v, _ in i.gep[1]:
                    hs |= {x.bb for x in info.dep(v) if isinstance(x, Inst) and x.op == "phi" and x.bb in info.headers}
    return hs


WHY = {"u": "the constraint was never looked at", "viol": "the bound was found violated", "strict": "an event exactly at the bound was excluded",
       "gp": "a tag constraint had no matching tag", "gx": "a tag constraint had no matching tag", "gk": "not every tag constraint was looked at", "gm": "not every tag constraint was looked at"}


def lin(v):
    k, n = 0, 0
    while isinstance(v, Inst) and n < 8:
        n += 1
        if v.op in ("zext", "sext", "freeze") and isinstance(v.ops[0], Inst):
            v = v.ops[0]
        elif v.op == "add" and isinstance(v.ops[1], Const):
            k, v = k + v.ops[1].s, v.ops[0]
        elif v.op == "sub" and isinstance(v.ops[1], Const):
            k, v = k - v.ops[1].s, v.ops[0]
        else:
            break
    return v, k


def skips(f, counts, argcounts=()):
    """loops over stored lists that do not visit every element: -> (loops looked at, [(inst, why)])
    counts: {(record, field)} fields that hold the number of elements"""
    info = esp.info(f)
    out, loops = [], 0
    ctr = {}
    for i in f.insts():
        if i.op == "gep" and i.gep and i.gep[1]:
            for v, _ in i.gep[1]:
                b, k = lin(v)
                if isinstance(b, Inst) and b.op == "phi" and b.bb in info.headers:
                    ctr.setdefault(b, i)
    for c, use in ctr.items():
        steps = [lin(v)[1] for v, p in c.inc if isinstance(v, Inst) and lin(v)[0] is c]
        init = [v for v, p in c.inc if isinstance(v, Const)]
        if not steps or any(s <= 0 for s in steps):
            continue
        hit = False
        for i in f.insts():
            if i.op != "icmp":
                continue
            (x, a), (y, b) = lin(i.ops[0]), lin(i.ops[1])
            p = i.pred
            if y is c:
                (x, a), (y, b), p = (y, b), (x, a), esp.SWAP[p]
            if x is not c or not (isinstance(y, Arg) and y.idx in argcounts or isinstance(y, Inst) and y.op == "load" and isinstance(y.ops[0], Inst) and y.ops[0].op == "gep" and y.ops[0].sf and tuple(y.ops[0].sf) in counts):
                continue
            hit = True
            d = b - a + (1 if p in ("ule", "ugt", "sle", "sgt") else 0)
            if d < 0:
                out.append((i, "the last %d element(s) of the list are never looked at" % -d))
        if hit:
            loops += 1
            if any(isinstance(v, Const) and v.kind == "int" and v.s > 0 for v in init):
                out.append((use, "the first element(s) of the list are never looked at"))
            if any(s > 1 for s in steps):
                out.append((use, "elements of the list are skipped"))
    return loops, out


class Reject(One):
    """false side: something must have been found not to hold"""

    def __init__(self, P, fn, L):
        One.__init__(self, P, fn, L, "ids")
        self.init = ("n", frozenset())
        self.arrs = {n: (off(L, FR, n), off(L, FR, n + "_count")) for n in ("ids", "authors", "kinds", "e_tags", "p_tags", "generic_tags")}

    def on_load(self, E, st, i, base, o):
        return None

    def on_block(self, E, st, blk):
        return st

    def on_fact(self, E, st, pred, a, b):
        ra, rb = E.res(st, a), E.res(st, b)
        for x, y, p in ((ra, rb, pred), (rb, ra, esp.SWAP[pred])):
            if isinstance(x, Arg) and p == "eq" and E.ev(st, y) == 0:
                self.set(st, "j")
            for n, (ao, co) in self.arrs.items():
                if n != "generic_tags" and self.isload(E, st, y, 0, co) and p in ("uge", "eq") and E.ev(st, y) is None:
                    self.set(st, "j")
            if isinstance(E.res(st, y), Inst) and E.res(st, y).op == "load" and p in ("uge", "eq") and ("F", GENREC, 2) in self.tok(E, st, y):
                self.set(st, "j")
            cr = off(self.L, ER, "created_at")
            if self.isload(E, st, x, 1, cr):
                if self.isload(E, st, y, 0, off(self.L, FR, "since")) and p == "slt" and E.rng(st, y)[2] > 0:
                    self.set(st, "j")
                if self.isload(E, st, y, 0, off(self.L, FR, "until")) and p == "sgt" and E.rng(st, y)[2] > 0:
                    self.set(st, "j")
        return st

    def on_ret(self, E, st, i, val):
        self.nret += 1
        if val is None:
            return
        k = E.rng(st, val)
        if k[0] == 0 and st.ts[0] != "j":
            self.bad.append((i, "r", E.trail_lines(st)))


class Any(ProvClient):
    """filters[0..count) against one event: yes exactly if one of them matched"""
    cap = 8
    flags = True

    def __init__(self, P, fn, L, ev, inner):
        self.P, self.fn, self.L, self.ev, self.inner = P, fn, L, ev, inner
        self.init = ("n", frozenset())
        self.bad = []
        self.nret = self.ncall = 0

    def on_call(self, E, st, i):
        if i.cname in self.inner:
            b, o = E.ptr(st, i.ops[0])
            self.ncall += 1
            good = isinstance(b, Arg) and b.idx == 0 and isinstance(E.res(st, i.ops[1]), Arg) and E.res(st, i.ops[1]).idx == self.ev
            p = E.res(st, i.ops[0])
            if good and o is None:
                if isinstance(p, Inst) and p.op == "phi":
                    good = all(isinstance(v, Arg) or isinstance(v, Inst) and v.op == "gep" and v.ops[0] is p and v.gep == (self.L.size["nostr_filter_t"], []) for v in p.ops)
                else:
                    good = isinstance(p, Inst) and p.op == "gep" and all(sc == self.L.size["nostr_filter_t"] for _, sc in p.gep[1])
            elif good and not (isinstance(i.ops[0], Inst) and (i.ops[0].op == "phi" or i.ops[0].gep and i.ops[0].gep[1])):
                good = False      # always the same filter
            if len(self.fn.args) > 3 and self.fn.args[3].idx == 3:
                if i.cname.endswith("_with_search"):
                    good = good and all(E.res(st, i.ops[k]) is self.fn.args[k + 1] for k in (2, 3))
                else:
                    good = False
            E.clobber(st, i)
            out = []
            for x in E.acmp(st.copy(), "ne", i, mk(0, i.w)):
                self.set(x, "y" if good else "w")
                out.append(x)
            for x in E.acmp(st.copy(), "eq", i, mk(0, i.w)):
                if not good:
                    self.set(x, "w")
                out.append(x)
            return out
        return None

    def on_fact(self, E, st, pred, a, b):
        ra, rb = E.res(st, a), E.res(st, b)
        for x, y, p in ((ra, rb, pred), (rb, ra, esp.SWAP[pred])):
            if isinstance(x, Arg) and p == "eq" and E.ev(st, y) == 0 and st.ts[0] == "n":
                self.set(st, "x")
            if isinstance(y, Arg) and y.idx == 1 and p in ("uge", "eq") and E.ev(st, y) is None and st.ts[0] == "n":
                self.set(st, "x")
            if isinstance(y, Inst) and y.op == "gep" and p in ("uge", "eq") and st.ts[0] == "n" and isinstance(y.ops[0], Arg) and y.ops[0].idx == 0 and \
               any(E.res(st, v) is self.fn.args[1] for v, _ in y.gep[1]) and y.gep[0] == 0:
                self.set(st, "x")
        return st

    def on_ret(self, E, st, i, val):
        self.nret += 1
        r = E.rng(st, val)
        s = st.ts[0]
        if s == "w":
            self.bad.append((i, "the filters or the event handed to the matcher are not the caller's", E.trail_lines(st)))
        elif s == "y" and r[0] == 0:
            self.bad.append((i, "the answer is no although a filter matched", E.trail_lines(st)))
        elif s != "y" and r[1] != 0:
            self.bad.append((i, "the answer is yes although no filter matched", E.trail_lines(st)))
        elif s == "n" and r[0] == 0:
            self.bad.append((i, "the answer is no before every filter was tried", E.trail_lines(st)))


class Search(ProvClient):
    """a filter with a search text"""
    cap = 8
    flags = True
    # state: (base, text, callback)

    def __init__(self, P, fn, L):
        self.P, self.fn, self.L = P, fn, L
        self.so = off(L, FR, "search")
        self.init = (("?", "?", "?"), frozenset())
        self.bad = []
        self.nret = 0

    def is_search(self, E, st, v):
        v = E.res(st, v)
        if isinstance(v, Inst) and v.op == "load":
            b, o = E.ptr(st, v.ops[0])
            return isinstance(b, Arg) and b.idx == 0 and o == self.so
        return False

    def on_call(self, E, st, i):
        b, s, c = st.ts[0]
        if i.cname == "nostr_filter_matches" or i.cname is None:
            A = lambda k, n: E.res(st, i.ops[k]) is self.fn.args[n]
            if i.cname:
                good = A(0, 0) and A(1, 1)
            else:
                good = len(i.ops) >= 3 and self.is_search(E, st, i.ops[0]) and A(1, 1) and A(2, 3)
            E.clobber(st, i)
            out = []
            for pred, r in (("ne", "y"), ("eq", "n")):
                for x in E.acmp(st.copy(), pred, i, mk(0, i.w)):
                    r2 = r if good else "w"
                    self.set(x, (r2, s, c) if i.cname else (b, s, r2))
                    out.append(x)
            return out
        return None

    def on_fact(self, E, st, pred, a, b):
        ra, rb = E.res(st, a), E.res(st, b)
        B, s, c = st.ts[0]
        for x, y, p in ((ra, rb, pred), (rb, ra, esp.SWAP[pred])):
            if E.ev(st, y) != 0:
                continue
            if self.is_search(E, st, x):
                if p == "eq":
                    s = "no"
            elif isinstance(x, Inst) and x.op == "load" and x.w == 8 and self.is_search(E, st, E.ptr(st, x.ops[0])[0]) and E.ptr(st, x.ops[0])[1] == 0:
                s = "no" if p == "eq" else "yes"
            elif isinstance(x, Inst) and x.op == "call" and x.cname == "strlen" and self.is_search(E, st, x.ops[0]):
                s = "no" if p == "eq" else "yes"
            elif isinstance(x, Arg) and p == "eq":
                if x.idx == 2:
                    c = "n"
                else:
                    B = "n"
        self.set(st, (B, s, c))
        return st

    def on_ret(self, E, st, i, val):
        self.nret += 1
        B, s, c = st.ts[0]
        r = E.rng(st, val)
        if "w" in (B, c):
            self.bad.append((i, "the filter's search text, the event or the caller's data is not what the match is asked about", E.trail_lines(st)))
        elif r[1] != 0 and not (B == "y" and (s == "no" or c == "y")):
            self.bad.append((i, "the answer is yes although the filter's other constraints were not found to match" if B != "y" else "the answer is yes although a search text is present that the callback did not accept", E.trail_lines(st)))
        elif r[0] == 0 and not (B == "n" or s == "yes" and c == "n"):
            self.bad.append((i, "the answer is no although neither the filter nor the search callback said so", E.trail_lines(st)))


def others(cfg):
    P = prog.prog(cfg)
    L = layout.layout(cfg)
    out = []
    f = P.get("nostr_filter_matches_with_search")
    c = esp.explore(lambda: Search(P, f, L), f, P.fx)
    out.append((f, c.nret, c.bad))
    for n, ev in (("nostr_filters_match", 2), ("nostr_filters_match_with_search", 2)):
        f = P.get(n)
        c = esp.explore(lambda: Any(P, f, L, ev, ("nostr_filter_matches", "nostr_filter_matches_with_search")), f, P.fx)
        k, b = skips(f, COUNTS(L), (1,))
        out.append((f, c.nret, c.bad + [(i, w, []) for i, w in b]))
    return out


def COUNTS(L):
    """{(record, field index)} of the element counts of filters, tag constraints and events"""
    out = set()
    for rec, c in (("nostr_filter_t", ("ids_count", "authors_count", "kinds_count", "e_tags_count", "p_tags_count", "generic_tags_count")),
                   ("nostr_generic_tag_filter_t", ("values_count",)), ("nostr_event", ("tags_count",)), ("nostr_tag", ("count",))):
        for x in c:
            out.add(("struct." + rec, L.index(rec, x)))
    return out


def matches(cfg):
    P = prog.prog(cfg)
    L = layout.layout(cfg)
    f = P.get("nostr_filter_matches")
    out = []
    for n in ("ids", "authors", "kinds", "since", "until", "e_tags", "p_tags", "generic_tags"):
        def mkc():
            c = One(P, f, L, n)
            c.heads = outer_heads(f, L)
            return c
        c = esp.explore(mkc, f, P.fx)
        out.append((n, c.nret, c.bad))
    c = esp.explore(lambda: Reject(P, f, L), f, P.fx)
    out.append(("reject", c.nret, c.bad))
    n, bad = skips(f, COUNTS(L))
    out.append(("every", n, [(i, why, []) for i, why in bad]))
    return P, f, out

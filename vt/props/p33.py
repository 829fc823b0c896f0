"""P33: every loop in the library comes to an end."""
import prog, light, esp, walk, origin
from front import Broken, CONFIGS
from ir import Inst, Const, Arg
import props.p38 as p38
loc = p38.loc

TECHNIQUE = "progress analysis over the loops of the LLVM IR: on every way round a loop some loop-carried value moves strictly in one direction (interval of its change, through inner loops, searches and list steps), and a test of that value leaves the loop; plus absence of recursion in the call graph"

INF = 1 << 70
CASTS = ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze")
# results that lie behind (or at) their first argument
FORWARD = ("strchr", "strrchr", "strstr", "strpbrk", "memchr", "strcasestr")


# results that depend on the arguments alone
KNOWN = ("str", "mem", "cJSON_Get", "cJSON_Is", "cJSON_Has", "is", "llvm.")


def uncast(v):
    while isinstance(v, Inst) and v.op in CASTS:
        v = v.ops[0]
    return v


def null(v):
    return isinstance(v, Const) and v.kind == "null"


class Loops(object):
    def __init__(self, P, fn):
        self.P, self.fn, self.info = P, fn, esp.info(fn)
        self.bodies = {h: set(walk.loop_body(self.info, h)) for h in self.info.headers}

    # ---- bounds of a value
    def found(self, b, v, h):
        """what the branches on every way to block b say about v: the set of (pred, other)"""
        out, n = [], 0
        while len(b.preds) == 1 and n < 400:
            c, n = b.preds[0], n + 1
            t = c.insts[-1]
            if t.op == "br" and t.ops and t.succs[0] is not t.succs[1]:
                self.said(t.ops[0], t.succs[0] is b, v, out)
            b = c
        return out

    def said(self, x, truth, v, out):
        if not isinstance(x, Inst):
            return
        if x.op == "xor" and x.w == 1 and isinstance(x.ops[1], Const):
            return self.said(x.ops[0], not truth, v, out)
        if x.op == "icmp":
            p = x.pred if truth else p38.NOT[x.pred]
            a, b = uncast(x.ops[0]), uncast(x.ops[1])
            if a is v:
                out.append((p, b))
            elif b is v:
                out.append(({"ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule", "slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle"}.get(p, p), a))

    def low(self, v, b, depth=0):
        """a lower bound of v (as an unsigned length, or signed where it is tested as one) where block b is entered"""
        if depth > 12:
            return -INF
        if isinstance(v, Const):
            return v.s
        if not isinstance(v, Inst):
            return -INF
        best = -INF
        if v.op == "zext":
            best = max(0, self.low(v.ops[0], b, depth + 1))
        elif v.op in ("sext", "trunc", "freeze"):
            best = self.low(v.ops[0], b, depth + 1)
        elif v.op == "add":
            x, y = self.low(v.ops[0], b, depth + 1), self.low(v.ops[1], b, depth + 1)
            best = x + y if x >= 0 and y >= 0 else -INF
        elif v.op == "call" and v.cname in ("strlen", "strspn", "strcspn", "strnlen"):
            best = 0
        elif v.op in ("udiv", "lshr", "and") and isinstance(v.ops[1], Const):
            best = 0
        elif v.op == "phi" and v.bb not in self.bodies:
            best = min(self.low(x, c, depth + 1) for x, c in v.inc)
        elif v.op == "select":
            best = min(self.low(x, b, depth + 1) for x in v.ops[1:])
        for p, o in self.found(b, uncast(v), None):
            if isinstance(o, Const) and o.kind in ("int", "null"):
                k = o.s if o.kind == "int" else 0
                if p in ("sgt", "ugt") and k >= 0:
                    best = max(best, k + 1)
                elif p in ("sge", "uge", "eq") and k >= 0:
                    best = max(best, k)
                elif p == "ne" and k == 0 and best >= 0:
                    best = max(best, 1)
        return best

    # ---- how far a value is from where it was
    def delta(self, v, p, body, b, memo, depth=0):
        """(lo, hi) of v - p, with p the value at the start of the round; None if unknown; null values leave the loop"""
        v = uncast(v)
        if v is p:
            return (0, 0)
        if not isinstance(v, Inst) or v.bb not in body or depth > 60:
            return None
        if v.id in memo:
            return memo[v.id]
        memo[v.id] = None
        D = lambda x, c=v.bb: self.delta(x, p, body, c, memo, depth + 1)
        r = None
        if v.op in ("add", "sub"):
            x, y = v.ops
            if v.op == "add" and (isinstance(x, Const) or D(x) is None):
                x, y = y, x
            d = D(x)
            if self.halfway(v, p, True):
                r = (-INF, 0)
            elif d is not None and d[0] != "next":
                if isinstance(y, Const):
                    k = y.s if v.op == "add" else -y.s
                    r = (d[0] + k, d[1] + k)
                else:
                    half = self.halfway(v, p)
                    lo = self.low(y, v.bb)
                    if half:
                        r = (0, INF)
                    elif v.op == "sub" and self.part(y, x, v.bb):
                        r = (-INF, d[1] - 1)
                    elif lo >= 0:
                        r = (d[0] + lo, INF) if v.op == "add" else (-INF, d[1] - lo)
        elif v.op == "gep":
            d = D(v.ops[0])
            if d == ("next", "next"):
                r = d
            elif not v.gep[1]:
                r = d and (d[0] + v.gep[0], d[1] + v.gep[0])
            elif len(v.gep[1]) == 1:
                x, k = v.gep[1][0]
                y, z = uncast(x), uncast(v.ops[0])
                if isinstance(y, Inst) and isinstance(z, Inst) and y.op == z.op == "phi" and y.bb is z.bb and y.bb not in self.bodies and k == 1:
                    es = []                     # both were chosen together
                    for (m, c), (w, _) in zip(sorted(y.inc, key=lambda q: id(q[1])), sorted(z.inc, key=lambda q: id(q[1]))):
                        m = uncast(m)
                        if null(w):
                            continue
                        if isinstance(m, Inst) and m.op == "sub" and uncast(m.ops[1]) is uncast(w):
                            es.append(D(m.ops[0], c))
                        else:
                            e = D(w, c)
                            es.append(e and e[0] != "next" and (e[0] + self.low(m, c), INF) if self.low(m, c) >= 0 else None)
                    r = self.join(es)
                elif isinstance(y, Inst) and y.op == "sub" and k == 1 and uncast(y.ops[1]) is uncast(v.ops[0]):
                    e = D(y.ops[0])             # x + (e - x)
                    r = e and e[0] != "next" and (e[0] + v.gep[0], e[1] + v.gep[0])
                elif d is not None:
                    lo = self.low(x, v.bb)
                    if isinstance(y, Inst) and y.op == "sub" and isinstance(y.ops[0], Const) and not y.ops[0].v:
                        n = self.low(y.ops[1], v.bb)
                        r = (-INF, d[1] - n * k + v.gep[0]) if n >= 0 else None
                    elif lo >= 0 and k > 0:
                        r = (d[0] + lo * k + v.gep[0], INF)
        elif v.op in ("mul", "shl"):
            y = v.ops[1]
            if isinstance(y, Const) and (y.s >= 2 if v.op == "mul" else y.s >= 1) and (D(v.ops[0]) or (-1, 0))[0] in (0, 1):
                r = (1, INF) if self.positive(p) or self.grew(v, p, b) else (0, INF)
        elif v.op in ("udiv", "sdiv", "lshr", "ashr"):
            y = v.ops[1]
            m = uncast(v.ops[0])
            if isinstance(m, Inst) and m.op == "add" and isinstance(y, Const) and y.s == (2 if "div" in v.op else 1) and p in [uncast(o) for o in m.ops]:
                q = uncast(m.ops[1] if uncast(m.ops[0]) is p else m.ops[0])     # (p + q) / 2
                for k, o in self.found(v.bb, p, None):
                    if o is q:
                        r = (0, INF) if k in ("sle", "slt", "ule", "ult") else (-INF, 0) if k in ("sge", "sgt", "uge", "ugt") else r
            elif uncast(v.ops[0]) is p and isinstance(y, Const) and (y.s >= 2 if "div" in v.op else y.s >= 1) and (v.op[0] in "ul" or self.low(v.ops[0], v.bb) >= 0):
                some = any(q in ("ne", "ugt", "sgt") and isinstance(o, Const) and not o.v for x in (p, v) for q, o in self.found(b, x, None))
                r = (-INF, -1 if some or self.low(p, v.bb) >= 1 else 0)
        elif v.op == "and" and D(v.ops[0]) == (0, 0):
            x = uncast(v.ops[1])                # x & (x - 1)
            if isinstance(x, Inst) and x.op == "add" and uncast(x.ops[0]) is p and isinstance(x.ops[1], Const) and x.ops[1].s == -1:
                r = (-INF, -1)
        elif v.op == "load":
            g = light.conv(v.ops[0])
            if isinstance(g, Inst) and g.op == "gep" and g.bb in body and not g.gep[1] and v.size == 8:
                x = uncast(g.ops[0])
                if x is p or D(x) == ("next", "next"):
                    r = ("next", "next")
            elif g is p and v.size == 8:
                r = ("next", "next")
        elif v.op == "call":
            if v.cname in FORWARD:
                d = D(v.ops[0])
                r = d and (d if d[0] == "next" else (d[0], INF))
            elif v.cname in ("strtok_r", "strtok") and null(v.ops[0]):
                r = ("next", "next")
        elif v.op == "select":
            r = self.join([D(x) for x in v.ops[1:] if not null(x)])
        elif v.op == "phi":
            if v.bb in self.bodies:
                inner = self.bodies[v.bb]
                first = self.join([D(x, c) for x, c in v.inc if c not in inner and not null(x)])
                back = self.join([self.delta(x, v, inner, c, {}, depth + 1) for x, c in v.inc if c in inner and not null(x)])
                if first and back and "next" not in first + back:
                    r = (first[0] if back[0] >= 0 else -INF, first[1] if back[1] <= 0 else INF)
            else:
                r = self.join([D(x, c) for x, c in v.inc if not null(x) and not self.out(v.bb, c, body)])
        r = r or None
        memo[v.id] = r
        if r is not None and r != ("next", "next") and r[0] < 1 and self.grew(v, p, b):
            r = memo[v.id] = (max(r[0], 1), INF)
        return r

    def out(self, b, c, body):
        """who comes to b from c leaves the loop"""
        t = b.insts[-1]
        x = t.ops[0] if t.op == "br" and t.ops else None
        if isinstance(x, Inst) and x.op == "phi" and x.bb is b:
            k = dict((n, w) for w, n in x.inc).get(c)
            return isinstance(k, Const) and k.kind == "int" and t.succs[0 if k.v else 1] not in body
        return False

    def join(self, ds):
        if not ds or any(d is None for d in ds):
            return None
        if any(d[0] == "next" for d in ds):
            return ("next", "next") if all(d[0] == "next" or d[0] > 0 for d in ds) else None
        return (min(d[0] for d in ds), max(d[1] for d in ds))

    def grew(self, v, p, b):
        """v was found to be more than p on every way to block b"""
        return any(q in ("ugt", "sgt") and o is p for q, o in self.found(b, v, None))

    def halfway(self, v, p, upper=False):
        """v = p + (q - p) / n: between p and q (upper: it is q that is asked about)"""
        y = uncast(v.ops[1])
        if not (v.op == "add" and isinstance(y, Inst) and y.op in ("sdiv", "udiv", "lshr", "ashr") and isinstance(y.ops[1], Const)):
            return False
        s = uncast(y.ops[0])
        return isinstance(s, Inst) and s.op == "sub" and uncast(s.ops[1]) is uncast(v.ops[0]) and (not upper or uncast(s.ops[0]) is p)

    def part(self, y, x, b):
        """y is a part of x: x itself cut to what fits, or a smaller positive number"""
        y = uncast(y)
        if y is uncast(x):
            return any(p in ("ugt", "sgt", "ne") and isinstance(o, Const) and o.v == 0 for p, o in self.found(b, y, None))
        if isinstance(y, Inst) and y.op in ("phi", "select") and (y.op == "select" or y.bb not in self.bodies):
            zs = [(z, c) for z, c in y.inc] if y.op == "phi" else [(z, y.bb) for z in y.ops[1:]]
            return all(isinstance(z, Const) and z.s > 0 or not isinstance(z, Const) and (self.low(z, c) > 0 or self.part(z, x, c)) for z, c in zs)
        return False

    def positive(self, p):
        """a number that is doubled begins above zero"""
        xs = [x for x, b in p.inc if b not in self.bodies[p.bb]]
        return bool(xs) and all(self.above(uncast(x), b) for x, b in zip(xs, [b for x, b in p.inc if b not in self.bodies[p.bb]]))

    def above(self, v, b):
        if self.low(v, b) >= 1:
            return True
        if isinstance(v, Inst) and v.op == "load":
            g = light.conv(v.ops[0])
            return isinstance(g, Inst) and g.op == "gep" and bool(g.sf) and member(self.P, tuple(g.sf), places(self.fn, g))
        return False

    # ---- a loop
    def ends(self, h):
        """None if every way round the loop gets closer to leaving it, else what is wrong"""
        body = self.bodies[h]
        ps = [p for p in h.insts if p.op == "phi"]
        ups, downs, moved = {}, {}, False
        back = [b for b in h.preds if b in body]
        for p in ps:
            es = self.edges(p, body, back)
            ds = [(k, self.delta(x, p, body, c, {})) for k, x, c in es if not null(x)]
            if all(d for k, d in ds):
                if all(d[0] == "next" or d[0] >= 0 for k, d in ds):
                    ups[p] = {k for k, d in ds if d[0] == "next" or d[0] > 0} | {k for k, x, c in es if null(x)}
                elif all(d[0] != "next" and d[1] <= 0 for k, d in ds):
                    downs[p] = {k for k, d in ds if d[1] < 0}
        tests = self.tests(h, body)
        done = set()
        for m in (ups, downs):
            for p, ks in m.items():
                if ks:
                    moved = True
                if any(self.leaves(t, b, p, m is ups, body) for t, b in tests):
                    done |= ks
        keys = {k for p in ps for k, x, c in self.edges(p, body, back)}
        if ps and keys and keys <= done or self.pops(h, body):
            return None
        if not [1 for b in body for s in b.succs if s not in body] and not any(b.insts[-1].op == "ret" for b in body):
            return "nothing leaves the loop"
        return "there is a way round the loop on which nothing that the loop tests moves on" if moved or not ps else "nothing that the loop tests moves on"

    def edges(self, p, body, back):
        """the values p gets for the next round, with the way round they belong to: a phi in front of the way back is split up"""
        out = []
        for x, c in p.inc:
            if c not in body:
                continue
            y = uncast(x)
            m = [i for i in c.insts if i.op == "phi"]
            if m and c is not p.bb and c not in self.bodies:
                for n in c.preds:
                    z = x
                    if isinstance(y, Inst) and y.op == "phi" and y.bb is c:
                        z = dict((b, w) for w, b in y.inc)[n]
                    out.append(((c, n), z, n if z is not x else c))
            else:
                out.append(((c, None), x, c))
        return out

    def tests(self, h, body):
        out = []
        for b in body:
            t = b.insts[-1]
            if t.op in ("br", "switch") and t.ops and any(s not in body for s in b.succs):
                out.append((t, b))
        return out

    def leaves(self, t, b, p, up, body):
        """t can leave the loop because of p"""
        c = t.ops[0]
        if not isinstance(c, Inst):
            return False
        if t.op == "br":
            return any(self.useful(x, p, up, body) for x in self.atoms(c, body))
        return self.on(c, p, body)

    def atoms(self, c, body, seen=None):
        """the comparisons a condition is made of"""
        seen = seen if seen is not None else set()
        c = uncast(c)
        if not isinstance(c, Inst) or c in seen:
            return
        seen.add(c)
        if c.op in ("and", "or", "xor", "select", "phi") and (c.w or 1) == 1:
            for x in ([x for x, _ in c.inc] if c.op == "phi" else c.ops):
                for y in self.atoms(x, body, seen):
                    yield y
            if c.op == "phi":
                for _, b in c.inc:
                    t = b.insts[-1]
                    if t.op == "br" and t.ops and b in body:
                        for y in self.atoms(t.ops[0], body, seen):
                            yield y
        else:
            yield c

    def useful(self, c, p, up, body):
        if not self.on(c, p, body):
            return False
        if c.op != "icmp":
            return True
        a, b = c.ops
        k = b if isinstance(b, Const) else None
        if k is not None and c.pred in ("uge", "ult") and k.kind == "int" and k.v == 0:
            return False            # always the same
        x, y = (a, b) if self.on(uncast(a), p, body) else (b, a)
        u = uncast(x)
        # a counter that is narrower than what it is compared with can run over and never get there
        if up and p.w and isinstance(x, Inst) and x.op in ("zext", "sext") and p.w <= 16 and p.w < x.w:
            if isinstance(y, Const) and y.kind == "int":
                return y.s < (1 << p.w) if c.pred in ("ult", "uge", "slt", "sge", "ne", "eq") else y.s < (1 << p.w) - 1
            z = y
            if isinstance(z, Inst) and z.op in ("zext", "sext") and z.ops[0].w <= p.w:
                return c.pred in ("ult", "ugt", "slt", "sgt", "uge", "ule", "sge", "sle", "ne", "eq")
            lo = [o for q, o in self.found(p.bb.preds[0] if len(p.bb.preds) else p.bb, uncast(z), None) if q in ("ule", "ult", "sle", "slt") and isinstance(o, Const)] if isinstance(z, Inst) else []
            return any(o.s < (1 << p.w) for o in lo)
        return True

    def on(self, c, p, body):
        """c is computed from p"""
        if c is p:
            return True
        seen, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x is p:
                return True
            if not isinstance(x, Inst) or x in seen or x.bb not in body:
                continue
            seen.add(x)
            if x.op == "call" and not (x.cname or "").startswith(KNOWN):
                continue            # what else is done with p does not say that the loop will end
            todo += [y for y, _ in x.inc] if x.op == "phi" else list(x.ops)
        return False

    def pops(self, h, body):
        """while (list) { first = list; list = first->next; ... }"""
        for t, b in self.tests(h, body):
            for c in self.atoms(t.ops[0], body):
                x = uncast(c.ops[0]) if c.op == "icmp" and null(c.ops[1]) else c
                if not (isinstance(x, Inst) and x.op == "load" and x.size == 8):
                    continue
                src = light.conv(x.ops[0])
                same = lambda q: q is src or isinstance(q, Inst) and isinstance(src, Inst) and q.op == src.op == "gep" and q.gep == src.gep and light.conv(q.ops[0]) is light.conv(src.ops[0]) and not q.gep[1]
                sts = []
                for i in (i for bb in body for i in bb.insts if i.op == "store" and same(light.conv(i.ops[1]))):
                    v = light.conv(i.ops[0])
                    g = light.conv(v.ops[0]) if isinstance(v, Inst) and v.op == "load" else None
                    e = light.conv(g.ops[0]) if isinstance(g, Inst) and g.op == "gep" and not g.gep[1] else g
                    if isinstance(e, Inst) and (e is x or e.op == "load" and same(light.conv(e.ops[0]))):
                        sts.append(i)
                if sts and light.Paths(self.fn, {i.id: 1 for i in sts}, start=h, within=body - {h}, ends={h}).run(None) is None:
                    return True
        return False


_mem = {}


_org = {}


def places(fn, g):
    """the last two steps of the ways to a member: which member it is of what is kept in which member"""
    O = _org.get(fn) or _org.setdefault(fn, origin.Origin(fn))
    return frozenset((tuple(p) + (o,))[-2:] for r, p, o, x in O.addr(g))


def member(P, sf, at):
    """whatever is written to a member, in the whole library, is above zero if it was so before"""
    k = (id(P), sf, at)
    if k in _mem:
        return _mem[k]
    _mem[k] = True
    n = 0
    for fn in P.fn.values():
        L = None
        for i in fn.insts():
            if i.op != "store":
                continue
            g = light.conv(i.ops[1])
            if not (isinstance(g, Inst) and g.op == "gep" and g.sf and tuple(g.sf) == sf):
                continue
            to = places(fn, g)
            if at and to and all(len(x) == 2 for x in at) and all(None not in x for x in to | at) and not to & at:
                continue        # records that look alike share their type here
            n += 1
            L = L or Loops(P, fn)
            if not kept(L, i.ops[0], i.bb, 0):
                _mem[k] = False
                return False
    _mem[k] = n > 0
    return _mem[k]


def kept(L, v, b, depth):
    v = uncast(v)
    if depth > 8:
        return True
    if isinstance(v, Const):
        return v.s > 0
    if not isinstance(v, Inst):
        return False
    if v.op in ("phi", "select"):
        return all(kept(L, x, c, depth + 1) for x, c in (v.inc if v.op == "phi" else [(x, b) for x in v.ops[1:]]))
    if v.op in ("mul", "shl", "add") and isinstance(v.ops[1], Const):
        return kept(L, v.ops[0], b, depth + 1)
    if v.op == "load":
        return L.above(v, b)
    return L.low(v, b) >= 1


def threads(P):
    """functions that are run by a thread until it is told to stop"""
    out = set()
    for fn in P.fn.values():
        for i in fn.insts():
            if i.op == "call" and i.cname == "pthread_create":
                f = i.ops[2]
                while f is not None and not getattr(f, "name", None) and getattr(f, "ops", None):
                    f = f.ops[0]
                out.add(getattr(f, "name", None) or getattr(f, "f", None) or str(f).lstrip("@"))
    return out


def recursive(P):
    """functions that can call themselves, with the way they do"""
    calls = {n: {i.cname for i in f.insts() if i.op == "call" and i.cname in P.fn} for n, f in P.fn.items()}
    out = {}
    for n in calls:
        seen, todo = {}, [(c, n) for c in calls[n]]
        while todo:
            c, by = todo.pop()
            if c in seen:
                continue
            seen[c] = by
            todo += [(d, c) for d in calls[c]]
        if n in seen:
            out[n] = seen[n]
    return out


def check(rep, tier):
    rep.expl = ("every loop of every function in both configurations, and every cycle of the call graph; rule: each way round moves one of the loop's own values strictly, never back, "
                "and a test on that value leaves the loop; list loops take the next entry, tokenisers and doublings count as moving")
    rep.assume = ["the lists walked have no cycle and strings end in NUL (other properties show what the library builds itself)",
                  "no object is larger than a quarter of the address space, so doubling a size gets past any size needed before it overflows",
                  "the service thread is meant to run until it is told to stop; calls into other libraries return"]
    n = 0
    for cfg in CONFIGS:
        P = prog.prog(cfg)
        svc = threads(P)
        for fn in P.fn.values():
            if not fn.blocks:
                continue
            L = Loops(P, fn)
            if L.info.headers:
                rep.fns.add(fn.name)
            for h in L.info.headers:
                n += 1
                if fn.name in svc:
                    rep.obl(any(s not in L.bodies[h] for b in L.bodies[h] for s in b.succs), "%s:stop" % fn.name, loc(fn, h.insts[-1]), "%s: the service loop cannot be left [%s configuration]" % (fn.name, cfg))
                    continue
                why = L.ends(h)
                rep.obl(why is None, "%s:loop" % fn.name, loc(fn, h.insts[-1]) if why else cfg, why and "%s: %s [%s configuration]" % (fn.name, why, cfg))
        rec = recursive(P)
        for f, by in sorted(rec.items()):
            rep.obl(False, "%s:recursion" % f, loc(P.fn[f], P.fn[f].blocks[0].insts[0]), "%s: calls itself by way of %s, with nothing that bounds how deep [%s configuration]" % (f, by, cfg))
        if not rec:
            rep.obl(True, "recursion", cfg)
    if n < 50:
        raise Broken("only %d loops found" % n)

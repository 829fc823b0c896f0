"""A small path analysis: a mark that instructions set and clear, the phi choices that decide branches and the result, and what is
known to be zero.  No memory is modelled; branches on anything else go both ways."""
import esp
from ir import Inst, Const

CONV = ("zext", "sext", "trunc", "freeze", "bitcast")


def conv(v):
    while isinstance(v, Inst) and v.op in CONV:
        v = v.ops[0]
    return v


class Paths(object):
    limit = 200000

    def __init__(self, fn, marks, nothing=None, keep=lambda v: False, const=None, start=None, within=None, at=(), settles=None, ends=None):
        """marks: inst id -> +1 / -1; nothing(v): v being zero means there is nothing to write; const(v): a number v is taken to be;
        start, within: explore from a block and only inside a set of blocks; at: instructions where the mark has to be set;
        settles(v, z): the branch on which v is zero (z) or not needs no mark; ends: the blocks whose reaching from inside counts"""
        self.settles = settles or (lambda v, z: z and nothing and nothing(v))
        self.ends = ends
        self.const, self.start, self.within, self.at = const, start or fn.blocks[0], within, set(at)
        self.fn, self.marks, self.nothing = fn, marks, nothing
        self.info = esp.info(fn)
        self.keep = keep
        self.rel, self.kept = set(), set()
        self.done = 0
        for b in fn.blocks:
            t = b.insts[-1]
            if t.op == "ret" and t.ops:
                self.want(t.ops[0], True)
            elif t.op == "br" and t.ops:
                self.want(t.ops[0], False)

    def want(self, v, ret, n=0):
        v = conv(v)
        if not isinstance(v, Inst) or n > 40:
            return
        if v.op == "phi":
            if (v, ret) in self.rel or v in self.rel and not ret:
                return
            self.rel |= {v, (v, ret)}
            for x, b in v.inc:
                self.want(x, ret, n + 1)
        elif v.op == "icmp" and (isinstance(v.ops[1], Const) or isinstance(v.ops[0], Const)):
            self.want(v.ops[0], ret, n + 1)
            self.want(v.ops[1], ret, n + 1)
        elif v.op in ("xor", "and", "or") and v.w == 1:
            for x in v.ops:
                self.want(x, ret, n + 1)
        elif v.op == "select":
            for x in v.ops[1:]:
                self.want(x, ret, n + 1)
        if v.op in ("call", "load") and ret:
            self.kept.add(v)

    # ---- values on a path
    def leaf(self, env, v):
        v = conv(v)
        n = 0
        while isinstance(v, Inst) and v.op == "phi" and v in env and n < 50:
            v = conv(env[v])
            n += 1
        if self.const is not None and isinstance(v, Inst):
            k = self.const(v)
            if k is not None:
                return Const(k, v.w or 64)
        return v

    def truth(self, env, facts, v):
        """(True / False / None, [(value, zero when true)])"""
        v = self.leaf(env, v)
        if isinstance(v, Const):
            return bool(getattr(v, "v", 0)), None
        if not isinstance(v, Inst):
            return None, (v, False)
        if v.op == "xor" and v.w == 1 and isinstance(v.ops[1], Const) and v.ops[1].v == 1:
            t, f = self.truth(env, facts, v.ops[0])
            return (None if t is None else not t), (None if f is None else (f[0], not f[1]))
        if v.op == "icmp":
            a, b = self.leaf(env, v.ops[0]), self.leaf(env, v.ops[1])
            p = v.pred
            if isinstance(a, Const) and not isinstance(b, Const):
                a, b, p = b, a, {"ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge", "sgt": "slt", "slt": "sgt", "sge": "sle", "sle": "sge"}.get(p, p)
            if isinstance(a, Const) and isinstance(b, Const):
                return self.cmp(p, a, b), None
            if isinstance(b, Const):
                k = getattr(b, "s", 0) if b.kind == "int" else 0
                z = {("eq", 0): True, ("ne", 0): False, ("ule", 0): True, ("ugt", 0): False, ("ult", 1): True, ("uge", 1): False,
                     ("sle", 0): True, ("sgt", 0): False, ("slt", 1): True, ("sge", 1): False}.get((p, k))
                if z is not None:
                    if isinstance(a, Inst) and a.op in ("icmp", "xor") and (a.w or 1) == 1 and p in ("eq", "ne"):
                        t, f = self.truth(env, facts, a)
                        return (None if t is None else t != z), (None if f is None else (f[0], f[1] != z))
                    for x, y in facts:
                        if x is a:
                            return y == z, None
                    return None, (a, z)
            return None, (v, False)
        if v.w == 1 or v.op in ("call", "load"):
            for x, y in facts:
                if x is v:
                    return not y, None
            return None, (v, False)
        return None, None

    def cmp(self, p, a, b):
        x, y = (getattr(c, "s", 0) if c.kind == "int" else 0 for c in (a, b))
        if p[0] == "u":
            x, y = (getattr(c, "v", 0) if c.kind == "int" else 0 for c in (a, b))
        return {"eq": x == y, "ne": x != y, "t": None}.get(p) if p in ("eq", "ne") else {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[1:]]

    # ---- walk
    def run(self, good):
        """the line trail of a path that ends with good(result) true (or unknown) and the mark not set; None if there is none"""
        start = (self.start, (), frozenset(), 0)
        prev = {start: None}
        todo = [start]
        self.goods = 0
        while todo:
            st = todo.pop()
            b, env, facts, m = st
            env = dict(env)
            for i in b.insts:
                if i.id in self.at:
                    self.goods += 1
                    if not m:
                        return self.trail(prev, st)
                k = self.marks.get(i.id)
                if k:
                    m = max(m, 1) if k > 0 else (m if m == 2 else 0)
                if i.op == "call" and any(x is i for x, y in facts):
                    facts = frozenset(f for f in facts if f[0] is not i)
            t = b.insts[-1]
            if t.op == "ret":
                if self.at:
                    continue
                v = self.leaf(env, t.ops[0]) if t.ops else None
                z = None
                if isinstance(v, Const):
                    z = not getattr(v, "v", 0)
                else:
                    for x, y in facts:
                        if x is v:
                            z = y
                if good is None or z is None or good(z):
                    self.goods += 1
                    if not m:
                        return self.trail(prev, st)
                continue
            nx = [(s, None) for s in b.succs]
            if t.op == "br" and t.ops:
                tv, f = self.truth(env, facts, t.ops[0])
                a, c = t.succs[0], t.succs[1]
                if tv is None:
                    nx = [(a, f and (f[0], f[1])), (c, f and (f[0], not f[1]))]
                else:
                    nx = [(a if tv else c, None)]
            elif t.op == "switch":
                v = self.leaf(env, t.ops[0])
                if isinstance(v, Const) and v.kind == "int":
                    hit = [blk for k, blk in t.cases if getattr(k, "v", k) == v.v]
                    nx = [(hit[0] if hit else b.succs[0], None)]
            for s, f in nx:
                if self.within is not None and s not in self.within:
                    if self.ends is not None and s not in self.ends:
                        continue
                    self.goods += 1
                    if not m and not (f is not None and self.settles(*f)):
                        return self.trail(prev, st)
                    continue
                m2, fa = m, facts
                if f is not None:
                    v, z = f
                    if self.settles(v, z):
                        m2 = 2
                    if v in self.kept or self.keep(v):
                        fa = fa | {(v, z)}
                    if isinstance(v, Inst) and v.op == "icmp" and v.pred in ("eq", "ne") and (v.pred == "eq") != z:
                        x, y = self.leaf(env, v.ops[0]), self.leaf(env, v.ops[1])
                        if isinstance(y, Const) and getattr(y, "v", 0) and x in self.kept:
                            fa = fa | {(x, False)}      # equal to a number that is not zero
                e2 = {}
                live = self.info.live[s]
                for p in s.insts:
                    if p.op != "phi":
                        break
                    if p in self.rel:
                        for x, pb in p.inc:
                            if pb is b:
                                e2[p] = self.leaf(env, x)
                for p, x in env.items():
                    if p not in e2 and p in live:
                        e2[p] = x
                fa = frozenset(x for x in fa if not isinstance(x[0], Inst) or x[0] in live or x[0] in e2.values())
                n = (s, tuple(sorted(e2.items(), key=lambda q: q[0].id)), fa, m2)
                if n not in prev:
                    prev[n] = st
                    todo.append(n)
                    self.done += 1
                    if self.done > self.limit:
                        from front import Broken
                        raise Broken("%s: too many paths" % self.fn.name)
        return None

    def trail(self, prev, st):
        out = []
        while st is not None:
            for i in st[0].insts:
                if i.line:
                    out.append("%s:%d" % (i.file, i.line))
                    break
            st = prev[st]
        out.reverse()
        return [x for k, x in enumerate(out) if k == 0 or out[k - 1] != x]

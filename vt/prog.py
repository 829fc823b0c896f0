"""Program model: both build configurations, normalised, with derived side-effect summaries."""
import os, re, json, subprocess
import front
from front import Broken
import ir, esp, ext
from ir import Inst, Const, Arg, Global

HERE = os.path.dirname(os.path.abspath(__file__))
API = set(open(os.path.join(HERE, "api.txt")).read().split())
WHOLE = (-(1 << 40), 1 << 40)


def base_off(v):
    """flow-insensitive (base, const off | None)"""
    off = 0
    n = 0
    seen = set()
    while isinstance(v, Inst) and n < 200:
        n += 1
        if v.op in ("gep", "bitcast", "freeze"):
            if v.op == "gep":
                o, var = v.gep
                off = None if (off is None or var) else off + o
            v = v.ops[0]
        elif v.op == "phi":
            bs = phi_bases(v)
            if len(bs) == 1:
                v = bs[0]
                off = None
            else:
                return v, None
        else:
            return v, off
    return v, off


def phi_bases(v, seen=None):
    seen = set() if seen is None else seen
    out = []
    if v in seen:
        return out
    seen.add(v)
    if isinstance(v, Inst) and v.op in ("gep", "bitcast", "freeze"):
        return phi_bases(v.ops[0], seen)
    if isinstance(v, Inst) and v.op in ("phi", "select"):
        for o in (v.ops if v.op == "phi" else v.ops[1:]):
            if isinstance(o, Const):
                continue
            for b in phi_bases(o, seen):
                if b not in out:
                    out.append(b)
        return out
    return [v]


def bases(v):
    """all flow-insensitive (base, off) candidates of a pointer"""
    b, o = base_off(v)
    if isinstance(b, Inst) and b.op in ("phi", "select"):
        return [(x, None) for x in phi_bases(b)]
    return [(b, o)]


class Summary(object):
    __slots__ = ("mod", "deep", "globs", "frees", "ext_unknown", "calls")
    def __init__(s):
        s.mod = {}       # arg -> set of (lo,hi)
        s.deep = set()   # args through whose reachable memory (>=1 load) the function writes
        s.globs = set()
        s.frees = set()
        s.ext_unknown = set()
        s.calls = set()
    def key(s):
        return (tuple(sorted((k, tuple(sorted(v))) for k, v in s.mod.items())), tuple(sorted(s.deep)), len(s.globs))


def ext_writes(i, rng=None):
    """[(ptr value, size|None)] written by an external call"""
    n = i.cname
    w = ext.W.get(n)
    if w is None:
        if n in ext.READONLY or (n and n.startswith("llvm.")):
            return []
        return [(o, None) for o in i.ops if getattr(o, "ty", "ptr") == "ptr" and not isinstance(o, Const)]
    if w == "varout2":
        return [(o, None) for o in i.ops[2:]]
    out = []
    for k, sz in w:
        if k >= len(i.ops):
            continue
        if isinstance(sz, tuple):
            a = i.ops[sz[1]] if sz[1] < len(i.ops) else None
            sz = a.v if isinstance(a, Const) and a.kind == "int" else None
        out.append((i.ops[k], sz))
    return out


class Prog(object):
    def __init__(self, cfg, keep=None):
        path, self.srcs = front.linked(cfg)
        self.cfg = cfg
        api = API if keep is None else keep
        self.m = ir.Module(path, policy=lambda n, internal: internal or n not in api)
        self.fn = self.m.functions
        self.sum = {}
        self._summaries()
        self.fx = Effects(self)

    def get(self, name):
        f = self.fn.get(name)
        if f is None:
            raise Broken("anchor function %s not found in the %s configuration" % (name, self.cfg))
        return f

    def _summaries(self):
        S = {n: Summary() for n in self.fn}
        self.sum = S
        for it in range(30):
            ch = False
            for n, f in self.fn.items():
                k0 = S[n].key()
                self._one(f, S[n])
                if S[n].key() != k0:
                    ch = True
            if not ch:
                return
        raise Broken("summaries did not converge")

    def _one(self, f, s):
        def wr(ptr, sz):
            for b, off in bases(ptr):
                wrb(b, off, sz, 0)
        def wrb(b, off, sz, depth):
            if depth > 20:
                return
            if isinstance(b, Arg):
                r = WHOLE if off is None or sz is None else (off, off + sz)
                st = s.mod.setdefault(b.idx, set())
                if WHOLE in st:
                    return
                if r == WHOLE or len(st) > 24:
                    st.clear()
                    st.add(WHOLE)
                else:
                    st.add(r)
            elif isinstance(b, Global):
                if not b.is_fn:
                    s.globs.add(b.name)
            elif isinstance(b, Inst) and b.op == "load":
                deepen(b.ops[0], 0)
            elif isinstance(b, Inst) and b.op == "call" and b.cname == "llvm.threadlocal.address.p0":
                wrb(b.ops[0], off, sz, depth + 1)
        def deepen(ptr, d):
            if d > 12:
                return
            for b, off in bases(ptr):
                if isinstance(b, Arg):
                    s.deep.add(b.idx)
                elif isinstance(b, Global):
                    s.globs.add(b.name + "->")
                elif isinstance(b, Inst) and b.op == "load":
                    deepen(b.ops[0], d + 1)
                elif isinstance(b, Inst) and b.op == "alloca":
                    # pointers stored in locals that came from args: approximate by all ptr stores into the alloca
                    for i in f.insts():
                        if i.op == "store" and base_off(i.ops[1])[0] is b:
                            for b2, _ in bases(i.ops[0]):
                                if isinstance(b2, Arg):
                                    wrb(b2, None, None, 0)
                                elif isinstance(b2, Inst) and b2.op == "load":
                                    deepen(b2.ops[0], d + 1)
        for i in f.insts():
            if i.op == "store":
                wr(i.ops[1], i.size)
            elif i.op == "call":
                n = i.cname
                if n in self.fn:
                    t = self.sum[n]
                    s.calls.add(n)
                    s.globs |= t.globs
                    for a, rs in t.mod.items():
                        if a < len(i.ops):
                            for lo, hi in rs:
                                for b, off in bases(i.ops[a]):
                                    if (lo, hi) == WHOLE or off is None:
                                        wrb(b, None, None, 0)
                                    else:
                                        wrb(b, off + lo, hi - lo, 0)
                    for a in t.deep:
                        if a < len(i.ops):
                            deepen_arg(i.ops[a], s, deepen, f)
                elif n is not None:
                    for p, sz in ext_writes(i):
                        wr(p, sz)
                    s.calls.add(n)

    def callers(self, name):
        for f in self.fn.values():
            for i in f.insts():
                if i.op == "call" and i.cname == name:
                    yield f, i


def deepen_arg(v, s, deepen, f):
    for b, off in bases(v):
        if isinstance(b, Arg):
            s.deep.add(b.idx)
        elif isinstance(b, Inst) and b.op == "load":
            deepen(b.ops[0], 0)


class Effects(object):
    def __init__(self, prog):
        self.p = prog

    def is_alloc(self, i):
        return i.cname in ext.ALLOC or i.cname == "realloc"

    def captures(self, i):
        """may the callee keep the address of an argument?"""
        n = i.cname
        if n is None:
            return True
        if n in self.p.fn:
            return False      # library functions never retain caller stack addresses (checked by retains())
        return n not in ext.W and n not in ext.READONLY and not n.startswith("llvm.")

    def writes(self, E, st, i):
        """[(ptr value, lo, hi)|(ptr,None,None)]"""
        n = i.cname
        out = []
        if n in self.p.fn:
            s = self.p.sum[n]
            for a, rs in s.mod.items():
                if a >= len(i.ops):
                    continue
                for lo, hi in rs:
                    out.append((i.ops[a], None, None) if (lo, hi) == WHOLE else (i.ops[a], lo, hi))
            return out
        if n is None:
            return [(o, None, None) for o in i.ops if getattr(o, "ty", "") == "ptr"]
        w = ext.W.get(n)
        if isinstance(w, list):
            for k, sz in w:
                if k >= len(i.ops):
                    continue
                if isinstance(sz, tuple):
                    sz = E.ev(st, i.ops[sz[1]]) if sz[1] < len(i.ops) else None
                out.append((i.ops[k], 0, sz) if sz is not None else (i.ops[k], None, None))
            return out
        return [(p, None, None) for p, sz in ext_writes(i)]

    def deep(self, i):
        n = i.cname
        if n in self.p.fn:
            return [i.ops[a] for a in self.p.sum[n].deep if a < len(i.ops)]
        return []

    def clobber(self, E, st, i):
        n = i.cname
        ws = self.writes(E, st, i)
        for ptr, lo, hi in ws:
            b, off = E.ptr(st, ptr)
            if isinstance(b, Const):
                continue
            if lo is None or off is None:
                E.kill_base(st, b)
            else:
                E.kill_base(st, b, off + lo, off + hi)
            if not (isinstance(b, Inst) and b.op == "alloca" and b not in E.esc()):
                for k in list(st.mem):
                    if k[0] is not b and not E.distinct(k[0], b):
                        if lo is None or off is None or (k[1] < off + hi and k[1] + st.mem[k][0] > off + lo):
                            st.mem.pop(k, None)
        dp = self.deep(i)
        gl = set()
        unk = False
        if n in self.p.fn:
            gl = self.p.sum[n].globs
        elif n is None:
            unk = True
        if dp or unk or any(g.endswith("->") for g in gl):
            roots = [E.ptr(st, v)[0] for v in dp]
            for k in list(st.mem):
                b = k[0]
                if isinstance(b, Inst) and b.op == "alloca":
                    if b in E.esc() and unk:
                        del st.mem[k]
                    continue
                if isinstance(b, Arg) and not unk:
                    continue
                if isinstance(b, Global) and not unk:
                    continue
                del st.mem[k]
        if gl or unk:
            for k in list(st.mem):
                if isinstance(k[0], Global) and (unk or k[0].name in gl):
                    del st.mem[k]


_progs = {}


def prog(cfg):
    if cfg not in _progs:
        _progs[cfg] = Prog(cfg)
    return _progs[cfg]

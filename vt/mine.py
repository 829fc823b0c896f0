"""Threaded mining: what a worker announces, and what the coordinator turns into success."""
import esp, prog
from esp import BaseClient, mk
from ir import Inst, Const, Arg, Global
from front import Broken

MAIN = "nostr_nip13_mine_event_threaded"


def sf(p, d=0):
    while isinstance(p, Inst) and p.op in ("freeze", "bitcast") and d < 5:
        p, d = p.ops[0], d + 1
    return tuple(p.sf) if isinstance(p, Inst) and p.op == "gep" and p.sf else None


class Roles(object):
    """which fields of the worker's argument carry the event, the target, the shared flags and the outcome"""

    def __init__(self, P, f):
        self.event, self.target, self.flags, self.result, self.locals = set(), set(), set(), set(), set()
        mutexes = set()
        self.start = None
        self.fn = f
        # the record handed to the workers: the one whose field receives the requested target
        self.rec = None
        for i in f.insts():
            if i.op == "store" and isinstance(i.ops[0], Arg) and i.ops[0].idx == 1 and sf(i.ops[1]):
                self.rec = sf(i.ops[1])[0]
                g = i.ops[1].ops[0]
                self.esz = g.gep[1][0][1] if isinstance(g, Inst) and g.op == "gep" and g.gep[1] else None
        if self.rec is None:
            self.esz = None
        for i in f.insts():
            if i.op == "call" and i.cname == "pthread_create":
                g = i.ops[2]
                if not hasattr(g, "name") or g.name not in P.fn:
                    raise Broken("the start routine of the mining threads is not known")
                self.start = P.fn[g.name]
            if i.op == "call" and (i.cname or "").startswith("pthread_mutex_"):
                mutexes |= set(prog.phi_bases(i.ops[0]))
        for i in f.insts():
            if i.op == "store" and self.key(i.ops[1]):
                v, s = i.ops[0], self.key(i.ops[1])
                if isinstance(v, Arg) and v.idx == 0:
                    self.event.add(s)
                elif isinstance(v, Arg) and v.idx == 1:
                    self.target.add(s)
                elif isinstance(v, Inst) and v.op == "alloca" and v not in mutexes:
                    self.flags.add(s)
                    self.locals.add(v)
        for i in f.insts():
            k = self.key(i.ops[0]) if i.op == "load" else None
            if k and k[0] == self.rec and k not in self.flags | self.event | self.target:
                self.result.add(k)

    def key(self, p):
        """(record, field) an address denotes; the first field of the workers' record has no field step of its own"""
        s = sf(p)
        if s is not None:
            return s
        if isinstance(p, Arg) and p.idx == 0 and self.start is not None and p in self.start.args:
            return (self.rec, 0)
        if isinstance(p, Inst) and p.op == "gep" and self.esz and p.gep[1] and p.gep[1][0][1] == self.esz:
            return (self.rec, 0)
        return None


class Worker(BaseClient):
    cap = 10
    # ts: (id state, reached, published, locked, flag seen zero)

    def __init__(self, P, fn, R):
        self.P, self.fn, self.R = P, fn, R
        self.init = ("d", False, False, False, False)
        self.bad = []
        self.npub = self.nmod = 0

    def fail(self, E, st, i, why):
        self.bad.append((i, why, E.trail_lines(st)))

    def is_ev(self, E, st, v):
        b = E.ptr(st, v)[0]
        return isinstance(b, Inst) and b.op == "load" and self.R.key(b.ops[0]) in self.R.event

    def dirty(self, E, st, i):
        d, r, p, l, z = st.ts
        self.nmod += 1
        if p:
            self.fail(E, st, i, "the event is changed after success was announced")
        elif not (l and z):
            self.fail(E, st, i, "the event is changed without the shared stop flag having been found clear under the lock: another thread's mined event may be overwritten")
        st.ts = ("d", False, p, l, z)

    def on_call(self, E, st, i):
        n = i.cname or ""
        d, r, p, l, z = st.ts
        if n == "pthread_mutex_lock":
            st.ts = (d, r, p, True, False)
            return None
        if n == "pthread_mutex_unlock":
            if p is True and self.R.result:
                self.fail(E, st, i, "success is announced but the shared stop flag is not set before the lock is released")
            st.ts = ("d" if not p else d, r and bool(p), p, False, False)
            return None
        if n == "nostr_event_compute_id" and self.is_ev(E, st, i.ops[0]):
            self.dirty(E, st, i)
            E.clobber(st, i)
            out = []
            for pred in ("eq", "ne"):
                for x in E.acmp(st.copy(), pred, i, mk(0, 32)):
                    x.ts = ("c" if pred == "eq" else "d",) + x.ts[1:]
                    out.append(x)
            return out
        if n == "nostr_nip13_calculate_difficulty":
            if d == "c" and self.is_ev(E, st, i.ops[0]):
                st.ts = ("q",) + st.ts[1:]
            return None
        if n in self.P.fn:
            for a in [w[0] for w in E.fx.writes(E, st, i)] + list(E.fx.deep(i)):
                if self.is_ev(E, st, a):
                    self.dirty(E, st, i)
                    break
        return None

    def on_fact(self, E, st, pred, a, b):
        ra, rb = E.res(st, a), E.res(st, b)
        d, r, p, l, z = st.ts
        for x, y, q in ((ra, rb, pred), (rb, ra, esp.SWAP[pred])):
            if isinstance(x, Inst) and x.op == "call" and x.cname == "nostr_nip13_calculate_difficulty" and q in ("sge", "sgt") and d == "q":
                if isinstance(y, Inst) and y.op == "load" and self.R.key(y.ops[0]) in self.R.target:
                    st.ts = (d, True, p, l, z)
            if q == "eq" and l and isinstance(x, Inst) and x.op == "load" and E.ev(st, y) == 0 and self.flag(E, st, x.ops[0]):
                st.ts = st.ts[:4] + (True,)
        return st

    def flag(self, E, st, v):
        b = E.ptr(st, v)[0]
        return isinstance(b, Inst) and b.op == "load" and self.R.key(b.ops[0]) in self.R.flags

    def on_store(self, E, st, i, base, off, size, val):
        if isinstance(base, Inst) and base.op == "load" and self.R.key(base.ops[0]) in self.R.event:
            self.dirty(E, st, i)
            return None
        res, fl = self.R.key(i.ops[1]) in self.R.result, self.flag(E, st, i.ops[1])
        if (res or fl) and E.ev(st, val) != 0:
            self.npub += 1
            d, r, p, l, z = st.ts
            if not r:
                self.fail(E, st, i, "success is announced although the id recomputed over the event as it stands was not found to reach the target")
            elif not l:
                self.fail(E, st, i, "success is announced without the lock")
            np = p
            if res:
                np = p if p == "both" else "both" if p == "flag" else True
            if fl:
                np = "both" if p in (True, "both") else "flag"
            st.ts = (d, r, np, l, z)
        return None

    def on_ret(self, E, st, i, val):
        if st.ts[3]:
            self.fail(E, st, i, "the worker ends with the lock held")


class Main(BaseClient):
    cap = 10
    exit_cap = 40
    # ts: (threads started, outcome cleared, outcome seen)

    def __init__(self, P, fn, R):
        self.P, self.fn, self.R = P, fn, R
        self.init = (False, frozenset(), False)
        self.bad = []
        self.nsucc = self.nret = 0

    def fail(self, E, st, i, why):
        self.bad.append((i, why, E.trail_lines(st)))

    def on_call(self, E, st, i):
        n = i.cname or ""
        s, c, o = st.ts
        if n == "pthread_create":
            for x in self.R.result:
                if x not in c:
                    self.fail(E, st, i, "a worker is started without its outcome field having been cleared")
            for a in self.R.locals:
                if E.ev(st, st.mem.get((a, 0), (0, a))[1]) != 0 and not s and not self.R.result:
                    self.fail(E, st, i, "a worker is started without the stop flag having been cleared")
            st.ts = (True, frozenset(), o)
            return None
        if s and n in self.P.fn:
            for a in [w[0] for w in E.fx.writes(E, st, i)] + list(E.fx.deep(i)):
                b = E.ptr(st, a)[0]
                if isinstance(b, Arg) and b.idx == 0:
                    self.fail(E, st, i, "the event is changed after the workers were started")
        return None

    def on_store(self, E, st, i, base, off, size, val):
        s, c, o = st.ts
        x = self.R.key(i.ops[1])
        if x in self.R.result:
            st.ts = (s, c | {x} if E.ev(st, val) == 0 else c - {x}, o)
        if s and isinstance(base, Arg) and base.idx == 0:
            self.fail(E, st, i, "the event is changed after the workers were started")
        return None

    def on_fact(self, E, st, pred, a, b):
        ra, rb = E.res(st, a), E.res(st, b)
        for x, y, q in ((ra, rb, pred), (rb, ra, esp.SWAP[pred])):
            if isinstance(x, Inst) and x.op == "load" and self.R.key(x.ops[0]) in self.R.result:
                if q == "ne" and E.ev(st, y) == 0 or q == "eq" and E.ev(st, y) not in (0, None):
                    st.ts = st.ts[:2] + (True,)
        return st

    def on_ret(self, E, st, i, val):
        self.nret += 1
        if E.rng(st, val)[0] == 0:
            self.nsucc += 1
            if not st.ts[2]:
                self.fail(E, st, i, "success is reported although no worker was found to have announced it")


def run(cfg):
    """-> (worker client, main client) or None when mining is delegated to the single-threaded miner"""
    P = prog.prog(cfg)
    f = P.get(MAIN)
    R = Roles(P, f)
    if R.start is None:
        return P, f, None
    if not (R.event and R.target and R.result):
        raise Broken("%s: the fields carrying the event, the target and the outcome were not recognised" % MAIN)
    w = esp.explore(lambda: Worker(P, R.start, R), R.start, P.fx)
    m = esp.explore(lambda: Main(P, f, R), f, P.fx)
    return P, f, (w, m)

"""Locks, shared state and threads.

One dataflow per function; typestate = (locks held, phase), phase in: frozenset of
  "run"   threads started here are running      "join"  a thread was joined (or known never started)
  "init"  nostr_init() succeeded on this path
"""
import re, json, subprocess
import esp, prog, front, ext
from esp import BaseClient, mk
from ir import Inst, Const, Arg, Global
from front import Broken

LOCK = {"pthread_mutex_lock": 0, "pthread_rwlock_wrlock": 0, "pthread_rwlock_rdlock": 0, "pthread_spin_lock": 0}
UNLOCK = {"pthread_mutex_unlock": 0, "pthread_rwlock_unlock": 0, "pthread_spin_unlock": 0}
BLOCKING = {"pthread_join", "usleep", "sleep", "nanosleep", "lws_service", "lws_context_destroy", "lws_create_context", "getaddrinfo", "connect", "poll", "select"}
NONREENTRANT = {"strtok", "gmtime", "localtime", "asctime", "ctime", "rand", "srand", "random", "srandom", "drand48", "lrand48", "setlocale", "strerror", "getpwnam", "getpwuid",
                "gethostbyname", "setenv", "putenv", "unsetenv", "tmpnam", "readdir", "ecvt", "fcvt", "gcvt", "crypt", "hsearch", "l64a", "getlogin", "inet_ntoa", "mblen", "mbtowc", "wctomb"}


def fields_of(v, seen=None):
    """(struct, field) pairs the address may denote directly, looking through phis and zero offsets"""
    seen = set() if seen is None else seen
    out = set()
    if not isinstance(v, Inst) or v in seen:
        return out
    seen.add(v)
    if v.op == "gep":
        if v.sf:
            out.add(v.sf)
        else:
            out |= fields_of(v.ops[0], seen)
    elif v.op in ("phi", "select", "freeze", "bitcast"):
        for o in v.ops:
            out |= fields_of(o, seen)
    return out


_fields = {}


def field_names(cfg, unit, rec):
    """field names of a record private to one unit, from clang's AST"""
    k = (cfg, unit, rec)
    if k not in _fields:
        b, us = front.units(cfg)
        src = [s for s in us if s.endswith("/" + unit)]
        if not src:
            raise Broken("%s is not a library unit any more" % unit)
        r = front.run(["clang-18", "-fsyntax-only", "-w"] + us[src[0]] + ["-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=%s" % rec, src[0]], cwd=b)
        txt = r.stdout if isinstance(r.stdout, str) else r.stdout.decode()
        names, sz = [], None
        # the typedef refers to the anonymous record; re-dump by scanning the whole unit's record list
        r = front.run(["clang-18", "-c", "-emit-llvm", "-w", "-o", "/dev/null"] + us[src[0]] + ["-Xclang", "-fdump-record-layouts-simple", src[0]], cwd=b)
        r = front.run(["clang-18", "-c", "-emit-llvm", "-w", "-o", "/dev/null"] + us[src[0]] + ["-Xclang", "-fdump-record-layouts", src[0]], cwd=b)
        txt = r.stdout if isinstance(r.stdout, str) else r.stdout.decode()
        cur = None
        for blk in txt.split("*** Dumping AST Record Layout")[1:]:
            ls = [l for l in blk.split("\n") if l.strip()]
            if not re.search(r"\|\s+(struct )?%s$" % rec, ls[0]):
                continue
            for l in ls[1:]:
                m = re.match(r"^\s*\d+ \|   (\S.*?)(\w+)$", l)
                if m and not l.startswith(" " * 0 + "|     "):
                    names.append(m.group(2))
                m2 = re.match(r"^\s*\d+ \|     ", l)
            # nested members are indented further; keep only depth one
            names = []
            for l in ls[1:]:
                m = re.match(r"^\s*\d+ \|   (?! )(.*)$", l)
                if m:
                    names.append(re.sub(r"\[.*", "", m.group(1)).split()[-1].strip("*"))
            break
        if not names:
            raise Broken("record %s not found in %s" % (rec, unit))
        _fields[k] = names
    return _fields[k]


class Locks(BaseClient):
    cap = 6
    exit_cap = 60

    def __init__(self, P, fn, acq, shared_alloca, entry):
        self.P, self.fn, self.acq, self.shared, self.entry = P, fn, acq, shared_alloca, entry
        self.init = (frozenset(), frozenset())
        self.viol = []          # (kind, inst, why, trail)
        self.acc = []           # (object, inst, mode, held, phase)
        self.edges = []
        self.nlocks = 0

    def lockid(self, E, st, v):
        b, off = E.ptr(st, v)
        if isinstance(b, Global):
            return b.name
        f = fields_of(v)
        if f:
            return "field " + "/".join(sorted("%s.%d" % x for x in f))
        if isinstance(b, Inst) and b.op == "load":
            f = fields_of(b.ops[0])
            if f:
                return "*field " + "/".join(sorted("%s.%d" % x for x in f))
        if isinstance(b, Inst) and b.op == "alloca":
            return "local %d" % b.id
        return "object " + repr(b)[:40]

    def v(self, E, st, kind, i, why):
        self.viol.append((kind, i, why, E.trail_lines(st)))

    def on_call(self, E, st, i):
        n = i.cname
        held, ph = st.ts
        if n in LOCK:
            self.nlocks += 1
            l = self.lockid(E, st, i.ops[0])
            if l in held:
                self.v(E, st, "double-lock", i, "%s is acquired although this path already holds it" % l)
                return []
            for h in held:
                self.edges.append((h, l, i))
            st.ts = (held | {l}, ph)
            return [st]
        if n in UNLOCK:
            l = self.lockid(E, st, i.ops[0])
            if l not in held:
                self.v(E, st, "unlock-unheld", i, "%s is released although this path does not hold it" % l)
                return []
            st.ts = (held - {l}, ph)
            return [st]
        if n in ("pthread_cond_wait", "pthread_cond_timedwait"):
            E.clobber(st, i)
            return [st]
        if held:
            if n is None:
                self.v(E, st, "callback-under-lock", i, "a caller-supplied function is called while holding %s" % ", ".join(sorted(held)))
            elif n in BLOCKING:
                self.v(E, st, "blocking-under-lock", i, "%s is called while holding %s" % (n, ", ".join(sorted(held))))
            a = self.acq.get(n, ())
            for h in held:
                if h in a:
                    self.v(E, st, "double-lock", i, "%s is called holding %s, which it acquires itself" % (n, h))
                for x in a:
                    self.edges.append((h, x, i))
            if "$callback" in a:
                self.v(E, st, "callback-under-lock", i, "%s, which calls a caller-supplied function, is called while holding %s" % (n, ", ".join(sorted(held))))
        if n and n not in LOCK and not n.startswith(("llvm.lifetime", "llvm.dbg", "pthread_mutex_", "llvm.threadlocal")):
            for k, a in enumerate(i.ops):
                if isinstance(a, Const) or not isinstance(a, Global) and getattr(a, "ty", "ptr") != "ptr":
                    continue
                b, off = E.ptr(st, a)
                mode = "w"
                if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
                    mode = "w" if k == 0 else "r"
                elif n in ext.READONLY or n in ("strcmp", "strlen", "strncmp", "memcmp"):
                    mode = "r"
                self.access(E, st, i, a, b, off, mode, n)
        if n == "pthread_create":
            E.clobber(st, i)
            out = []
            for x in E.acmp(st.copy(), "eq", i, mk(0, 32)):
                x.ts = (held, (ph | {"run"}) - {"join"})
                out.append(x)
            out += E.acmp(st.copy(), "ne", i, mk(0, 32))
            return out
        if n == "pthread_join":
            E.clobber(st, i)
            st.ts = (held, (ph - {"run"}) | {"join"})
            return [st]
        if n == "nostr_init":
            E.clobber(st, i)
            out = []
            for x in E.acmp(st.copy(), "eq", i, mk(0, 32)):
                x.ts = (held, ph | {"init"})
                out.append(x)
            out += E.acmp(st.copy(), "ne", i, mk(0, 32))
            return out
        return None

    def access(self, E, st, i, p, b, off, mode, callee=None):
        held, ph = st.ts
        if isinstance(b, Global):
            self.acc.append((("global", b), i, mode, held, ph))
            return
        if callee is None:
            for f in fields_of(p):
                if f[0] in ("struct.relay_context", "struct.subscription"):
                    fresh = isinstance(b, Inst) and b.op == "call" and E.fx.is_alloc(b)
                    if fresh and "run" not in ph:
                        continue
                    if fresh and f[0] == "struct.subscription":
                        continue
                    self.acc.append((("field", f), i, mode, held, ph))
        elif callee in ("strcmp",) and isinstance(b, Inst) and b.op == "load":
            for f in fields_of(b.ops[0]):
                if f[0] == "struct.subscription":
                    self.acc.append((("field", f), i, mode, held, ph))
        if isinstance(b, Inst) and b.op == "alloca" and b in self.shared and "run" in ph and callee not in ("pthread_create", "pthread_join", "pthread_mutex_destroy"):
            self.acc.append((("local", b), i, mode, held, ph))
        if self.entry and isinstance(b, Inst) and b.op == "load" and prog.base_off(b.ops[0])[0] in self.fn.args and not (callee or "").startswith(("pthread_", "lws_")):
            self.acc.append((("thread", b), i, mode, held, ph))

    def on_load(self, E, st, i, base, off):
        if not i.vol:
            self.access(E, st, i, i.ops[0], base, off, "r")
        return None

    def on_store(self, E, st, i, base, off, size, val):
        if not i.vol:
            self.access(E, st, i, i.ops[1], base, off, "w")
        return None

    def on_fact(self, E, st, pred, a, b):
        # "the thread was never started"
        if pred == "eq" and E.ev(st, b) == 0:
            x = a
            while isinstance(x, Inst) and x.op in ("trunc", "zext", "and"):
                x = x.ops[0]
            if isinstance(x, Inst) and x.op == "load":
                for s, k in fields_of(x.ops[0]):
                    if s == "struct.relay_context" and self.fnames is not None and k < len(self.fnames) and self.fnames[k] == "service_thread_created":
                        held, ph = st.ts
                        st.ts = (held, ph | {"join"})
        return st

    fnames = None

    def on_ret(self, E, st, i, val):
        held, ph = st.ts
        for h in sorted(held):
            self.v(E, st, "held-at-return", i, "the function returns still holding %s" % h)
        if "run" in ph and self.shared:
            self.v(E, st, "running-at-return", i, "the function returns while a thread it started may still use its local variables")


def acquires(P):
    """function -> locks it (or a callee) acquires; '$callback' if it may call a caller-supplied function"""
    A = {}
    for n, f in P.fn.items():
        s = set()
        for i in f.insts():
            if i.op == "call":
                if i.cname in LOCK:
                    c = Locks(P, f, {}, set(), False)
                    b = prog.phi_bases(i.ops[0])
                    g = [x for x in b if isinstance(x, Global)]
                    if g:
                        s |= {x.name for x in g}
                    else:
                        fl = fields_of(i.ops[0])
                        if fl:
                            s.add("field " + "/".join(sorted("%s.%d" % x for x in fl)))
                elif i.cname is None:
                    s.add("$callback")
        A[n] = s
    ch = True
    while ch:
        ch = False
        for n, f in P.fn.items():
            for i in f.insts():
                if i.op == "call" and i.cname in A and not A[i.cname] <= A[n]:
                    A[n] |= A[i.cname]
                    ch = True
    return A


def entries(P):
    """functions started as threads; functions registered as callbacks of the network library"""
    th, cb = set(), set()
    for n, f in P.fn.items():
        for i in f.insts():
            if i.op == "call" and i.cname == "pthread_create":
                for x in prog.phi_bases(i.ops[2]):
                    if isinstance(x, Global) and x.name in P.fn:
                        th.add(x.name)
                    elif hasattr(x, "name") and x.name in P.fn:
                        th.add(x.name)
    for g in P.m.globals.values() if hasattr(P.m, "globals") else ():
        for r in g.init_refs:
            nm = getattr(r, "name", r)
            if nm in P.fn:
                cb.add(nm)
    return th, cb


def relevant(P, f, A):
    for i in f.insts():
        if i.op == "call" and (i.cname in LOCK or i.cname in UNLOCK or i.cname == "pthread_create" or (i.cname in A and A[i.cname])):
            return True
        for o in i.ops:
            if isinstance(o, Inst) and (o.op == "gep" and o.sf and o.sf[0] in ("struct.relay_context", "struct.subscription")):
                return True
            for b in ([o] if isinstance(o, Global) else prog.phi_bases(o) if isinstance(o, Inst) and o.op in ("gep", "phi", "select") or isinstance(o, Inst) and o.bb is None else ()):
                if isinstance(b, Global) and not b.const and not b.is_fn:
                    return True
    return False


_run = {}


def one(a):
    cfg, name = a
    P = prog.prog(cfg)
    f = P.fn[name]
    A = _A[cfg]
    sh = set()
    if any(i.op == "call" and i.cname == "pthread_create" for i in f.insts()):
        for i in f.insts():
            if i.op == "store" and isinstance(i.ops[0], Inst):
                for b in prog.phi_bases(i.ops[0]):
                    if isinstance(b, Inst) and b.op == "alloca" and i.ops[0].ty == "ptr":
                        sh.add(b)
    def mkc():
        c = Locks(P, f, A, sh, name in _T[cfg])
        c.fnames = _F.get(cfg)
        return c
    try:
        c = esp.explore(mkc, f, P.fx, bad=lambda c: c.viol)
    except Broken as e:
        return name, [("broken", 0, str(e), [])], [], [], 0
    seen, acc = set(), []
    for (k, o), i, mode, held, ph in c.acc:
        key = (k, o if k == "field" else getattr(o, "name", None) or o.id, i.id, mode, held, ph)
        if key in seen:
            continue
        seen.add(key)
        acc.append((k, key[1], i.loc, mode, held, ph))
    return (name, [(k, i.loc, w, t) for k, i, w, t in c.viol], acc, [(a, b, i.loc) for a, b, i in c.edges], c.nlocks)


_A, _T, _F, _R = {}, {}, {}, {}


def analyse(cfg):
    if cfg in _R:
        return _R[cfg]
    import multiprocessing
    P = prog.prog(cfg)
    _A[cfg] = acquires(P)
    _T[cfg], cb = entries(P)
    _F[cfg] = field_names(cfg, "relay.c", "relay_context")
    names = sorted(n for n, f in P.fn.items() if f.blocks and relevant(P, f, _A[cfg]))
    with multiprocessing.get_context("fork").Pool(8) as pool:
        res = pool.map(one, [(cfg, n) for n in names], chunksize=1)
    _R[cfg] = (P, names, res, _T[cfg], cb)
    return _R[cfg]

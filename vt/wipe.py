"""Key material in memory: which buffers hold it, and whether they are wiped before the memory is given up.

Step 1 (flow-insensitive, per function): which local arrays, heap blocks and output parameters are ever given key
material, and by which instructions.  Sources are the secret parameter types and names, the outputs of key-producing
calls and buffers copied into a secret output; what a comparison with key material selects counts as key material.
Step 2 (path-sensitive): each such buffer is dirty from a tainting write on, until a wipe covers what was written.
Dirty locals at a return and dirty heap blocks at their release are violations; so are secret outputs that are still
dirty when the function reports failure.
"""
import re
import esp, ext, prog
from esp import BaseClient, mk
from ir import Inst, Const, Arg, Global

# calls that overwrite memory in a way the compiler must keep
WIPE = {"secure_wipe": (0, 1), "explicit_bzero": (0, 1), "OPENSSL_cleanse": (0, 1), "mbedtls_platform_zeroize": (0, 1), "memset_s": (0, 3), "sodium_memzero": (0, 1)}
# external calls: destination arguments whose content is key material when one of the source arguments' content is
FLOW = {"SHA256": [(2, (0,))], "SHA512": [(2, (0,))], "HMAC": [(5, (1, 3))], "secp256k1_ec_seckey_tweak_add": [(1, (1, 2))], "mbedtls_sha256": [(2, (0,))],
        "strcpy": [(0, (1,))], "strncpy": [(0, (1,))], "strcat": [(0, (1,))], "strncat": [(0, (1,))], "utf8proc_map": [(2, (0,))], "utf8proc_decompose": [(2, (0,))]}
# external calls whose destination always is key material
MAKES = {"PKCS5_PBKDF2_HMAC": (7,), "EVP_PBE_scrypt": (8,), "secp256k1_keypair_create": (1,), "secp256k1_keypair_sec": (1,), "secp256k1_ecdh": (1,), "EVP_DecryptUpdate": (1,),
         "RAND_bytes": (0,), "mbedtls_ctr_drbg_random": (1,), "getrandom": (0,), "nostr_random_bytes": (0,)}
CLEANFAIL = {"secp256k1_keypair_create": "0", "nostr_random_bytes": "1", "RAND_bytes": "1", "secp256k1_ecdh": "0", "secp256k1_ec_seckey_tweak_add": "0", "HMAC": "0", "PKCS5_PBKDF2_HMAC": "1", "EVP_PBE_scrypt": "1"}
DUP = {"strdup", "strndup", "utf8proc_NFKD", "utf8proc_NFKC", "utf8proc_NFC", "utf8proc_NFD"}
INTO = {"strchr", "strrchr", "strstr", "strtok_r", "strtok", "memchr", "strpbrk"}
RTYPE = re.compile(r"nostr_(privkey|keypair|hd_key|extended_key)\b")
RNAME = re.compile(r"mnemonic$|passphrase$|password$|^seed$|priv(ate)?_?key(_hex)?$|nsec$|^entropy$|shared_secret$")
RANDOM = ("RAND_bytes", "mbedtls_ctr_drbg_random", "getrandom", "nostr_random_bytes")
COMPARE = ("strcmp", "strncmp", "memcmp", "strcasecmp", "strncasecmp", "nostr_constant_time_memcmp")
MEMV = ("llvm.memcpy", "llvm.memmove")


def secretargs(L, name):
    """{argument: None | [(lo, hi)]}: parameters whose pointee is key material, with the secret part of records"""
    p = L.protos.get(name) or L.iprotos.get(name)
    out = {}
    for k, (n, t) in enumerate(p[1] if p else ()):
        if t.count("*") != 1:
            continue
        r = L.base(t)
        if RTYPE.search(t):
            rs = []
            for path, o, s, ty in L.fieldsof(r):
                if "." not in path and re.search(r"priv|chain|nsec|^data$|^key$", path):
                    rs.append((o, o + s))
            out[k] = rs or None
        elif RNAME.search(n):
            out[k] = None
    return out


def outargs(L, name):
    p = L.protos.get(name) or L.iprotos.get(name)
    return {k for k, (n, t) in enumerate(p[1] if p else ()) if "const" not in t}


class Taint(object):
    """which objects of a function hold key material"""

    def __init__(self, W, fn, secret):
        self.W, self.fn, self.secret = W, fn, secret
        self.T, self.O = set(), set()
        self.writes = {}            # instruction -> set of objects it taints
        self.flow()

    def isobj(self, b):
        return isinstance(b, Inst) and (b.op == "alloca" or b.op == "call" and (b.cname in ext.ALLOC or b.cname == "realloc"))

    def content(self, v, lo=None, hi=None):
        """may the memory v points to hold key material?"""
        if v in self.T:
            return True
        for b, off in prog.bases(v):
            if b in self.O or b in self.T:
                return True
            if isinstance(b, Arg) and b.idx in self.secret:
                rs = self.secret[b.idx]
                if rs is None or off is None or lo is None or any(off + lo < h and off + hi > l for l, h in rs):
                    return True
        return False

    def taint(self, i, ptr):
        ch = False
        for b, off in prog.bases(ptr):
            if self.isobj(b) or isinstance(b, Arg):
                w = self.writes.setdefault(i, set())
                if b not in w:
                    w.add(b)
                    ch = True
                if b not in self.O and not isinstance(b, Arg):
                    self.O.add(b)
                    ch = True
                if isinstance(b, Arg) and b not in self.O:
                    self.O.add(b)
                    ch = True
        return ch

    def flow(self):
        T, W = self.T, self.W
        # random bytes of the password-based encryption (salt, nonce) are published with the result
        self.kdf = any(i.op == "call" and i.cname in ("EVP_PBE_scrypt",) for i in self.fn.insts())
        self.back = set()
        CT = self.CT = set()
        for it in range(40):
            ch = False
            for i in self.fn.insts():
                if i.op == "load":
                    if i not in T and self.content(i.ops[0], 0, i.size):
                        T.add(i)
                        ch = True
                elif i.op == "store":
                    if i.ops[0] in T or self.inback(i.ops[1]):
                        if not isinstance(i.ops[0], Const):
                            ch |= self.taint(i, i.ops[1])
                elif i.op == "call":
                    ch |= self.call(i)
                elif i.op == "icmp":
                    if i not in CT and any(o in T or isinstance(o, Inst) and o.op == "call" and o.cname in COMPARE and any(getattr(x, "ty", "") == "ptr" and self.content(x) for x in o.ops) for o in i.ops):
                        CT.add(i)
                        ch = True
                elif i.op == "select":
                    if i not in T and any(o in T for o in i.ops[1:]):
                        T.add(i)
                        ch = True
                elif i.op in ("phi", "gep") or i.op in esp.PURE:
                    if i not in T and (any(o in T for o in i.ops) or i.op == "phi" and getattr(i, "ty", "") != "ptr" and self.chosen(i)):
                        T.add(i)
                        ch = True
            if not ch:
                return

    def chosen(self, phi):
        """does comparing key material decide which value the phi takes?"""
        for _, b in phi.inc:
            for _ in range(3):
                t = b.insts[-1]
                if t.op == "br" and t.ops:
                    if t.ops[0] in self.CT:
                        return True
                    break
                ps = b.preds
                if len(ps) != 1:
                    break
                b = ps[0]
        return False

    def inback(self, p):
        return any(b in self.back for b, o in prog.bases(p))

    def call(self, i):
        n = i.cname or ""
        ch = False
        if n.startswith(("llvm.dbg", "llvm.lifetime")) or n in WIPE:
            return False
        if n.startswith(MEMV) or n in ("memcpy", "memmove"):
            ln = i.ops[2].v if isinstance(i.ops[2], Const) and i.ops[2].kind == "int" else None
            if self.content(i.ops[1], 0 if ln else None, ln) or self.inback(i.ops[0]):
                ch |= self.taint(i, i.ops[0])
            # copied into a secret: the source is secret too
            tosecret = self.inback(i.ops[0])
            for b, off in prog.bases(i.ops[0]):
                if isinstance(b, Arg) and b.idx in self.secret and b.idx in self.W.outs(self.fn.name):
                    rs = self.secret[b.idx]
                    if rs is None or off is None or ln is None or any(off < h and off + ln > l for l, h in rs):
                        tosecret = True
            if tosecret:
                ch |= self.mark_back(i.ops[1])
            return ch
        if n.startswith("llvm.memset") or n == "memset":
            return False
        if n in FLOW:
            for d, ss in FLOW[n]:
                if d < len(i.ops) and (any(s < len(i.ops) and self.content(i.ops[s]) for s in ss) or self.inback(i.ops[d])):
                    ch |= self.taint(i, i.ops[d])
            return ch
        if n in RANDOM and self.kdf:
            return False
        if n in MAKES:
            for d in MAKES[n]:
                if d < len(i.ops):
                    ch |= self.taint(i, i.ops[d])
            return ch
        if n in DUP:
            if i.ops and self.content(i.ops[0]):
                ch |= self.taint(i, i)
            return ch
        if n in INTO:
            if any(self.content(o) for o in i.ops[:1]) and i not in self.T:
                self.T.add(i)
                ch = True
            if n.startswith("strtok") and any(self.content(o) for o in i.ops[:1]):
                ch |= False
            return ch
        if n in self.W.P.fn:
            sa = self.W.secretargs(n)
            outs = self.W.outs(n)
            for k in sa:
                if k < len(i.ops) and k in outs and k in self.W.summ(n, None):
                    ch |= self.taint(i, i.ops[k])
            for k, o in enumerate(i.ops):
                if getattr(o, "ty", "") == "ptr" and self.content(o):
                    for j in self.W.summ(n, k):
                        if j < len(i.ops) and j != k:
                            ch |= self.taint(i, i.ops[j])
                elif o in self.T and self.W.retfrom(n) and i not in self.T and False:
                    pass
            # produced by a library call out of another local, and believed secret: where it came from is secret too
            for j, o in enumerate(i.ops):
                if getattr(o, "ty", "") == "ptr" and self.inback(o):
                    for k in range(len(i.ops)):
                        if k != j and getattr(i.ops[k], "ty", "") == "ptr" and j in self.W.summ(n, k):
                            ch |= self.mark_back(i.ops[k])
                    if j in self.W.mods(n):
                        ch |= self.taint(i, o)
            return ch
        if n in ext.READONLY or n.startswith("llvm."):
            return False
        if n in ("snprintf", "sprintf", "vsnprintf"):
            if any(o in self.T or getattr(o, "ty", "") == "ptr" and self.content(o) for o in i.ops[1:]) or self.inback(i.ops[0]):
                ch |= self.taint(i, i.ops[0])
            return ch
        # other external calls: only what is believed secret
        for d, sz in (ext.W.get(n) if isinstance(ext.W.get(n), list) else ()):
            if d < len(i.ops) and self.inback(i.ops[d]):
                ch |= self.taint(i, i.ops[d])
        return ch

    def mark_back(self, p):
        ch = False
        for b, off in prog.bases(p):
            if self.isobj(b) and b not in self.back:
                self.back.add(b)
                ch = True
        return ch


class World(object):
    def __init__(self, P, L):
        self.P, self.L = P, L
        self._s, self._sa, self._o = {}, {}, {}
        self.ctx = {}
        self._busy = set()

    def secretargs(self, n):
        if n not in self._sa:
            self._sa[n] = secretargs(self.L, n)
        return self._sa[n]

    def outs(self, n):
        if n not in self._o:
            self._o[n] = outargs(self.L, n)
        return self._o[n]

    def mods(self, n):
        return set(self.P.sum[n].mod)

    def retfrom(self, n):
        return False

    def summ(self, n, k):
        """arguments that are given key material when argument k holds some (k None: when its secret parameters do)"""
        key = (n, k)
        if key not in self._s:
            if key in self._busy or n not in self.P.fn:
                return set()
            self._busy.add(key)
            self._s[key] = set()
            sec = dict(self.secretargs(n)) if k is None else {k: None}
            t = Taint(self, self.P.fn[n], sec)
            out = {b.idx for ws in t.writes.values() for b in ws if isinstance(b, Arg)}
            if k is not None:
                t0 = self.plain(n)
                out -= t0
            self._s[key] = out
            self._busy.discard(key)
        return self._s[key]

    def plain(self, n):
        key = (n, "none")
        if key not in self._s:
            self._s[key] = set()
            t = Taint(self, self.P.fn[n], {})
            self._s[key] = {b.idx for ws in t.writes.values() for b in ws if isinstance(b, Arg)}
        return self._s[key]

    def contexts(self):
        """functions called with key material behind a parameter that is not declared as such"""
        work = list(self.P.fn)
        tt = {}
        while work:
            n = work.pop()
            sec = dict(self.ctx.get(n, {}))
            sec.update(self.secretargs(n))
            t = tt[n] = Taint(self, self.P.fn[n], sec)
            for i in self.P.fn[n].insts():
                if i.op == "call" and i.cname in self.P.fn and i.cname not in WIPE:
                    for k, o in enumerate(i.ops):
                        if getattr(o, "ty", "") == "ptr" and k not in self.secretargs(i.cname) and k not in self.ctx.get(i.cname, {}):
                            wr = k in self.mods(i.cname)
                            if not wr and (t.content(o) or t.inback(o)):
                                self.ctx.setdefault(i.cname, {})[k] = None
                                if i.cname not in work:
                                    work.append(i.cname)
        return tt


def lin(E, st, v, d=0):
    """(sum of values | None, constant) of a length"""
    v = E.res(st, v)
    k = E.ev(st, v)
    if k is not None:
        return None, k
    if isinstance(v, Inst) and v.op == "add" and d < 8:
        (a, m), (b, n) = lin(E, st, v.ops[0], d + 1), lin(E, st, v.ops[1], d + 1)
        m, n = (x - (1 << 64) if x >> 63 else x for x in (m, n))
        r = tuple(sorted((a or ()) + (b or ()), key=id)) or None
        return r, m + n
    if isinstance(v, Inst) and v.op in ("zext", "sext", "freeze"):
        return lin(E, st, v.ops[0], d + 1)
    return (v,), 0


class Wipe(BaseClient):
    cap = 12

    def __init__(self, W, fn, taint):
        self.W, self.fn, self.t = W, fn, taint
        self.init = frozenset()
        self.bad = {}
        self.dirt = set()
        self.outk = {}
        sec = W.secretargs(fn.name)
        for k in W.outs(fn.name):
            if k in sec:
                self.outk[k] = sec[k]

    def obj(self, b):
        return self.t.isobj(b) or isinstance(b, Arg) and b.idx in self.outk

    # -- dirty ranges
    def dirty(self, st, b, lo, hi):
        d = {o: (l, h) for o, l, h in st.ts}
        self.dirt.add(b)
        if isinstance(b, Arg) and self.outk[b.idx]:
            if lo is None or hi is None:
                lo, hi = 0, 1 << 40
            rs = [(max(lo, l), min(hi, h)) for l, h in self.outk[b.idx] if lo < h and hi > l]
            if not rs:
                return
            lo, hi = min(r[0] for r in rs), max(r[1] for r in rs)
        if b in d and lo is not None and d[b][0] is not None:
            l, h = d[b]
            lo, hi = min(lo, l), (None if h is None or hi is None else max(hi, h))
        elif b in d:
            lo, hi = (None, None) if lo is None or d[b][0] is None else (lo, hi)
        d[b] = (lo, hi)
        st.ts = frozenset((o, l, h) for o, (l, h) in d.items())

    def drop(self, st, b):
        st.ts = frozenset(x for x in st.ts if x[0] is not b)

    def size(self, E, st, b):
        if isinstance(b, Inst) and b.op == "alloca":
            return None, b.size
        if isinstance(b, Inst) and b.cname in ("malloc", "realloc"):
            return lin(E, st, b.ops[0 if b.cname == "malloc" else 1])
        if isinstance(b, Inst) and b.cname == "calloc":
            k = E.ev(st, b.ops[0])
            if k == 1:
                return lin(E, st, b.ops[1])
            k = E.ev(st, b.ops[1])
            if k == 1:
                return lin(E, st, b.ops[0])
        return (b,), 0

    def wiped(self, E, st, p, n):
        b, off = E.ptr(st, p)
        if isinstance(b, Const) or off is None:
            return
        cur = [x for x in st.ts if x[0] is b]
        if not cur:
            return
        o, lo, hi = cur[0]
        r, k = lin(E, st, n)
        sr, sk = self.size(E, st, b)
        whole = False
        if r is None:
            if sr is None and off == 0 and k >= sk:
                whole = True
            elif lo is not None and hi is not None:
                if off <= lo and off + k >= hi:
                    whole = True
                elif off <= lo < off + k:
                    st.ts = (st.ts - {cur[0]}) | {(o, off + k, hi)}
                elif off < hi <= off + k:
                    st.ts = (st.ts - {cur[0]}) | {(o, lo, off)}
        elif off == 0:
            if sr == r and k >= sk - 1:
                whole = True
            elif len(r) == 1 and isinstance(r[0], Inst) and r[0].op == "call" and r[0].cname in ("strlen", "strnlen") and k >= 0:
                a = E.ptr(st, r[0].ops[0])
                if a[0] is b and a[1] == 0:
                    whole = True
                elif isinstance(b, Inst) and b.cname in DUP and E.ptr(st, b.ops[0]) == a:
                    whole = True
            elif isinstance(b, Arg) and len(r) == 1 and isinstance(r[0], Arg) and r[0].idx == b.idx + 1 and k >= 0:
                whole = True        # buffer and size, as the caller passed them
        if whole:
            self.drop(st, b)

    def taintcall(self, E, st, i):
        objs = self.t.writes.get(i)
        if not objs:
            return
        n = i.cname or ""
        if n in DUP:
            if E.ev(st, i) != 0:
                self.dirty(st, i, None, None)
            return
        if n.startswith(MEMV) or n in ("memcpy", "memmove"):
            b, off = E.ptr(st, i.ops[0])
            if self.obj(b):
                ln = E.ev(st, i.ops[2])
                self.dirty(st, b, off, None if ln is None or off is None else off + ln)
            return
        ws = E.fx.writes(E, st, i)
        for p, lo, hi in ws:
            b, off = E.ptr(st, p)
            if self.obj(b) and (b in objs or any(b is x for x in objs)):
                if lo is None or off is None:
                    self.dirty(st, b, None, None)
                else:
                    self.dirty(st, b, off + lo, off + hi)

    def on_store(self, E, st, i, base, off, size, val):
        if i in self.t.writes and self.obj(base):
            self.dirty(st, base, off, None if off is None else off + size)
        return None

    def report(self, E, st, i, b, why):
        self.bad.setdefault((b, why), (i, E.trail_lines(st)))

    def on_call(self, E, st, i):
        n = i.cname or ""
        if n in WIPE:
            p, k = WIPE[n]
            self.wiped(E, st, i.ops[p], i.ops[k])
            return None
        if n.startswith("llvm.memset") or n == "memset":
            b, off = E.ptr(st, i.ops[0])
            if isinstance(b, Arg):
                self.wiped(E, st, i.ops[0], i.ops[2])
            return None
        if n in ("free", "realloc", "utf8proc_free"):
            b, off = E.ptr(st, i.ops[0])
            for o, lo, hi in st.ts:
                if o is b:
                    self.report(E, st, i, b, "released")
            self.drop(st, b)
            return None
        if i in self.t.writes:
            fail = CLEANFAIL.get(n)
            if fail is None and n in self.W.P.fn and n in self.W.clean:
                fail = "ok0"
            E.clobber(st, i)
            if fail is None:
                self.taintcall(E, st, i)
                return [st]
            good, badp = {"0": ("ne", "eq"), "1": ("eq", "ne"), "ok0": ("eq", "ne")}[fail]
            k = 1 if fail == "1" else 0
            out = []
            for s in E.acmp(st.copy(), good, i, mk(k, i.w)):
                self.taintcall(E, s, i)
                out.append(s)
            out += E.acmp(st.copy(), badp, i, mk(k, i.w))
            return out
        return None

    def on_ret(self, E, st, i, val):
        for o, lo, hi in st.ts:
            if isinstance(o, Inst) and o.op == "alloca":
                self.report(E, st, i, o, "left")
            elif isinstance(o, Arg) and self.fails(E, st, val):
                self.report(E, st, i, o, "output")

    def fails(self, E, st, val):
        """may this return be a failure?"""
        p = self.W.L.protos.get(self.fn.name) or self.W.L.iprotos.get(self.fn.name)
        if val is None or not p or "nostr_error_t" not in p[0] and "nostr_relay_error_t" not in p[0]:
            return False
        return bool(E.acmp(st.copy(), "ne", val, mk(0, E.width(val) or 32)))


class Release(Wipe):
    """a record that carries key material is handed in for release: its secret part is wiped on every path"""

    def __init__(self, W, fn, k, lo, hi):
        Wipe.__init__(self, W, fn, Taint(W, fn, {}))
        self.arg = fn.args[k]
        self.outk = {k: [(lo, hi)]}
        self.init = frozenset(((self.arg, lo, hi),))

    def on_store(self, E, st, i, base, off, size, val):
        return None

    def on_call(self, E, st, i):
        n = i.cname or ""
        if n in WIPE or n.startswith("llvm.memset") or n == "memset":
            if n in WIPE:
                p, k = WIPE[n]
                self.wiped(E, st, i.ops[p], i.ops[k])
            return None
        return None

    def on_ret(self, E, st, i, val):
        for o, lo, hi in st.ts:
            for s in E.acmp(st.copy(), "ne", self.arg, mk(0, 0)):
                self.report(E, s, i, o, "released")


class Wiper(BaseClient):
    """secure_wipe itself: every non-empty buffer is overwritten in a way the compiler must keep"""
    cap = 12

    def __init__(self, fn):
        self.fn = fn
        self.p, self.n = fn.args[0], fn.args[1]
        self.init = "no"
        self.bad = {}
        self.good = 0

    def on_call(self, E, st, i):
        if i.cname in WIPE and i.cname != self.fn.name:
            a, k = WIPE[i.cname]
            if E.ptr(st, i.ops[a]) == (self.p, 0) and E.res(st, i.ops[k]) is self.n:
                st.ts = "yes"
        return None

    def on_store(self, E, st, i, base, off, size, val):
        if i.vol and size == 1 and base is self.p:
            st.ts = "vol" if st.ts == "no" else st.ts
        return None

    def on_ret(self, E, st, i, val):
        if st.ts == "yes":
            self.good += 1
            return
        for s in E.acmp(st.copy(), "ne", self.p, mk(0, 0)):
            for t in E.acmp(s, "ne", self.n, mk(0, 64)):
                if st.ts == "vol" and walkall(self.fn, self.n):
                    self.good += 1
                    continue
                self.bad.setdefault("wipe", (i, E.trail_lines(t)))


def walkall(fn, n):
    """a byte loop over the whole length: counter from 0 by 1 below n, or from n down to 0"""
    for i in fn.insts():
        if i.op == "phi" and len(i.ops) == 2:
            step = [o for o in i.ops if isinstance(o, Inst) and o.op in ("add", "sub") and o.ops[0] is i and isinstance(o.ops[1], Const)]
            init = [o for o in i.ops if o not in step]
            if len(step) != 1 or len(init) != 1:
                continue
            k = step[0].ops[1].v
            up = step[0].op == "add" and k == 1
            down = step[0].op == "sub" and k == 1 or step[0].op == "add" and k == (1 << 64) - 1
            if up and isinstance(init[0], Const) and init[0].v == 0:
                for c in fn.insts():
                    if c.op == "icmp" and c.ops[0] is i and c.ops[1] is n and c.pred in ("ult", "ne"):
                        return True
            if down and init[0] is n:
                for c in fn.insts():
                    if c.op == "icmp" and c.ops[0] is i and isinstance(c.ops[1], Const) and c.ops[1].v == 0:
                        return True
    return False


def run(cfg):
    """[(function, objects, violations [(key, where, why, path)])]"""
    import layout
    P, L = prog.prog(cfg), layout.layout(cfg)
    W = World(P, L)
    W.clean = {n for n in P.fn if "nostr_error_t" in (L.protos.get(n) or L.iprotos.get(n) or ("",))[0]}
    out = []
    for n, t in sorted(W.contexts().items()):
        if not t.writes:
            continue
        c = refined(lambda: Wipe(W, P.fn[n], t), P.fn[n], P.fx)
        if not c.dirt:
            continue
        bad = []
        for (b, why), (i, tr) in sorted(c.bad.items(), key=lambda x: x[1][0].id):
            nm = b.name if isinstance(b, Arg) else re.sub(r"\.(i+|addr|coerce)?\d*", "", b.name or "") if b.op == "alloca" else (b.cname or "block")
            src = b.loc if isinstance(b, Inst) and b.line else ""
            bad.append(("%s:%s:%s" % (why, n, nm), i.loc, {
                "left": "the local buffer '%s' still holds key material when the function returns" % nm,
                "released": "a heap block that holds key material (allocated by %s%s) is released without having been wiped" % (nm, " at " + src if src else ""),
                "output": "the function may fail here with key material left in its output '%s'" % nm}[why], tr))
        out.append((n, len(c.dirt), bad))
    for n, f in sorted(P.fn.items()):
        p = L.protos.get(n)
        if not p or not re.search(r"_(destroy|free)$", n):
            continue
        for k, (an, ty) in enumerate(p[1]):
            r = L.base(ty)
            rs = [(o, o + s) for path, o, s, t2 in L.fieldsof(r) if t2.strip() == "nostr_privkey"] if ty.count("*") == 1 else []
            for lo, hi in rs:
                c = refined(lambda: Release(W, f, k, lo, hi), f, P.fx)
                out.append((n, 1, [("record:%s" % n, i.loc, "the private key in '%s' (bytes %d..%d) is not wiped on this path" % (an, lo, hi), tr) for (b, why), (i, tr) in c.bad.items()]))
    f = P.get("secure_wipe")
    c = refined(lambda: Wiper(f), f, P.fx)
    out.append((f.name, 1, [("wipe:secure_wipe", i.loc, "a non-empty buffer is not overwritten in a way the compiler has to keep", tr) for i, tr in c.bad.values()]))
    return out


def refined(mkc, fn, fx):
    return esp.explore(mkc, fn, fx, 60000)

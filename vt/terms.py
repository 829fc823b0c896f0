"""Symbolic value numbering of buffers and scalars on top of the typestate engine.

Every byte range of memory is described by the term that produced it (initial content of a parameter,
copy of another range, output of a modelled function applied to argument terms).  Every branch on the
result of a modelled function, or on a comparison of scalars, becomes a fact about terms.  A gate is a
set of facts which must be present in every state that reaches a success return.
"""
from esp import BaseClient, mk, is_const
from ir import Inst, Const, Arg, Global
import prog, re

INF = 1 << 40

# name -> (argument readers, outputs)
#   readers: '-': ignored, 'n': scalar term, ('b', n): n bytes, ('bl', k): bytes with length argument k, 's': string
#   outputs: (arg, offset, size | None, tag)
M = {
    "secp256k1_xonly_pubkey_parse": (("-", "-", ("b", 32)), [(1, 0, 64, "xonly")]),
    "secp256k1_schnorrsig_verify": (("-", ("b", 64), ("bl", 3), "n", ("b", 64)), []),
    "secp256k1_schnorrsig_sign32": (("-", "-", ("b", 32), ("b", 96), ("bz", 32)), [(1, 0, 64, "schnorr")]),
    "secp256k1_keypair_create": (("-", "-", ("b", 32)), [(1, 0, 96, "kp")]),
    "secp256k1_keypair_xonly_pub": (("-", "-", "-", ("b", 96)), [(1, 0, 64, "kpx")]),
    "secp256k1_xonly_pubkey_serialize": (("-", "-", ("b", 64)), [(1, 0, 32, "xser")]),
    "secp256k1_xonly_pubkey_from_pubkey": (("-", "-", "-", ("b", 64)), [(1, 0, 64, "xfp")]),
    "secp256k1_ec_pubkey_create": (("-", "-", ("b", 32)), [(1, 0, 64, "ecpub")]),
    "secp256k1_ec_pubkey_parse": (("-", "-", ("bl", 3), "n"), [(1, 0, 64, "ecpp")]),
    "secp256k1_ec_pubkey_serialize": (("-", "-", "-", ("b", 64), "n"), [(1, 0, None, "ecser")]),
    "secp256k1_ec_seckey_verify": (("-", ("b", 32)), []),
    "secp256k1_ec_seckey_tweak_add": (("-", ("b", 32), ("b", 32)), [(1, 0, 32, "tweak")]),
    "secp256k1_ecdh": (("-", "-", ("b", 64), ("b", 32), "p", "-"), [(1, 0, 32, "ecdh")]),
    "SHA256": ((("bl", 1), "n", "-"), [(2, 0, 32, "sha256")]),
    "mbedtls_sha256": ((("bl", 1), "n", "-", "n"), [(2, 0, 32, "sha256")]),
    "nostr_constant_time_memcmp": ((("bl", 2), ("bl", 2), "n"), []),
    "memcmp": ((("bl", 2), ("bl", 2), "n"), []),
    "strcmp": (("s", "s"), []),
    "strncmp": (("s", "s", "n"), []),
    "strlen": (("s",), []),
    "cJSON_GetObjectItem": (("p", "s"), []),
    "cJSON_GetObjectItemCaseSensitive": (("p", "s"), []),
    "cJSON_GetArrayItem": (("p", "n"), []),
    "cJSON_GetArraySize": (("p",), []),
    "cJSON_IsString": (("p",), []), "cJSON_IsNumber": (("p",), []), "cJSON_IsArray": (("p",), []), "cJSON_IsObject": (("p",), []),
    "cJSON_IsBool": (("p",), []), "cJSON_IsTrue": (("p",), []), "cJSON_IsFalse": (("p",), []), "cJSON_IsNull": (("p",), []),
    "htonl": (("n",), []), "llvm.bswap.i32": (("n",), []), "tolower": (("n",), []), "atoi": (("s",), []),
    "strchr": (("p", "n"), []), "strstr": (("p", "s"), []),
    "strtol": (("s", "-", "n"), []), "strtoul": (("s", "-", "n"), []), "strtoll": (("s", "-", "n"), []), "strtoull": (("s", "-", "n"), []),
    "EVP_chacha20_poly1305": ((), []), "EVP_sha512": ((), []), "EVP_sha256": ((), []),
    "nostr_hex_encode": ((("bl", 1), "n", "-"), [(2, 0, None, "hex")]),
    "nostr_bytes_to_hex": ((("bl", 1), "n", "-"), [(2, 0, None, "hex")]),
    "nostr_hex_decode": (("s", "-", "n"), [(1, 0, ("v", 2), "unhex")]),
    "nostr_random_bytes": (("-", "n"), [(0, 0, ("v", 1), "rnd")]),
    "EVP_PBE_scrypt": (("s", "n", ("bl", 3), "n", "n", "n", "n", "n", "-", "n"), [(8, 0, ("v", 9), "scrypt")]),
    "EVP_EncryptInit_ex": (("p", "n", "n", ("bz", 32), ("bz", 12)), []),
    "EVP_DecryptInit_ex": (("p", "n", "n", ("bz", 32), ("bz", 12)), []),
    "EVP_CIPHER_CTX_ctrl": (("p", "n", "n", ("bl", 2)), []),
    "EVP_DecryptUpdate": (("p", "-", "-", ("bl", 4), "n"), [(1, 0, ("v", 4), "dec"), (2, 0, 4, "declen")]),
    "EVP_EncryptUpdate": (("p", "-", "-", ("bl", 4), "n"), [(1, 0, ("v", 4), "enc"), (2, 0, 4, "enclen")]),
    "EVP_DecryptFinal_ex": (("p", "-", "-"), []),
    "EVP_EncryptFinal_ex": (("p", "-", "-"), []),
    "bech32_convert_bits": ((("bl", 1), "n", "-", "n", "n", "n", "n"), [(2, 0, None, "bits")]),
    "bech32_verify_checksum": (("s", ("bl", 2), "n"), []),
    "bech32_create_checksum": (("s", ("bl", 2), "n", "-"), [(3, 0, 6, "bchk")]),
    "bech32_polymod": ((("bl", 1), "n"), []),
    "bech32_charset_decode": (("n",), []),
    "nostr_key_to_hex": ((("b", 32), "-", "n"), [(1, 0, None, "hex")]),
}
# library functions that are pure predicates / getters of their argument objects
LIBM = {
    "nostr_event_compute_id": (("p",), None),
}


_ids = {}


def ids(t):
    """instruction ids whose dynamic value the term refers to"""
    r = _ids.get(t)
    if r is None:
        if t and t[0] == "v":
            r = frozenset((t[1],))
        elif t and t[0] in ("ret",):
            r = frozenset((t[2],)).union(*[ids(x) for x in t[3:] if isinstance(x, tuple)])
        elif t and t[0] == "?":
            r = frozenset((t[1],))
        elif t and t[0] == "loc":
            r = frozenset()
        else:
            r = frozenset().union(*[ids(x) for x in t if isinstance(x, tuple)]) if t else frozenset()
        _ids[t] = r
    return r


NEGOFF = -(1 << 20)


def sub(t, rel, ln):
    if t[0] == "?" and len(t) >= 4:
        return t[:2] + (t[2] + rel, t[3]) + (() if ln is None else (ln,))
    if t[0] == "mem":
        if ln is None and t[3] is None or ln is not None:
            return ("mem", t[1], t[2] + rel, ln) + t[4:]
    if t[0] == "zero":
        return t
    if t[0] == "sub":
        return ("sub", t[1], t[2] + rel, ln)
    return ("sub", t, rel, ln)


def bkey(b):
    if isinstance(b, Inst):
        return "i%d" % b.id
    if isinstance(b, Arg):
        return "a%d" % b.idx
    return "g" + getattr(b, "name", "?")


class Sym(object):
    """immutable symbolic component kept in the typestate"""
    __slots__ = ("L", "C", "F", "ep", "u", "_h", "_k")
    def __init__(s, L, C, F, ep, u):
        s.L, s.C, s.F, s.ep, s.u = L, C, F, ep, u
        s._k = None
        s._h = None
    def key(s):
        if s._k is None:
            s._k = (frozenset(s.L.items()), frozenset(s.C.items()), s.F, s.ep, s.u)
            s._h = hash(s._k)
        return s._k
    def __hash__(s):
        s.key()
        return s._h
    def __eq__(s, o):
        return s is o or (s.__hash__() == o.__hash__() and s.key() == o.key())
    def with_(s, L=None, C=None, F=None, ep=None, u=None):
        return Sym(s.L if L is None else L, s.C if C is None else C, s.F if F is None else F,
                   s.ep if ep is None else ep, s.u if u is None else u)


class TermClient(BaseClient):
    cap = 6
    track_cmp = False       # record comparisons between arbitrary scalars
    models = {}

    def __init__(self, P, fn, interest=None):
        self.P, self.fn = P, fn
        self.init = Sym({}, {}, frozenset(), 0, None)
        self.interest = interest
        self.rets = []
        self.calls_seen = set()

    # ---- terms
    def vterm(self, E, st, v, d=0):
        v = E.res(st, v)
        if isinstance(v, Const):
            return ("c", v.v) if v.kind != "undef" else ("undef",)
        if isinstance(v, Arg):
            return ("arg", v.idx)
        if isinstance(v, Global):
            if v.init_str is not None and v.const:
                return ("s", v.init_str.split(b"\0")[0].decode("latin1"))
            return ("g", v.name)
        k = E.ev(st, v) if v.op not in ("call", "load") else None
        if k is not None:
            return ("c", k)
        t = st.ts.L.get(v.id) if v.bb is not None else None
        if t is not None:
            return t
        if v.op == "alloca":
            return ("loc", v.id)
        if d > 6:
            return ("v", v.id)
        if v.op == "gep":
            b, off = E.ptr(st, v)
            if off is not None:
                bt = self.vterm(E, st, b, d + 1)
                return bt if off == 0 else ("gep", bt, off)
            return ("gepv", self.vterm(E, st, v.ops[0], d + 1), v.gep[0], tuple((self.vterm(E, st, x, d + 1), s) for x, s in v.gep[1]))
        if v.op in ("zext", "sext", "freeze", "bitcast", "ptrtoint", "inttoptr"):
            return self.vterm(E, st, v.ops[0], d + 1)
        if v.op == "trunc":
            return ("trunc", v.w, self.vterm(E, st, v.ops[0], d + 1))
        if v.op == "icmp":
            return ("icmp", v.pred, self.vterm(E, st, v.ops[0], d + 1), self.vterm(E, st, v.ops[1], d + 1))
        if v.op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a, b = self.vterm(E, st, v.ops[0], d + 1), self.vterm(E, st, v.ops[1], d + 1)
            if v.op in ("add", "mul", "and", "or", "xor") and repr(b) < repr(a):
                a, b = b, a
            return (v.op, a, b)
        return ("v", v.id)

    def aterm(self, E, st, base):
        if isinstance(base, Global):
            return ("s", base.init_str.split(b"\0")[0].decode("latin1")) if base.init_str is not None and base.const else ("g", base.name)
        return self.vterm(E, st, base)

    def content(self, E, st, ptr, ln):
        base, off = E.ptr(st, ptr)
        if isinstance(base, Const):
            return ("null",)
        if off is None:
            return ("at", self.vterm(E, st, ptr), ln, st.ts.ep)
        return self.cont(E, st, base, off, ln)

    def cont(self, E, st, base, off, ln):
        if isinstance(base, Global) and base.const and base.init_str is not None and off == 0:
            if ln is None or True:
                return ("s", base.init_str.split(b"\0")[0].decode("latin1"))
        C = st.ts.C
        pieces = []
        end = off + ln if ln is not None else INF
        for (b, o), (l, t) in C.items():
            if b is not base:
                continue
            oe = o + l if l is not None else INF
            if o == off and l == ln:
                if ln is not None:
                    return t
            elif ln is not None and o <= off and oe >= end:
                return sub(t, off - o, ln)
            if o < end and oe > off:
                pieces.append((o, l, t))
        if pieces:
            pieces.sort(key=lambda x: x[0])
            if ln is None:
                if len(pieces) == 1 and pieces[0][0] <= off:
                    o, l, t = pieces[0]
                    return t if o == off else sub(t, off - o, None)
                return ("seq",) + tuple((o - off, l, t) for o, l, t in pieces)
            pos, out = off, []
            for o, l, t in pieces:
                if o < pos or l is None:
                    return ("mix",) + tuple(p[2] for p in pieces)
                if o > pos:
                    out.append(self.raw(E, st, base, pos, o - pos))
                out.append(t)
                pos = o + l
            if pos < off + ln:
                out.append(self.raw(E, st, base, pos, off + ln - pos))
            elif pos > off + ln:
                return ("mix",) + tuple(p[2] for p in pieces)
            return ("cat",) + tuple(out)
        return self.raw(E, st, base, off, ln)

    def raw(self, E, st, base, off, ln):
        if isinstance(base, Inst) and base.op == "alloca":
            return ("uninit",)
        if isinstance(base, Inst) and base.op == "call" and E.fx.is_alloc(base):
            return ("zero",) if base.cname == "calloc" else ("fresh", self.vterm(E, st, base))
        return ("mem", self.aterm(E, st, base), off, ln) + ((st.ts.ep,) if st.ts.ep and not isinstance(base, Arg) else ())

    # ---- writes
    def wr(self, E, st, base, off, ln, term):
        """write ln bytes (None = unknown extent) at base+off (None = anywhere)"""
        C = {}
        for (b, o), (l, t) in st.ts.C.items():
            if b is not base:
                C[(b, o)] = (l, t)
                continue
            if off is None:
                continue
            end = off + ln if ln is not None else INF
            oe = o + l if l is not None else INF
            if oe <= off or o >= end:
                C[(b, o)] = (l, t)
                continue
            if o < off:
                C[(b, o)] = (off - o, sub(t, 0, off - o))
            if oe > end and ln is not None:
                if l is not None:
                    C[(b, end)] = (oe - end, sub(t, end - o, oe - end))
                else:
                    C[(b, end)] = (None, sub(t, end - o, None))
        if off is None:
            C[(base, NEGOFF)] = (None, ("?", term[1], NEGOFF, term[3]) if term[0] == "?" and len(term) >= 4 else ("?", -1, NEGOFF, bkey(base)))
        else:
            C[(base, off)] = (ln, term)
        st.ts = st.ts.with_(C=C)

    def isdeep(self, E, base):
        return not (isinstance(base, (Arg, Global)) or isinstance(base, Inst) and (base.op == "alloca" or base.op == "call" and E.fx.is_alloc(base)))

    def on_store(self, E, st, i, base, off, size, val):
        if isinstance(base, Const):
            return None
        if off is None:
            k = self.terminator(E, st, i, base, size, val)
            if k is None:
                self.wr(E, st, base, self.lowest(E, st, i, base), None, ("?", i.id, 0, 0))
            else:
                C = dict(st.ts.C)
                C[(base, k)] = (None, C[(base, k)][1][1])
                st.ts = st.ts.with_(C=C)
        else:
            self.wr(E, st, base, off, size, self.vterm(E, st, val) if not (isinstance(val, Const) and val.kind == "undef") else ("undef",))
        if self.isdeep(E, base):
            self.bump(st, i)
        return None

    def offset(self, E, st, ptr):
        """a symbolic position as (constant, terms added to it), where it is a sum"""
        p = self.vterm(E, st, ptr)
        if not isinstance(p, tuple) or p[0] != "gepv" or len(p[3]) != 1 or p[3][0][1] != 1:
            return None, ()
        k, rest, todo = p[2], [], [p[3][0][0]]
        while todo:
            t = todo.pop()
            if t[0] == "add":
                todo += [t[1], t[2]]
            elif t[0] == "c":
                k += t[1]
            else:
                rest.append(t)
        return k, rest

    def lowest(self, E, st, i, base):
        """a position not above the one written (lengths of strings are not negative, positions do not wrap)"""
        k, rest = self.offset(E, st, i.ops[1])
        return k if k is not None and 0 <= k < 1 << 31 and all(t[0] == "strlen" for t in rest) else None

    def terminator(self, E, st, i, base, size, val):
        """the store puts the NUL right behind the strlen(X) bytes of X copied to base+k: returns k"""
        if size != 1 or not isinstance(val, Const) or val.kind != "int" or val.v != 0:
            return None
        k, rest = self.offset(E, st, i.ops[1])
        l, t = st.ts.C.get((base, k), (0, None))
        if l is None and len(rest) == 1 and t[0] == "copy" and t[2] == rest[0] == ("strlen", t[1]):
            return k
        return None

    def bump(self, st, i):
        pass

    def on_load(self, E, st, i, base, off):
        r = None
        # let the engine forward the cell if it can
        if off is not None and (base, off) in st.mem and st.mem[(base, off)][0] == i.size and st.mem[(base, off)][1] is not i:
            self.drop(st, i)
            return None
        if isinstance(base, Const):
            t = ("v", i.id)
        elif off is None:
            t = ("ld", self.vterm(E, st, i.ops[0]), i.size)
        else:
            t = self.cont(E, st, base, off, i.size)
        self.drop(st, i)
        L = dict(st.ts.L)
        L[i.id] = t
        st.ts = st.ts.with_(L=L)
        return None

    def drop(self, st, i):
        """i gets a new dynamic value: forget facts about its opaque older value"""
        self.stale(st, (i.id,))

    def on_phi(self, E, st, phis):
        self.stale(st, [p.id for p in phis])

    def stale(self, st, idl):
        s = st.ts
        g = frozenset(idl)
        L = {k: t for k, t in s.L.items() if k not in g and not (g & ids(t))}
        F = frozenset(f for f in s.F if not (g & ids(f[1])) and not (g & ids(f[2])))
        C = s.C
        if any(isinstance(b, Inst) and b.id in g for b, o in C):
            # cells of the object it used to point at, which may or may not be the one it points at now
            C = {k: ((l, ("?", -1, k[1], bkey(k[0])) if l is None else ("?", -1, k[1], bkey(k[0]), l)) if isinstance(k[0], Inst) and k[0].id in g else (l, t)) for k, (l, t) in C.items()}
            F = frozenset(f for f in F if -1 not in ids(f[1]) and -1 not in ids(f[2]))
            L = {k: t for k, t in L.items() if -1 not in ids(t)}
        if any(g & ids(t) for l, t in C.values()):
            C = {k: ((l, ("?", -1, k[1], bkey(k[0])) if l is None else ("?", -1, k[1], bkey(k[0]), l)) if g & ids(t) else (l, t)) for k, (l, t) in C.items()}
            F = frozenset(f for f in F if -1 not in ids(f[1]) and -1 not in ids(f[2]))
            L = {k: t for k, t in L.items() if -1 not in ids(t)}
        if len(L) != len(s.L) or len(F) != len(s.F) or C is not s.C:
            st.ts = s.with_(L=L, F=F, C=C)

    # ---- calls
    def on_call(self, E, st, i):
        n = i.cname
        self.calls_seen.add(n or "*")
        r = self.user_call(E, st, i)
        if r is not None:
            return r
        self.call_model(E, st, i)
        return [st]

    def user_call(self, E, st, i):
        return None

    def args(self, E, st, i, rd):
        out = []
        for k, r in enumerate(rd):
            if k >= len(i.ops):
                out.append(("none",))
                continue
            o = i.ops[k]
            if r == "-":
                continue
            if r in ("n", "p"):
                out.append(self.vterm(E, st, o))
            elif r == "s":
                out.append(self.content(E, st, o, None))
            elif r[0] == "b":
                out.append(self.content(E, st, o, r[1]))
            elif r[0] == "bz":
                b, _ = E.ptr(st, o)
                out.append(("null",) if isinstance(b, Const) else self.content(E, st, o, r[1]))
            elif r[0] == "bl":
                ln = E.ev(st, i.ops[r[1]])
                out.append(self.content(E, st, o, ln))
        return tuple(out)

    def call_model(self, E, st, i):
        n = i.cname
        self.drop(st, i)
        if n and n.startswith(("llvm.memcpy", "llvm.memmove")):
            ln = E.ev(st, i.ops[2])
            src = self.content(E, st, i.ops[1], ln)
            if ln is None:
                src = ("copy", src, self.vterm(E, st, i.ops[2]))
            cells = []
            sb, so = E.ptr(st, i.ops[1])
            db, do = E.ptr(st, i.ops[0])
            if so is not None and do is not None and ln is not None:
                for (b, o), (sz, v) in st.mem.items():
                    if b is sb and so <= o and o + sz <= so + ln:
                        cells.append((o - so + do, sz, v))
            ents = []
            if so is not None and do is not None and ln is not None:
                # keep the structure of the source: copy overlapping entries piecewise
                for (b, o), (l, t) in st.ts.C.items():
                    if b is sb and l is not None and so <= o and o + l <= so + ln:
                        ents.append((o - so + do, l, t))
            E.clobber(st, i)
            if not isinstance(db, Const):
                if src[0] in ("cat", "mix"):
                    # base content (unmodified) then entries
                    self.wr(E, st, db, do, ln, self.raw(E, st, sb, so, ln))
                    for o, l, t in ents:
                        self.wr(E, st, db, o, l, t)
                else:
                    self.wr(E, st, db, do, ln, src)
                for o, sz, v in cells:
                    st.mem[(db, o)] = (sz, v)
            return
        if n and n.startswith("llvm.memset"):
            ln = E.ev(st, i.ops[2])
            k = E.ev(st, i.ops[1])
            db, do = E.ptr(st, i.ops[0])
            E.clobber(st, i)
            if not isinstance(db, Const):
                self.wr(E, st, db, do, ln, ("zero",) if k == 0 else ("fill", k))
            return
        mdl = self.models.get(n) or M.get(n)
        if mdl is None and n in ("snprintf", "sprintf"):
            fi = 2 if n == "snprintf" else 1
            fmt = self.content(E, st, i.ops[fi], None)
            a = ()
            if fmt[0] == "s":
                specs = re.findall(r"%[-+ #0-9.]*(?:hh|h|ll|l|z|j)?([a-zA-Z%])", fmt[1])
                for sp, o in zip([x for x in specs if x != "%"], i.ops[fi + 1:]):
                    a += (self.content(E, st, o, None) if sp == "s" else self.vterm(E, st, o),)
            t = ("ret", n, i.id, fmt) + a + ((self.vterm(E, st, i.ops[1]),) if n == "snprintf" else ())
            self.generic_writes(E, st, i, t)
            db, do = E.ptr(st, i.ops[0])
            if not isinstance(db, Const):
                self.wr(E, st, db, do, None, ("fmt", fmt) + a if fmt[0] == "s" else ("?", i.id, 0, 0))
            L = dict(st.ts.L)
            L[i.id] = t
            st.ts = st.ts.with_(L=L)
            self.post_call(E, st, i, t)
            return
        if mdl is not None:
            a = self.args(E, st, i, mdl[0])
            if callable(mdl[1]):
                t = mdl[1](self, E, st, i, a)
            else:
                t = (n,) + a
                self.generic_writes(E, st, i, t)
                for k, off, sz, tag in mdl[1]:
                    if k < len(i.ops):
                        db, do = E.ptr(st, i.ops[k])
                        if isinstance(sz, tuple):
                            sz = E.ev(st, i.ops[sz[1]])
                        if not isinstance(db, Const):
                            if self.isdeep(E, db):
                                pass
                            self.wr(E, st, db, None if do is None else do + off, sz, (tag,) + a)
        else:
            t = ("ret", n or "*", i.id) + tuple(self.vterm(E, st, o) for o in i.ops)
            self.generic_writes(E, st, i, t)
        L = dict(st.ts.L)
        L[i.id] = t
        st.ts = st.ts.with_(L=L)
        self.post_call(E, st, i, t)

    def post_call(self, E, st, i, t):
        pass

    def whole_from(self, p, i):
        """an external or API callee that writes an unknown extent starts at the pointer it was given"""
        return True

    def generic_writes(self, E, st, i, t):
        ws = []
        for p, lo, hi in E.fx.writes(E, st, i):
            b, o = E.ptr(st, p)
            if isinstance(b, Const):
                continue
            kk = next((n for n, x in enumerate(i.ops) if x is p), 0)
            if lo is None and o is not None and self.whole_from(p, i):
                ws.append((b, o, None, 0, kk))
            else:
                ws.append((b, None if (o is None or lo is None) else o + lo, None if lo is None else hi - lo, lo, kk))
        E.clobber(st, i)
        for b, o, ln, lo, kk in ws:
            self.wr(E, st, b, o, ln, ("?", i.id, lo or 0, kk) + (() if ln is None else (ln,)))
        if E.fx.deep(i) or i.cname is None:
            st.ts = st.ts.with_(ep=i.id)

    # ---- facts
    def rawterm(self, E, st, v):
        """the term of a computed value even where the engine knows the number (so that the comparison is remembered as such)"""
        v = E.res(st, v)
        if isinstance(v, Inst) and v.op in ("sub", "add", "and") and st.ts.L.get(v.id) is None:
            a, b = self.vterm(E, st, v.ops[0]), self.vterm(E, st, v.ops[1])
            if v.op != "sub" and repr(b) < repr(a):
                a, b = b, a
            return (v.op, a, b)
        return None

    def on_fact(self, E, st, pred, a, b):
        ta, tb = self.vterm(E, st, a), self.vterm(E, st, b)
        if self.interest is not None and ta[0] == "c":
            r = self.rawterm(E, st, a)
            if r is not None and r[1][0] != "c" and self.interest(pred, r, tb):
                st.ts = st.ts.with_(F=st.ts.F | {(pred, r, tb)})
        if ta[0] == "c" and tb[0] == "c":
            return st
        if self.interest is not None and not self.interest(pred, ta, tb):
            return st
        st.ts = st.ts.with_(F=st.ts.F | {(pred, ta, tb)})
        return st

    def on_ret(self, E, st, i, val):
        self.rets.append((st, i, val))

    # ---- joining at loop heads: facts are must-facts, contents are kept where they agree
    tcap = 8

    def join_ts(self, E, blk, a, b):
        if a == b:
            return a
        tag = -(2 + E.info.rpo[blk])
        L = {k: t for k, t in a.L.items() if b.L.get(k) == t}
        C, lost = {}, {}
        for x, y in ((a.C, b.C), (b.C, a.C)):
            for k, e in x.items():
                if y.get(k) == e:
                    C[k] = e
                else:
                    lost.setdefault(k[0], []).append((k[1], INF if e[0] is None else k[1] + e[0]))
        for base, rs in lost.items():
            rs.sort()
            m = []
            for lo, hi in rs:
                if m and lo <= m[-1][1]:
                    m[-1][1] = max(m[-1][1], hi)
                else:
                    m.append([lo, hi])
            for lo, hi in m:
                C[(base, lo)] = (None, ("?", tag, lo, bkey(base))) if hi >= INF else (hi - lo, ("?", tag, lo, bkey(base), hi - lo))
        F = frozenset(f for f in a.F & b.F if tag not in ids(f[1]) and tag not in ids(f[2]))
        return Sym(L, C, F, a.ep if a.ep == b.ep else tag, self.join_u(a.u, b.u))

    def join_u(self, x, y):
        return x if x == y else None

    # ---- pruning of dead symbolic values
    def on_push(self, E, st, blk):
        live = E.info.live[blk]
        ids = {x.id for x in live}
        s = st.ts
        keepv = set()
        for t in st.env.values():
            if isinstance(t, Inst):
                keepv |= {x.id for x in E.info.dep(t) if isinstance(x, Inst)}
        for (b, o), (sz, v) in st.mem.items():
            if isinstance(v, Inst):
                keepv |= {x.id for x in E.info.dep(v) if isinstance(x, Inst)}
            if isinstance(b, Inst):
                keepv.add(b.id)
        for (b, o) in s.C:
            if isinstance(b, Inst):
                keepv.add(b.id)
        L = {k: t for k, t in s.L.items() if k in ids or k in keepv}
        if len(L) != len(s.L):
            st.ts = s.with_(L=L)

"""Derived keys: master keys, child keys, path derivation, mnemonic seeds follow BIP-32, BIP-39 and NIP-06."""
import hashlib
import esp, gate, prog, layout
from ir import Const
from spec import *
from props.p08 import mentions

TECHNIQUE = "path-sensitive gate dataflow over LLVM IR with symbolic provenance of key material, HMAC/PBKDF2 inputs and derivation lineage"
WORDS = "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda"     # SHA-256 of the published English list, one word per line

LIN = ("lin",)
LIB = {
    "HMAC": (("n", ("bl", 2), "n", ("bl", 4), "n", "-", "-"), [(5, 0, 64, "hmac")]),
    "PKCS5_PBKDF2_HMAC": ((("bl", 1), "n", ("bl", 3), "n", "n", "n", "n", "-"), [(7, 0, ("v", 6), "pbkdf2")]),
    "utf8proc_NFKD": (("s",), []),
}
KEYLIB = ("HMAC", "secp256k1_keypair_create", "secp256k1_keypair_xonly_pub", "secp256k1_xonly_pubkey_serialize", "secp256k1_ec_seckey_tweak_add",
          "secp256k1_ec_pubkey_create", "secp256k1_ec_pubkey_serialize")


def sub32(t, off):
    return ("sub", t, off, 32)


def xpub(priv):
    """the ways the library offers from a private key to its x-only public key"""
    return (("xser", ("kpx", ("kp", priv))), ("xser", ("xfp", ("ecpub", priv))))


def untrunc(t):
    while t[0] in ("trunc", "zext", "sext"):
        t = t[2]
    return t


def all_found(f, x, names):
    return all(any(f.nonzero(t) and mentions(t, x) for t in f.heads(*n)) for n in names)


def check(rep, tier):
    rep.expl = ("Every success path of master-key creation, child derivation, path derivation, mnemonic validation, seed derivation and the mnemonic-to-key-pair chain was explored with symbolic "
                "provenance: the private key, chain code and public key left in the caller's key must be the BIP-32 function of exactly the parent's fields and the index, each path component must be "
                "derived from the key of the component before it, the seed must be PBKDF2 over the normalised mnemonic and salt with the BIP-39 parameters, and every library step must have been found successful. "
                "The word table compiled into the library is compared with the published list.")
    rep.assume = ["libcrypto and libsecp256k1 compute HMAC-SHA512, PBKDF2 and the tweak correctly; utf8proc normalises to NFKD", "parent and child keys are distinct objects (as are master and derived)"]
    done = 0
    for cfg in CONFIGS:
        P = prog.prog(cfg)
        L = layout.layout(cfg)
        if "nostr_hd_key_derive" not in P.fn or not P.fn["nostr_hd_key_derive"].blocks or not any(
                i.cname == "HMAC" for b in P.fn["nostr_hd_key_derive"].blocks for i in b.insts):
            continue
        done += 1
        PRIV, PUB, CHAIN = (L.f("nostr_hd_key", x) for x in ("privkey", "pubkey", "chain_code"))
        SZ = L.size["nostr_hd_key"]
        lib = only(*KEYLIB)
        # BIP-32 master key
        SEED = ("mem", ("arg", 0), 0, None)
        I = ("hmac", ("EVP_sha512",), ("s", "Bitcoin seed"), ("c", 12), SEED, ("arg", 1))
        def steps(f, h, priv, tweak):
            if not any(f.nonzero(t) and flat0(t[1:]) == h[1:] for t in f.heads("HMAC")):
                return False
            if tweak and not any(f.nonzero(t) for t in f.heads("secp256k1_ec_seckey_tweak_add")):
                return False
            kp = all_found(f, priv, (("secp256k1_keypair_create",), ("secp256k1_keypair_xonly_pub",)))
            return (kp or all_found(f, priv, (("secp256k1_ec_pubkey_create",), ("secp256k1_xonly_pubkey_from_pubkey",)))) and \
                all_found(f, priv, (("secp256k1_xonly_pubkey_serialize",),))
        judge(rep, cfg, "nostr_hd_key_from_seed", [
            ("private", "the master private key is not the left half of HMAC-SHA512 of the whole seed under \"Bitcoin seed\"", lambda f: f.content(2, *PRIV) == sub32(I, 0)),
            ("chain", "the master chain code is not the right half of that HMAC", lambda f: f.content(2, *CHAIN) == sub32(I, 32)),
            ("public", "the master public key is not the one of the master private key", lambda f: f.content(2, *PUB) in xpub(sub32(I, 0))),
            ("ok", "a master key is handed out although a library step was not found successful", lambda f: steps(f, I, sub32(I, 0), False)),
            ("seed", "a seed of fewer than 16 or more than 64 bytes is accepted", lambda f: f.has("uge", ("arg", 1), ("c", 16)) and f.has("ule", ("arg", 1), ("c", 64)) or
             f.has("ult", ("add", ("arg", 1), ("c", (1 << 64) - 16)), ("c", 49))),
        ], models=LIB, interest=lambda p, a, b: lib(p, a, b) or ("arg", 1) in (a, b) or any(x[0] == "add" and ("arg", 1) in x for x in (a, b)))
        # BIP-32 child keys
        PP, PC = ("mem", ("arg", 0)) + tuple(PRIV), ("mem", ("arg", 0)) + tuple(CHAIN)
        IDX = ("htonl", ("arg", 1))
        SER = ("sub", ("ecser", ("ecpub", PP), ("c", 258)), 0, 33)
        HARD, SOFT = (("hmac", ("EVP_sha512",), PC, ("c", 32), ("cat",) + d + (IDX,), ("c", 37)) for d in ((("c", 0), PP), (SER,)))
        BIT = ("and", ("arg", 1), ("c", 1 << 31))
        def hardened(f):
            """True / False / None: what the path has found out about the index"""
            if f.nonzero(BIT) or f.has("uge", ("arg", 1), ("c", 1 << 31)) or f.has("ugt", ("arg", 1), ("c", (1 << 31) - 1)) or f.has("slt", ("arg", 1), ("c", 0)):
                return True
            if f.zero(BIT) or f.has("ult", ("arg", 1), ("c", 1 << 31)) or f.has("ule", ("arg", 1), ("c", (1 << 31) - 1)) or f.has("sge", ("arg", 1), ("c", 0)) or \
                    f.has("sgt", ("arg", 1), ("c", (1 << 32) - 1)):
                return False
            return None
        def soft_rest(f):
            """nothing was found out about the index here, while the hardened form is chosen on its top bit"""
            if hardened(f) is not None or f.any(lambda p, a, b: mentions(a, ("arg", 1)) and a[0] not in KEYLIB and a[0] != "hmac"):
                return False
            return any(which(g) == HARD and g.nonzero(BIT) for g in (gate.Facts(f.c, f.E, st) for st, i, v in f.c.good))
        def which(f):
            t = flat0(f.content(2, *CHAIN))
            return t[1] if t[0] == "sub" and t[2:] == (32, 32) and t[1] in (HARD, SOFT) else None
        def priv_ok(f):
            h = which(f)
            return h is not None and flat0(f.content(2, *PRIV)) == ("tweak", PP, sub32(h, 0))
        judge(rep, cfg, "nostr_hd_key_derive", [
            ("chain", "the child chain code is not the right half of HMAC-SHA512 under the parent chain code of (0, parent private key, index) or (parent public point, index)", lambda f: which(f) is not None),
            ("private", "the child private key is not the parent private key tweaked by the left half of that HMAC", priv_ok),
            ("public", "the child public key is not the one of the child private key", lambda f: f.content(2, *PUB) in xpub(f.content(2, *PRIV))),
            ("hardened", "the hardened form is used for an index not found hardened, or the other way round", lambda f: {HARD: True, SOFT: False, None: -1}[which(f)] == hardened(f) or
             which(f) == SOFT and soft_rest(f)),
            ("ok", "a child key is handed out although a library step was not found successful", lambda f: which(f) is not None and steps(f, which(f), f.content(2, *PRIV), True) and
             (which(f) != SOFT or all_found(f, PP, (("secp256k1_ec_pubkey_create",), ("secp256k1_ec_pubkey_serialize",))))),
        ], models=LIB, interest=lambda p, a, b: lib(p, a, b) or ("arg", 1) in (a, b) or BIT in (a, b))
        path(rep, cfg, P, SZ)
        # BIP-39 seed
        NF = lambda k: ("fresh", ("utf8proc_NFKD", ("mem", ("arg", k), 0, None)))
        FORMS = (NF, lambda k: ("mem", ("arg", k), 0, None))
        def seed(f):
            t = f.content(2, 0, 64)
            return t if t[0] == "pbkdf2" and t[5:] == (("c", 2048), ("EVP_sha512",), ("c", 64)) else None
        def password(f):
            t = seed(f)
            return t is not None and any(t[1] == n(0) and untrunc(t[2]) == ("strlen", n(0)) for n in FORMS)
        def salt(f):
            t = seed(f)
            if t is None:
                return False
            for n in FORMS:
                s, l = t[3], untrunc(t[4])
                if t[1] != n(0):
                    continue
                if s == ("s", "mnemonic") and l == ("c", 8) and f.eqc(("arg", 1), 0):
                    return True
                if s == ("fmt", ("s", "mnemonic%s"), ("s", "")) and l == ("c", 8) and f.eqc(("arg", 1), 0):
                    return True
                ok = s in [("seq", (0, 8, ("s", "mnemonic")), (8, None, x)) for x in (n(1), ("copy", n(1), ("strlen", n(1))))] or s == ("fmt", ("s", "mnemonic%s"), n(1))
                if ok and (set(l[1:]) == {("c", 8), ("strlen", n(1))} or l == ("strlen", s)):
                    return True
            return False
        judge(rep, cfg, "nostr_mnemonic_to_seed", [
            ("valid", "a seed is derived from a mnemonic that was not found valid", lambda f: any(f.zero(t) and t[1] == ("arg", 0) for t in f.heads("nostr_mnemonic_validate")) or
             any(x[1][:2] == ("ret", "nostr_mnemonic_validate") and x[0] == "eq" and x[2] == ("c", 0) for x in f.F)),
            ("pbkdf2", "the seed is not 64 bytes of PBKDF2-HMAC-SHA512 with 2048 rounds", lambda f: seed(f) is not None),
            ("password", "the PBKDF2 password is not the whole normalised mnemonic", password),
            ("salt", "the PBKDF2 salt is not \"mnemonic\" followed by the whole normalised passphrase", salt),
            ("ok", "a seed is handed out although PBKDF2 was not found successful", lambda f: any(f.eqc(t, 1) or f.nonzero(t) for t in f.heads("PKCS5_PBKDF2_HMAC"))),
        ], models=LIB, interest=lambda p, a, b: only("PKCS5_PBKDF2_HMAC", "nostr_mnemonic_validate")(p, a, b) or ("arg", 1) in (a, b))
        # BIP-39 checksum
        def checksum(f):
            for p, a, b in f.F:
                if p != "eq":
                    continue
                for x, y in ((a, b), (b, a)):
                    for n, s, m in ((16, 4, 15), (32, 0, 255)):
                        d = [t for t in subterms(x) if t[0] == "sub" and t[1][0] == "sha256" and t[1][2] == ("c", n) and t[2:] == (0, 1)]
                        if d and shifted(x, d[0], s, m) and not mentions(y, d[0]) and shifted(y, None, s, m):
                            return True
            return False
        judge(rep, cfg, "nostr_mnemonic_validate", [
            ("checksum", "a mnemonic validates although its checksum bits were not found equal to the leading bits of the SHA-256 of its 16 or 32 bytes of entropy", checksum),
        ], interest=lambda p, a, b: any(t[0] == "sha256" for x in (a, b) for t in subterms(x)))
        judge(rep, cfg, "nostr_mnemonic_generate", [
            ("entropy", "a mnemonic is handed out whose 16 (12 words) or 32 (24 words) bytes of randomness were not found available",
             lambda f: any(f.eqc(("arg", 0), w) and f.eqc(("nostr_random_bytes", ("c", n)), 1) for w, n in ((12, 16), (24, 32)))),
        ], interest=lambda p, a, b: only("nostr_random_bytes")(p, a, b) or ("arg", 0) in (a, b))
        # NIP-06
        out = lambda tag, rd: (rd, [(2, 0, SZ, tag)])
        chain = {
            "nostr_mnemonic_to_seed": (("n", "n", "-"), [(2, 0, 64, "seed39")]),
            "nostr_hd_key_from_seed": ((("bl", 1), "n", "-"), [(2, 0, SZ, "master")]),
            "nostr_hd_key_derive_path": ((("b", SZ), "s", "-"), [(2, 0, SZ, "derived")]),
            "nostr_hd_key_to_keypair": ((("b", SZ), "-"), [(1, 0, None, "pair")]),
        }
        S = ("seed39", ("arg", 0), ("arg", 1))
        MA = ("master", S, ("c", 64))
        DE = ("derived", MA, ("fmt", ("s", "m/44'/1237'/%u'/0/0"), ("arg", 2)))
        ACC = lambda t: t[0] == "derived" and t[1] == MA and t[2] == DE[2]
        judge(rep, cfg, "nostr_mnemonic_to_keypair", [
            ("nip06", "the key pair is not the one derived at m/44'/1237'/<account>'/0/0 from the seed of the caller's mnemonic and passphrase",
             lambda f: any(f.zero(t) and ACC(t[1]) for t in f.heads("nostr_hd_key_to_keypair"))),
            ("ok", "a key pair is handed out although a derivation step was not found successful",
             lambda f: all(any(f.zero(t) and t[1:] == a for t in f.heads(n)) for n, a in (("nostr_mnemonic_to_seed", S[1:]), ("nostr_hd_key_from_seed", MA[1:]), ("nostr_hd_key_derive_path", DE[1:])))),
        ], models=chain, interest=only(*chain))
        words(rep, cfg, P)
    rep.need("configurations with key derivation", done, 1)


def flat0(t):
    """a single zero byte is a zero byte, however it was written"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "cat":
        return ("cat",) + tuple(("c", 0) if x == ("zero",) else flat0(x) for x in t[1:])
    return tuple(flat0(x) for x in t)


def subterms(t):
    out = []
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            out.append(t)
        for x in t:
            out += subterms(x)
    return out


def shifted(t, d, s, m):
    """t is byte d (any byte when None) shifted right by s, and not cut below the mask m"""
    seen = s == 0
    while t != d:
        if t[0] in ("trunc", "zext", "sext"):
            t = t[2]
        elif t[0] in ("ashr", "lshr", "udiv", "sdiv"):
            k = t[2]
            if k not in (("c", s), ("c", 0)) and not (t[0].endswith("div") and k == ("c", 1 << s)):
                return False
            seen = seen or k != ("c", 0)
            t = t[1]
        elif t[0] == "and" and (t[1][0] == "c" or t[2][0] == "c"):
            k, t = (t[1], t[2]) if t[1][0] == "c" else (t[2], t[1])
            if k[1] & m != m and k[1] & (m << s) & 255 != (m << s) & 255:
                return False
        else:
            break
    return seen and (d is None or t == d)


def path(rep, cfg, P, SZ):
    """each component is derived from the key of the one before it; its index is the component's number, hardened exactly when marked"""
    fname = "nostr_hd_key_derive_path"
    M0 = ("mem", ("arg", 0), 0, SZ)

    begun = lambda F: any(x[0] == "eq" and x[1][0] == "der" and x[2] == ("c", 0) for x in F)
    calls = {i.id for b in P.fn[fname].blocks for i in b.insts if i.cname in ("strtok_r", "strtok")}
    toks = {i.id for b in P.fn[fname].blocks for i in b.insts if i.op == "phi" and any(getattr(o, "id", None) in calls for o in i.ops)} | calls
    tok = lambda t: t[0] == "ret" and t[2] in toks or t[0] == "v" and t[1] in toks

    # lineage: a key derived from a key of the line is of the line
    def der(C, E, st, i, a):
        par = C.content(E, st, i.ops[0], SZ)
        b, o = E.ptr(st, i.ops[2])
        # everything derived so far counts as the master for the next step
        out = ("tried", i.id) if par == LIN or par == M0 and not begun(st.ts.F) else ("?", i.id, 0, 2, SZ)
        E.clobber(st, i)
        if not isinstance(b, Const):
            C.wr(E, st, b, o, SZ if o is not None else None, out)
        return ("der", i.id)

    def found(C, E, st, t, pred, b):
        if pred == "eq" and b == ("c", 0):
            st.ts = st.ts.with_(C={k: (l, LIN if x == ("tried", t[1]) else x) for k, (l, x) in st.ts.C.items()})
    seen = set()

    def site(C, E, st, i, a):
        f = gate.Facts(C, E, st)
        n, why = component(f, C.vterm(E, st, i.ops[1]), C.fn)
        seen.add((i.line, n, why))

        return der(C, E, st, i, a)
    judge(rep, cfg, fname, [
        ("line", "the key handed out is neither the master key nor derived from it component by component, each found successful", lambda f: f.content(2, 0, SZ) == (LIN if begun(f.F) else M0)),
        ("master", "the path does not have to start with m", lambda f: f.eqc(("mem", ("arg", 1), 0, 1), ord("m"))),
        ("all", "the key handed out does not take every component of the path into account",
         lambda f: f.eqc(("mem", ("arg", 1), 1, 1), 0) or any(x[0] == "eq" and tok(x[1]) and x[2] == ("c", 0) for x in f.F)),
    ], models={"nostr_hd_key_derive": ((), der)}, promote={"der": found},
        interest=lambda p, a, b: any(t[0] == "der" or tok(t) or t in (("mem", ("arg", 1), 0, 1), ("mem", ("arg", 1), 1, 1)) for t in (a, b)))
    num = lambda t: any(x[0] in ("strtoul", "strtoull", "ld") for x in subterms(t)) or t[0] in ("mem", "?", "strlen")
    c = gate.run(P, fname, gate.succ_zero, {"nostr_hd_key_derive": ((), site)}, lambda p, a, b: num(a) or num(b), 6, 60000, (), None, 8)
    bad = sorted((l, w) for l, n, w in seen if w)
    for k in ("index", "whole", "bound", "marker", "digit"):
        x = [l for l, w in bad if w == k]
        rep.obl(not x, "%s:%s" % (fname, k), "%s:%s in %s" % (getattr(c.fn, "file", ""), x[0] if x else "?", fname) if x else cfg,
                WHY[k] + " [%s configuration]" % cfg if x else None)
    rep.need("derivation steps of a path in %s" % cfg, len(seen), 1)


WHY = {"index": "a path component is derived with an index that is not the number it spells, in decimal",
       "whole": "a path component is accepted although it was not found to be a number up to its end (or its marker)",
       "bound": "a path component is accepted although it was not found below 2^31",
       "marker": "a path component is derived hardened without its marker, or not hardened with it",
       "digit": "a path component is accepted although it was not found to begin with a digit"}


def component(f, t, fn):
    """(number term, what is wrong or None)"""
    hard = False
    u = t
    while u[0] in ("trunc", "zext", "or", "add", "xor", "and"):
        if u[0] in ("trunc", "zext"):
            u = u[2]
            continue
        c = [x for x in u[1:] if x[0] == "c"]
        r = [x for x in u[1:] if x[0] != "c"]
        if len(c) != 1 or len(r) != 1 or u[0] == "and":
            return t, "index"
        if c[0][1] & 0xffffffff == 1 << 31:
            hard = not hard
        elif c[0][1]:
            return t, "index"
        u = r[0]
    if u[0] not in ("strtoul", "strtoull") or u[2] != ("c", 10):
        return t, "index"
    lim = lambda p, a, b: a == u and b[0] == "c" and (p == "ult" and b[1] <= 1 << 31 or p == "ule" and b[1] < 1 << 31)
    if not f.any(lim):
        return t, "bound"
    calls = {i.id for b in fn.blocks for i in b.insts if i.cname in ("strtoul", "strtoull")}
    endp = lambda p, a, b: p == "eq" and b == ("c", 0) and any(x[0] == "?" and x[1] in calls for x in subterms(a))
    if not f.any(endp):
        return t, "whole"
    last = {}
    for p, a, b in f.F:
        if a[0] == "ld" and b[0] == "c" and b[1] in (39, 104) and p in ("eq", "ne") and any(x[0] == "strlen" for x in subterms(a)):
            last.setdefault(p, set()).add(b[1])
    empty = f.any(lambda p, a, b: a[0] == "strlen" and (p in ("ule", "eq") and b == ("c", 0) or p == "ult" and b == ("c", 1)))
    if hard and not last.get("eq") or not hard and last.get("ne", set()) != {39, 104} and not empty:
        return t, "marker"
    s = u[1]
    first = [x for x in f.F if any(y[0] == s[0] and y[1:3] == s[1:3] and y[-1] == 1 for z in x[1:] for y in subterms(z))] or \
        [x for x in f.F if any("isdigit" in str(y) or "ctype" in str(y) for y in x[1:])]
    if not first:
        return t, "digit"
    return t, None


def words(rep, cfg, P):
    """the compiled word table is the published one"""
    for g in P.m.globals.values() if isinstance(P.m.globals, dict) else P.m.globals:
        refs = g.init_refs or []
        if len(refs) != 2048:
            continue
        ws = []
        for r in refs:
            r = r[1] if isinstance(r, tuple) else r
            ws.append((r.init_str or b"").split(b"\0")[0])
        h = hashlib.sha256(b"\n".join(ws) + b"\n").hexdigest()
        odd = [k for k in range(1, 2048) if ws[k] <= ws[k - 1]]
        rep.obl(h == WORDS, "wordlist:%s" % g.name, cfg if h == WORDS else "%s (word %s)" % (g.name, odd[0] if odd else "?"),
                None if h == WORDS else "the compiled word table is not the published BIP-39 English list [%s configuration]" % cfg)
        rep.count("words", len(ws))

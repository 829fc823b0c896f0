"""Key pairs: what the key operations leave in the caller's key pair, and what they hand out."""
import esp, gate, prog, layout
from ir import Const
from spec import *

TECHNIQUE = "path-sensitive gate dataflow over LLVM IR with symbolic buffer provenance of key material"
STEPS = ("secp256k1_ec_seckey_verify", "secp256k1_ec_pubkey_create", "secp256k1_xonly_pubkey_from_pubkey", "secp256k1_xonly_pubkey_serialize",
         "nostr_random_bytes", "nostr_key_generate", "nostr_privkey_from_hex", "nostr_keypair_from_private_key", "nostr_constant_time_memcmp",
         "secp256k1_ec_pubkey_parse", "secp256k1_ecdh", "nostr_privkey_to_hex", "nostr_key_to_hex")


def about(flag):
    steps = only(*STEPS)
    return lambda p, a, b: steps(p, a, b) or flag in (a, b)


def bounded(*outs):
    """the call writes exactly the given ranges of its pointer arguments"""
    def mdl(C, E, st, i, a):
        t = ("ret", i.cname, i.id) + tuple(C.vterm(E, st, o) for o in i.ops)
        E.clobber(st, i)
        for k, n in outs:
            b, o = E.ptr(st, i.ops[k])
            n = E.ev(st, i.ops[n[0]]) if isinstance(n, tuple) else n
            if not isinstance(b, Const):
                C.wr(E, st, b, o, n if o is not None else None, ("?", i.id, 0, k) + ((n,) if n else ()))
        return t
    return ((), mdl)


def xonly(priv):
    return ("xser", ("xfp", ("ecpub", priv)))


def sane(f, priv):
    """the four library steps from a private key to its x-only public key were all found successful"""
    ok = lambda n: any(f.nonzero(t) and mentions(t, priv) for t in f.heads(n))
    return all(ok(n) for n in STEPS[:4])


def mentions(t, x):
    return t == x or (isinstance(t, tuple) and any(mentions(y, x) for y in t))


def calls(f, name):
    """calls of name whose result is known to be 0 on this path, as argument terms"""
    out = []
    for x in f.st.ts.F:
        if x[0] == "eq" and x[2] == ("c", 0):
            t = x[1]
            if isinstance(t, tuple) and len(t) > 2 and t[0] == "ret" and t[1] == name:
                out.append(tuple(y for y in t[2:] if isinstance(y, tuple)))
    return out


def done(f, name):
    return [x[1][2] for x in f.st.ts.F if x[0] == "eq" and x[2] == ("c", 0) and x[1][:2] == ("ret", name)]


def check(rep, tier):
    rep.expl = ("Every success path of key generation, key-pair import, key-pair validation, HD conversion and key agreement was explored with symbolic buffer provenance: what lies in the "
                "caller's key pair must be the generated (or given) private key and the x-only public key derived from that same private key, with each library step found successful. Every failing "
                "path is explored too: it must leave the key pair marked unusable, or untouched. The accessors hand out the right half, and only of a key pair marked usable.")
    rep.assume = ["libsecp256k1 validates, derives and multiplies keys correctly"]
    for cfg in CONFIGS:
        P = prog.prog(cfg)
        L = layout.layout(cfg)
        PRIV, PUB, INIT = (L.f("nostr_keypair", x) for x in ("privkey", "pubkey", "initialized"))
        K = lambda o: ("mem", ("arg", 0)) + tuple(o)
        inter = about(K(INIT))
        # the helpers write no more than the halves they are handed (their bounds are P18's)
        ext = {"secure_wipe": bounded((0, (1,))), "nostr_key_generate": bounded((0, PRIV[1]), (1, PUB[1])), "nostr_privkey_from_hex": bounded((1, PRIV[1]))}
        # generation
        RND = ("rnd", ("c", 32))
        judge(rep, cfg, "nostr_key_generate", [
            ("private", "the private key handed out is not 32 bytes from the random generator", lambda f: f.content(0, 0, 32) == RND),
            ("random-ok", "a key is handed out although the randomness was not found available", lambda f: f.eqc(("nostr_random_bytes", ("c", 32)), 1)),
            ("public", "the public key handed out is not derived from the private key handed out", lambda f: f.content(1, 0, 32) == xonly(f.content(0, 0, 32))),
            ("valid", "a key is handed out although a step of its validation or derivation was not found successful", lambda f: sane(f, f.content(0, 0, 32))),
        ], interest=inter)
        # import
        G = ("mem", ("arg", 1), 0, PRIV[1])
        judge(rep, cfg, "nostr_keypair_from_private_key", [
            ("private", "the key pair does not hold the private key it was given", lambda f: f.content(0, *PRIV) == G),
            ("public", "the key pair's public key is not derived from the private key it was given", lambda f: f.content(0, *PUB) == xonly(G)),
            ("valid", "the import succeeds although a step of the validation or derivation was not found successful", lambda f: sane(f, G)),
            ("usable", "the import succeeds and leaves the key pair marked unusable", lambda f: f.content(0, *INIT) == ("c", 1)),
        ], interest=inter)
        judge(rep, cfg, "nostr_keypair_generate", [
            ("generated", "generation succeeds although the key pair does not hold the two halves of a key found generated",
             lambda f: any(f.content(0, *PRIV) == ("?", n, 0, 0, PRIV[1]) and f.content(0, *PUB) == ("?", n, 0, 1, PUB[1]) for n in done(f, "nostr_key_generate"))),
            ("usable", "generation succeeds and leaves the key pair marked unusable", lambda f: f.content(0, *INIT) == ("c", 1)),
        ], models=ext, interest=inter)
        judge(rep, cfg, "nostr_keypair_from_private_hex", [
            ("decoded", "the import succeeds although the hex was not found decoded",
             lambda f: any(a[-2:] and a[-2] == ("arg", 1) for a in calls(f, "nostr_privkey_from_hex"))),
            ("imported", "the import succeeds although the decoded key was not found imported into the caller's key pair",
             lambda f: any(a[-2] == at(0, 0) and any(a[-1] == b[-1] for b in calls(f, "nostr_privkey_from_hex")) for a in calls(f, "nostr_keypair_from_private_key"))),
        ], interest=inter)
        # failing calls
        n = 0
        for fname, opaque in (("nostr_keypair_from_private_key", False), ("nostr_keypair_generate", False), ("nostr_keypair_from_private_hex", True)):
            n += failing(rep, cfg, P, fname, PRIV, PUB, INIT, inter, opaque, ext)
        rep.need("failing returns of the key-pair operations in %s" % cfg, n, 3)
        for fname in ("nostr_keypair_init", "nostr_keypair_destroy"):
            judge(rep, cfg, fname, [("unusable", "%s leaves the key pair marked usable" % fname, lambda f: f.content(0, *INIT) in (("c", 0), ("zero",)) or f.eqc(("arg", 0), 0))],
                  succ=gate.succ_zero if fname.endswith("init") else lambda E, st, v: [st], interest=lambda p, a, b: ("arg", 0) in (a, b))
        # validation and accessors
        PK = K(PRIV)
        judge(rep, cfg, "nostr_keypair_validate", [
            ("usable", "a key pair that is not marked usable validates", lambda f: f.nonzero(K(INIT))),
            ("matches", "a key pair validates although its public key was not found equal to the one derived from its private key",
             lambda f: any(f.zero(t) and {K(PUB), xonly(PK)} <= set(t[1:3]) | set(t[2:4]) for t in f.heads("nostr_constant_time_memcmp"))),
            ("whole", "a key pair validates after comparing only part of the public key",
             lambda f: any(f.zero(t) and t[-1] == ("c", PUB[1]) for t in f.heads("nostr_constant_time_memcmp"))),
            ("valid", "a key pair validates although a step of the validation or derivation was not found successful", lambda f: sane(f, PK)),
        ], interest=inter)
        for fname, half in (("nostr_keypair_public_key", PUB), ("nostr_keypair_private_key", PRIV)):
            judge(rep, cfg, fname, [
                ("usable", "a half of a key pair that is not marked usable is handed out", lambda f: f.val == ("c", 0) or f.nonzero(K(INIT))),
                ("half", "the wrong part of the key pair is handed out", lambda f, half=half: f.val in (("c", 0), at(0, half[0]))),
            ], succ=lambda E, st, v: [st], interest=inter)
        for fname, half, conv in (("nostr_keypair_export_public_hex", PUB, "nostr_key_to_hex"), ("nostr_keypair_export_private_hex", PRIV, "nostr_privkey_to_hex")):
            judge(rep, cfg, fname, [
                ("usable", "a half of a key pair that is not marked usable is exported", lambda f: f.nonzero(K(INIT))),
                ("half", "the wrong part of the key pair is exported, or not to the caller's buffer",
                 lambda f, half=half, conv=conv: any(a[-3:] == (at(0, half[0]), ("arg", 1), ("arg", 2)) for a in calls(f, conv)) or
                 any(f.zero(t) and t[1] == K(half) for t in f.heads(conv)) and f.content(1, 0, None)[:2] == ("hex", K(half))),
            ], interest=inter)
        # key agreement
        X = ("cat", ("c", 2), ("mem", ("arg", 1), 0, 32))
        judge(rep, cfg, "nostr_key_ecdh", [
            ("secret", "the shared secret is not the key agreement of the caller's private key and the peer's public key with even y",
             lambda f: f.content(2, 0, 32) == ("ecdh", ("ecpp", X, ("c", 33)), ("mem", ("arg", 0), 0, 32), ("c", 0))),
            ("ok", "the key agreement succeeds although a step of it was not found successful",
             lambda f: all(any(f.nonzero(t) for t in f.heads(n)) for n in ("secp256k1_ec_pubkey_parse", "secp256k1_ecdh"))),
        ], interest=inter)
        if "nostr_hd_key_to_keypair" in P.fn:
            HP, HU = L.f("nostr_hd_key", "privkey"), L.f("nostr_hd_key", "pubkey")
            judge(rep, cfg, "nostr_hd_key_to_keypair", [
                ("private", "the key pair does not hold the private key of the derived key", lambda f: f.content(1, *PRIV) == K(HP)),
                ("public", "the key pair does not hold the public key of the derived key", lambda f: f.content(1, *PUB) == K(HU)),
                ("usable", "the key pair is left marked unusable", lambda f: f.content(1, *INIT) == ("c", 1)),
            ], interest=inter)


def at(k, off):
    return ("arg", k) if not off else ("gep", ("arg", k), off)


def failing(rep, cfg, P, fname, PRIV, PUB, INIT, inter, opaque, ext):
    n = 0
    c = gate.run(P, fname, lambda E, st, v: [st], models=ext, interest=inter)
    bad = None
    for st, i, v in c.good:
        for s2 in c.E.acmp(st, "ne", v, gate.mk(0, 32)):
            f = gate.Facts(c, c.E, s2)
            n += 1
            init = f.content(0, *INIT)
            same = f.content(0, *PRIV) == ("mem", ("arg", 0)) + tuple(PRIV) and f.content(0, *PUB) == ("mem", ("arg", 0)) + tuple(PUB)
            if init == ("c", 0) or same and init == ("mem", ("arg", 0)) + tuple(INIT):
                continue
            # the outcome is the checked import's
            if opaque and init[0] == "?" and v is not None:
                t = c.vterm(c.E, s2, v)
                if t[:2] == ("ret", "nostr_keypair_from_private_key"):
                    continue
            bad = bad or (s2, i)
        if bad:
            break
    rep.obl(not bad, "%s:failed" % fname, loc(c.fn, bad[1]) if bad else cfg,
            "a failing %s leaves the key pair marked usable although its keys were replaced [%s configuration]" % (fname, cfg) if bad else None,
            c.E.trail_lines(bad[0]) if bad else None)
    return n

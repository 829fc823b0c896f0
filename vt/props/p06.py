"""Bech32 entities and nostr: URIs."""
import gate, prog, layout, mustwrite
from spec import *

TECHNIQUE = "path-sensitive must-pass gate dataflow over LLVM IR; definite-assignment typestate on decoded fields"

URI = [("npub1", "NOSTR_URI_NPUB", "nostr_key_from_bech32"), ("nsec1", "NOSTR_URI_NSEC", "nostr_privkey_from_bech32"),
       ("note1", "NOSTR_URI_NOTE", "nostr_event_id_from_bech32"), ("nprofile1", "NOSTR_URI_NPROFILE", "nostr_nprofile_decode"),
       ("nevent1", "NOSTR_URI_NEVENT", "nostr_nevent_decode"), ("naddr1", "NOSTR_URI_NADDR", "nostr_naddr_decode"),
       ("nrelay1", "NOSTR_URI_NRELAY", "nostr_nrelay_decode")]


def check(rep, tier):
    rep.expl = ("All success paths of every Bech32 decoder (npub, nsec, note, nprofile, nevent, naddr, nrelay, ncryptsec), of the checksum verifier, of URI parsing and of "
                "the encoders were explored. A decoder may only succeed with bytes regrouped, without padding, from exactly the data part whose checksum was "
                "found correct under the expected human-readable part, of the required length, with every mandatory field written from the input.")
    rep.assume = ["the polymod and bit-regrouping arithmetic is not decided"]
    anyhrp = lambda h: True
    for cfg in CONFIGS:
        L = layout.layout(cfg)
        P = prog.prog(cfg)
        judge(rep, cfg, "bech32_verify_checksum", [
            ("residue", "a checksum is accepted without the polymod over prefix expansion and data having been found equal to 1",
             lambda f: any(f.eqc(t, 1) and ("arg", 2) in t[2] for t in f.heads("bech32_polymod")))], succ=gate.succ_nonzero)
        for fn, hrp in (("nostr_key_from_bech32", None), ("nostr_privkey_from_bech32", "nsec"), ("nostr_event_id_from_bech32", "note")):
            hp = anyhrp if hrp is None else (lambda h, s=hrp: h == ("s", s))
            conds = [
                ("checksum", "decoding succeeds with bytes that were not regrouped from a data part whose checksum was found correct under the expected prefix",
                 lambda f, hp=hp: good_bits(f.content(1, 0, 32), hp)),
                ("length", "decoding succeeds although the data part was not found to hold exactly 32 bytes",
                 lambda f, hp=hp: any(f.eqc(t, 32) and good_bits(t, hp) for t in f.heads("bech32_convert_bits")))]
            if hrp:
                conds.append(("prefix", "decoding succeeds without the %s1 prefix" % hrp,
                              lambda f, s=hrp + "1": any(f.zero(t) and t[1] == ("mem", ("arg", 0), 0, None) and t[2] == ("s", s) and t[3] == ("c", len(s)) for t in f.heads("strncmp"))))
            judge(rep, cfg, fn, conds, models=BECH_MODELS, promote=BECH_PROMOTE)
        for fn, hrp, rec, flds, special in (
                ("nostr_nprofile_decode", "nprofile", "nostr_nprofile", {"pubkey": None}, True),
                ("nostr_nevent_decode", "nevent", "nostr_nevent", {"id": None}, True),
                ("nostr_naddr_decode", "naddr", "nostr_naddr", {"pubkey": None, "kind": None}, False),
                ("nostr_nrelay_decode", "nrelay", "nostr_nrelay", {"url": None}, False)):
            hp = lambda h, s=hrp: h == ("s", s)
            conds = [("checksum", "decoding succeeds although no byte string was regrouped from a data part whose checksum was found correct under the expected prefix",
                      lambda f, hp=hp: any(good_bits(t, hp) and any(p in ("sgt",) and b == ("c", 0) or p == "sge" and b[0] == "c" and b[1] > 0 for p, b in f.sub[t]) for t in f.heads("bech32_convert_bits"))),
                     ("prefix", "decoding succeeds without the %s prefix" % hrp,
                      lambda f, s=hrp: any(f.zero(t) and t[1] == ("mem", ("arg", 0), 0, None) and t[2] in (("s", s), ("s", s + "1")) for t in f.heads("strncmp")))]
            if special:
                conds.append(("length", "decoding succeeds although the 32-byte entry was not found to be 32 bytes long",
                              lambda f: f.any(lambda p, a, b: p == "eq" and b == ("c", 32) and a[0] != "bech32_convert_bits")))
            else:
                conds.append(("bound", "decoding succeeds although the variable-length entry was not found shorter than its buffer",
                              lambda f, mx={"naddr": L.off[("nostr_naddr", "identifier")][1], "nrelay": L.off[("nostr_nrelay", "url")][1]}[hrp]:
                              f.any(lambda p, a, b: p in ("ult", "ule") and b[0] == "c" and b[1] <= mx - (p == "ule"))))
            judge(rep, cfg, fn, conds, models=BECH_MODELS, promote=BECH_PROMOTE)
            fs = {k: (1,) + tuple(L.off[(rec, k)][:2]) for k in flds}
            c = mustwrite.run(P, fn, fs, gate.succ_zero)
            for k in fs:
                bad = [x for x in c.good if k not in x[0].ts]
                rep.obl(not bad, "%s:writes-%s" % (fn, k), cfg if not bad else loc(c.fn, bad[0][1]), "decoding succeeds although the input carried no value for %s" % k,
                        c.E.trail_lines(bad[0][0]) if bad else None)
        # every character handed on was in the alphabet: see P14 (sentinel results checked)
        o = L.off[("nostr_uri", "data")][0]
        to = L.off[("nostr_uri", "type")][:2]
        def uri(f):
            for pre, ty, fn in URI:
                ok = [t for t in f.heads("ret", fn) if (t[1] == fn or t[0] == fn) and t[-2:] == (("gep", ("arg", 0), 6), ("gep", ("arg", 1), o)) and f.zero(t)]
                if not ok:
                    continue
                px = any(f.zero(t) and t[1] == ("mem", ("arg", 0), 6, None) and t[2] == ("s", pre) and t[3] == ("c", len(pre)) for t in f.heads("strncmp"))
                return px and f.content(1, *to) in (("c", L.enums[ty]),) or px and L.enums[ty] == 0 and f.content(1, *to) == ("zero",)
            return False
        c = judge(rep, cfg, "nostr_uri_parse", [
            ("dispatch", "a URI is accepted whose recorded type, entity prefix and decoder disagree", uri),
            ("scheme", "a URI is accepted without the nostr: scheme", lambda f: any(f.zero(t) and t[1] == ("mem", ("arg", 0), 0, None) and t[2] == ("s", "nostr:") and t[3] == ("c", 6) for t in f.heads("strncmp")))])
        rep.need("URI success paths", len(c.good), 7)
        # encoding
        for fn, hrp in (("nostr_privkey_to_bech32", "nsec"), ("nostr_event_id_to_bech32", "note"), ("nostr_key_to_bech32", None)):
            def enc(f, hrp=hrp):
                for t in f.heads("bech32_create_checksum"):
                    b = t[2]
                    if f.nonzero(t) and (hrp is None and t[1] == ("mem", ("arg", 1), 0, None) or t[1] == ("s", hrp or "")) and b[0] == "bits" and b[1] == ("mem", ("arg", 0), 0, 32) and \
                       b[2] == ("c", 32) and b[-3:] == (("c", 8), ("c", 5), ("c", 1)) and t[3][0] == "bech32_convert_bits":
                        return True
                return False
            judge(rep, cfg, fn, [("checksum", "encoding succeeds without a checksum over the regrouped 32 bytes under the right prefix having been computed", enc)])
        def uenc(f):
            for pre, ty, _ in URI:
                fn = {"npub1": "nostr_key_to_bech32", "nsec1": "nostr_privkey_to_bech32", "note1": "nostr_event_id_to_bech32"}.get(pre, "nostr_%s_encode" % pre[:-1])
                T = fld(L, "nostr_uri", "type")
                if f.eqc(T, L.enums[ty]):
                    for t in f.heads("ret"):
                        if t[1] == fn and f.zero(t):
                            a = t[3:]
                            return a[0] == ("gep", ("arg", 0), o) and ("gep", ("arg", 1), 6) in a and (pre != "npub1" or a[1] == ("s", "npub"))
            return False
        judge(rep, cfg, "nostr_uri_encode", [
            ("dispatch", "a URI is produced by an encoder that does not match the entity type", uenc),
            ("scheme", "a URI is produced without the nostr: scheme", lambda f: unsub(f.content(1, 0, 6)) == ("s", "nostr:"))])

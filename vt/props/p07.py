"""Authorisation gates: zap receipts, NIP-05 names, deletion requests."""
import gate, prog, layout
from spec import *

TECHNIQUE = "path-sensitive must-pass gate dataflow over LLVM IR with symbolic buffer provenance"


def rets(f, fn):
    return [(t, t[3:]) for t in f.heads("ret") if t[1] == fn] + [(t, t[1:]) for t in f.heads(fn)]


def check(rep, tier):
    rep.expl = ("All success paths of zap receipt verification, NIP-05 verification and the two deletion-authorisation predicates were explored. Zap: receipt and request "
                "kinds, all 64 hex characters of the receipt author equal the configured server key, embedded request id equals the request id, amounts agree, the receipt itself "
                "verifies. NIP-05: the response parsed for the identifier's own name and its key equals all 64 characters of the (lower-cased) expected key. Deletion: request "
                "author equals target author and a listed id / address equals the target's.")
    for cfg in CONFIGS:
        L = layout.layout(cfg)
        rk, qk = fld(L, "nostr_event", "kind"), fld(L, "nostr_event", "kind", 1)
        SRV = ("mem", ("arg", 2), 0, 64)
        def server(f):
            hx = lambda t: unsub(t)[0] == "hex" and unsub(t)[1] == fld(L, "nostr_event", "pubkey")
            for t in f.heads(*gate.CMP0):
                if f.zero(t) and t[3] == ("c", 64) and (hx(t[1]) and t[2] == SRV or hx(t[2]) and t[1] == SRV):
                    return True
            return any(f.zero(t) and {True} == {hx(t[1]) or hx(t[2])} and ("mem", ("arg", 2), 0, None) in t[1:3] for t in f.heads("strcmp"))
        def emb(f):
            ok = [a for t, a in rets(f, "nostr_zap_parse_receipt") if f.zero(t) and a[0] == ("arg", 0)]
            for t in f.heads(*gate.CMP0):
                if f.zero(t) and t[3] == ("c", 32):
                    s = {t[1], t[2]}
                    R = fld(L, "nostr_event", "id", 1)
                    o = [x for x in (t[1], t[2]) if x != R]
                    if R in s and len(o) == 1 and o[0][0] == "mem" and o[0][2:4] == (0, 32) and o[0][1][0] == "?":
                        return bool(ok)
            return False
        def amount(f):
            # an amount tag value was read, so it is zero, or the receipt's is zero, or they were found equal
            q = [t for t in f.heads("strtoull", "strtoul", "strtoll")]
            live = [t for t in q if not f.zero(t)]
            if not live and not q:
                return True
            for t in q:
                if f.zero(t) or f.any(lambda p, a, b: p == "ule" and a == t and b == ("c", 0)):
                    return True
                if f.any(lambda p, a, b: p == "eq" and (a == t or b == t) and a[0] != "c" and b[0] != "c"):
                    return True
            # receipt amount unknown
            return f.any(lambda p, a, b: a[0] == "?" and b == ("c", 0) and p in ("eq", "ule") and a[-1] == 8)
        judge(rep, cfg, "nostr_zap_verify", [
            ("kinds", "a zap is accepted without receipt kind 9735 and request kind 9734", lambda f: f.eqc(rk, 9735) and f.eqc(qk, 9734)),
            ("server", "a zap is accepted without all 64 characters of the receipt author having been found equal to the server key", server),
            ("server-len", "a zap is accepted without the configured server key having been found 64 characters long", lambda f: f.eqc(("strlen", ("mem", ("arg", 2), 0, None)), 64)),
            ("embedded", "a zap is accepted without the embedded request's id having been found equal to the request's id", emb),
            ("amount", "a zap is accepted although the receipt's and the request's amounts are both known and were not found equal", amount),
            ("verified", "a zap is accepted without the receipt event having verified", lambda f: any(f.zero(t) and a == (("arg", 0),) for t, a in rets(f, "nostr_event_verify"))),
        ])
        def n5(f):
            for t, a in rets(f, "nostr_nip05_parse_response"):
                if not f.zero(t):
                    continue
                name, out = a[1], a[2]
                ids = [x for x, b in rets(f, "nostr_nip05_parse") if f.zero(x) and b[0] == ("arg", 0) and b[1] == name]
                bu = [x for x, b in rets(f, "nostr_nip05_build_url") if f.zero(x) and b[0] == name]
                if not ids or not bu:
                    continue
                for c in f.heads(*gate.CMP0):
                    if f.zero(c) and c[3] == ("c", 64):
                        x, y = c[1], c[2]
                        isout = lambda z: z[0] == "?" and z[1] == t[2] and z[3] == 2
                        isexp = lambda z: "('mem', ('arg', 1)" in repr(z) or "'copy'" in repr(z) or z[0] in ("?", "cat", "mix")
                        if isout(x) and isexp(y) or isout(y) and isexp(x):
                            return True
                for c in f.heads("strcmp", "strcasecmp"):
                    if f.zero(c) and any(z[0] == "?" and z[1] == t[2] for z in c[1:3]):
                        return True
            return False
        judge(rep, cfg, "nostr_nip05_verify", [
            ("match", "an identifier is accepted without the key listed for its own name having been found equal, over all 64 characters, to the expected key", n5),
            ("explen", "an identifier is accepted without the expected key having been found 64 characters long", lambda f: f.eqc(("strlen", ("mem", ("arg", 1), 0, None)), 64)),
            ("size", "an identifier is accepted from a response whose size was not bounded", lambda f: f.any(lambda p, a, b: p in ("ule", "ult") and a[0] == "?" and a[-1] == 8 and b[0] == "c")),
        ], models={"nostr_nip05_parse_response": narrow(3)})
        auth = ("strcmp", fld(L, "nostr_deletion_request_t", "pubkey", size=1)[:3] + (None,), ("hex", fld(L, "nostr_event", "pubkey", 1), ("c", 32)))
        HID = ("hex", fld(L, "nostr_event", "id", 1), ("c", 32))
        def eqs(f, x, y):
            return any(f.zero(t) and {t[1], t[2]} == {x, y} for t in f.heads("strcmp", "strcasecmp")) or \
                any(f.zero(t) and {t[1], t[2]} == {x, y} and t[3][0] == "c" and t[3][1] >= 64 for t in f.heads("strncmp"))
        def listed(f, arr, other):
            A = fld(L, "nostr_deletion_request_t", arr)
            for t in f.heads("strcmp", "strcasecmp"):
                if f.zero(t):
                    for x, y in ((t[1], t[2]), (t[2], t[1])):
                        if other(y) and repr(A) in repr(x):
                            return True
            return False
        def addr(y):
            return y[0] == "fmt" and y[1][1] == "%d:%s:%s" and y[2] == fld(L, "nostr_event", "kind", 1) and y[3] == ("hex", fld(L, "nostr_event", "pubkey", 1), ("c", 32)) and \
                ("nostr_event_get_d_tag" in repr(y[4]) or y[4] in (("s", ""), ("mem", ("s", ""), 0, None)))
        same = ("author", "a deletion is authorised without the request's author having been found equal to the target's author", lambda f: eqs(f, auth[1], auth[2]))
        judge(rep, cfg, "nostr_deletion_authorized", [
            same, ("listed", "a deletion is authorised without a listed id having been found equal to the target's id", lambda f: listed(f, "event_ids", lambda y: y == HID))], succ=gate.succ_nonzero)
        judge(rep, cfg, "nostr_deletion_authorized_address", [
            same, ("listed", "a deletion is authorised without a listed address having been found equal to the target's kind:author:d address", lambda f: listed(f, "addresses", addr)),
            ("addressable", "a deletion by address is authorised for a kind that was not found addressable", lambda f: any(f.nonzero(t) and t[1] == fld(L, "nostr_event", "kind", 1) for t in f.heads("nostr_kind_is_addressable")))],
            succ=gate.succ_nonzero)

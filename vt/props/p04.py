"""NIP-26 delegation."""
import gate, prog, layout
from spec import *

TECHNIQUE = "path-sensitive must-pass gate dataflow over LLVM IR with symbolic buffer provenance; typestate on the condition parser"


def check(rep, tier):
    rep.expl = ("All success paths of delegation verification, condition checking, delegation extraction and the event-level check were explored. Success "
                "requires the token's Schnorr signature over sha256(nostr:delegation:<delegatee hex>:<conditions>) to verify under the delegator key, the kind to be listed "
                "when kinds are listed, created_at strictly inside each stated bound, and the event-level check to chain all three on the same delegation and "
                "the event's own author, kind and time.")
    rep.assume = ["libsecp256k1 verifies BIP-340 correctly", "the numeric value of each parsed bound is strtol's"]
    for cfg in CONFIGS:
        L = layout.layout(cfg)
        D = lambda f, **k: fld(L, "nostr_delegation", f, **k)
        off = lambda f: L.off[("nostr_delegation", f)][:2]
        pub, tok, cond = D("delegator_pubkey"), D("token"), D("conditions")
        STR = ("fmt", ("s", "nostr:delegation:%s:%s"), ("hex", ("mem", ("arg", 1), 0, 32), ("c", 32)), ("mem", cond, 0, None))
        H = ("sha256", STR, ("strlen", STR))
        def sig(f):
            return any(f.nonzero(t) and t[1] == tok and t[2][:3] == H and t[3] == ("c", 32) and t[4] == ("xonly", pub) for t in f.heads("secp256k1_schnorrsig_verify"))
        judge(rep, cfg, "nostr_delegation_verify", [
            ("key-parsed", "verification succeeds without the delegator key having parsed", lambda f: f.nonzero(("secp256k1_xonly_pubkey_parse", pub))),
            ("sig-verified", "verification succeeds without the token having verified as the delegator's signature over the delegation string of this delegatee and these conditions", sig)])
        pc = "parsed_conditions."
        kc, ks = D(pc + "kind_count"), D(pc + "kinds")
        ha, hb = D(pc + "has_created_after"), D(pc + "has_created_before")
        af, bf = D(pc + "created_after"), D(pc + "created_before")
        def kind(f):
            return f.zero(kc) or f.any(lambda p, a, b: p == "eq" and b == ("arg", 1) and a[0] in ("mem", "ld", "at") and repr(ks) in repr(a))
        judge(rep, cfg, "nostr_delegation_check_conditions", [
            ("kind", "conditions are reported satisfied although kinds are listed and the event's kind was not found equal to one of them", kind),
            ("after", "conditions are reported satisfied although a lower time bound is stated and created_at was not found strictly after it",
             lambda f: f.zero(ha) or f.has("sgt", ("arg", 2), af)),
            ("before", "conditions are reported satisfied although an upper time bound is stated and created_at was not found strictly before it",
             lambda f: f.zero(hb) or f.has("slt", ("arg", 2), bf))])
        judge(rep, cfg, "nostr_delegation_check_conditions", [
            ("no-overreject", "a delegation is rejected without a missing argument or any stated condition having failed",
             lambda f: f.zero(("arg", 0)) or f.nonzero(kc) or f.has("sle", ("arg", 2), af) and f.nonzero(ha) or f.has("sge", ("arg", 2), bf) and f.nonzero(hb))],
            succ=gate.succ_nonzero)
        def chain(f):
            vs = [t for t in f.heads("ret") if t[1] == "nostr_delegation_verify" and f.zero(t)] + [t for t in f.heads("nostr_delegation_verify") if f.zero(t)]
            PKP = ("gep", ("arg", 0), L.off[("nostr_event", "pubkey")][0])
            for v in vs:
                dl, pk = v[-2:]
                if pk != PKP:
                    continue
                g = any(f.zero(t) and t[1] == "nostr_event_get_delegation" and t[-2:] == (("arg", 0), dl) for t in f.heads("ret"))
                kt = fld(L, "nostr_event", "kind")
                c = any(f.zero(t) and t[1] == dl and t[2] == kt and t[3] == fld(L, "nostr_event", "created_at")
                        for t in f.heads("nostr_delegation_check_conditions"))
                if g and c:
                    return True
            return False
        judge(rep, cfg, "nostr_event_verify_delegation", [
            ("chain", "a delegated event is accepted without its own delegation having been extracted, verified against the event's author and checked against its kind and time", chain)])
        # extraction: both hex fields decoded completely
        def hexes(f):
            n = {t[2][1] for t in f.heads("nostr_hex_decode") if t[2][0] == "c" and f.eqc(t, t[2][1])}
            return {32, 64} <= n
        judge(rep, cfg, "nostr_event_get_delegation", [
            ("hex", "a delegation is extracted without both the delegator key and the token having decoded completely", hexes),
            ("exact", "a delegation is extracted without the token's hex length having been found exact", lambda f: any(f.eqc(t, 128) for t in f.heads("strlen"))),
            ("cond", "a delegation is extracted without its conditions string", lambda f: f.content(1, *off("conditions"))[0] == "ret" and f.nonzero(f.content(1, *off("conditions")))),
        ])

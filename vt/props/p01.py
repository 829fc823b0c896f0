"""Accepting an event: id recomputed over all fields and compared, signature verified over that id under the author key."""
import gate, prog, layout
from spec import *

TECHNIQUE = "path-sensitive must-pass gate dataflow over LLVM IR with symbolic buffer provenance"


def check(rep, tier):
    rep.expl = ("Every path of the event verifier that can return success (both crypto back ends, all non-API callees inlined) was explored by a "
                "path-sensitive dataflow that names each buffer by the data it was copied or computed from. In every success state the branch facts must "
                "contain: id recomputation succeeded on a copy holding exactly the event's fields, the recomputed 32 bytes equal the claimed id, the author "
                "key parsed, and Schnorr verification of (claimed sig, 32-byte claimed id, that key) returned true.")
    rep.assume = ["libsecp256k1 verifies BIP-340 correctly", "nostr_event_compute_id depends on exactly the id-relevant fields (checked separately as P29)"]
    for cfg in CONFIGS:
        L = layout.layout(cfg)
        P = prog.prog(cfg)
        ID, PK, SIG = fld(L, "nostr_event", "id"), fld(L, "nostr_event", "pubkey"), fld(L, "nostr_event", "sig")
        EV = evid_of(L, 0)
        judge(rep, cfg, "nostr_event_verify", [
            ("id-recomputed", "a success return is reachable without a successful recomputation of the id over the event's own fields",
             lambda f: f.zero(("nostr_event_compute_id", EV))),
            ("id-compared", "a success return is reachable without all 32 bytes of the claimed id having been found equal to the recomputed id",
             lambda f: f.eqbytes(ID, EV, 32)),
            ("key-parsed", "a success return is reachable without the author's public key having parsed",
             lambda f: f.nonzero(("secp256k1_xonly_pubkey_parse", PK))),
            ("sig-verified", "a success return is reachable without the signature over the 32-byte id having verified under the author's key",
             lambda f: any(f.nonzero(("secp256k1_schnorrsig_verify", SIG, m, ("c", 32), ("xonly", PK))) for m in (ID, EV))),
        ], models=evid_model(L))
        # the two relay-side entry points and every other library caller must not treat a failed verification as success: P14/P02
        s = P.sum["nostr_event_verify"]
        rep.obl(not s.mod and not s.deep, "nostr_event_verify:const-input", cfg, "verification writes through its input event %r %r" % (s.mod, s.deep))
        rep.count("verify_gates", 4)

"""Signing: the published event carries the author key of the signing key, the id over its final fields, a signature over that id with fresh randomness."""
import gate, prog, layout
from spec import *

TECHNIQUE = "path-sensitive must-pass gate dataflow over LLVM IR with symbolic buffer provenance"


def check(rep, tier):
    rep.expl = ("Every success path of event signing and of delegation creation was explored with symbolic buffer provenance: public key, id and signature "
                "left in the output object must be exactly the key derived from the caller's private key, the id computed after the key was stored, and the Schnorr signature of that "
                "id (or of the delegation string hash) made with that key pair and checked randomness.")
    rep.assume = ["libsecp256k1 signs BIP-340 correctly"]
    for cfg in CONFIGS:
        L = layout.layout(cfg)
        fo = lambda f: L.off[("nostr_event", f)][:2]
        KP = ("kp", ("mem", ("arg", 1), 0, 32))
        PUB = ("xser", ("kpx", KP))
        EV = ("evid", PUB) + tuple(fld(L, "nostr_event", x) for x in ("created_at", "kind", "tags", "tags_count", "content"))
        RND = ("rnd", ("c", 32))
        SGN = lambda f: f.heads("secp256k1_schnorrsig_sign32")
        judge(rep, cfg, "nostr_event_sign", [
            ("key-valid", "signing succeeds without the private key having been accepted", lambda f: f.nonzero(("secp256k1_keypair_create", ("mem", ("arg", 1), 0, 32)))),
            ("pubkey", "the signed event does not carry the public key of the signing key", lambda f: f.content(0, *fo("pubkey")) == PUB),
            ("id", "the signed event's id is not the id of its final fields", lambda f: f.content(0, *fo("id")) == EV),
            ("id-ok", "signing succeeds although the id computation was not found successful", lambda f: f.zero(("nostr_event_compute_id", EV))),
            ("sig", "the signed event's signature is not the signature of its id under the signing key with fresh randomness",
             lambda f: f.content(0, *fo("sig")) == ("schnorr", EV, KP, RND)),
            ("sig-ok", "signing succeeds although the signature routine was not found successful",
             lambda f: f.nonzero(("secp256k1_schnorrsig_sign32", EV, KP, RND))),
            ("rng-ok", "signing succeeds although the auxiliary randomness was not found available", lambda f: f.eqc(("nostr_random_bytes", ("c", 32)), 1)),
        ], models=evid_model(L), interest=only("secp256k1_keypair_create", "nostr_event_compute_id", "secp256k1_schnorrsig_sign32", "nostr_random_bytes"))
        do = lambda f: L.off[("nostr_delegation", f)][:2]
        KP0 = ("kp", ("mem", ("arg", 0), 0, 32))
        STR = ("fmt", ("s", "nostr:delegation:%s:%s"), ("hex", ("mem", ("arg", 1), 0, 32), ("c", 32)), ("mem", ("arg", 2), 0, None))
        H = lambda t: t[0] == "sha256" and t[1] == STR and t[2] == ("strlen", STR)
        def tok(f):
            t = f.content(3, *do("token"))
            return t[0] == "schnorr" and H(t[1]) and t[2] == KP0 and t[3] == RND
        judge(rep, cfg, "nostr_delegation_create", [
            ("delegator", "the delegation does not name the public key of the signing key", lambda f: f.content(3, *do("delegator_pubkey")) == ("xser", ("kpx", KP0))),
            ("token", "the delegation token is not the signature of nostr:delegation:<delegatee>:<conditions> under the signing key", tok),
            ("token-ok", "delegation creation succeeds although the signature routine was not found successful",
             lambda f: any(f.nonzero(t) and H(t[1]) and t[2] == KP0 for t in f.heads("secp256k1_schnorrsig_sign32"))),
            ("rng-ok", "delegation creation succeeds although the auxiliary randomness was not found available", lambda f: f.eqc(("nostr_random_bytes", ("c", 32)), 1)),
        ], interest=only("secp256k1_keypair_create", "secp256k1_schnorrsig_sign32", "nostr_random_bytes"), cap=3)

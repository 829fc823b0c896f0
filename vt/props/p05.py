"""NIP-49 decryption."""
import gate, prog, layout
from spec import *

TECHNIQUE = "path-sensitive must-pass gate dataflow over LLVM IR with symbolic buffer provenance"


def check(rep, tier):
    rep.expl = ("All success paths of encrypted-key decryption, validation and encryption were explored (OpenSSL configuration; the other configuration only "
                "has a stub). Decryption success requires: checksum over exactly the decoded data, 91-byte payload, version 2, cost 16..22, security byte 0..2, scrypt over the "
                "payload's salt with N=2^cost r=8 p=1, and on one cipher context tag = payload[75..91), nonce from payload[18..42), AAD = payload[42], ciphertext = "
                "payload[43..75), and the final authentication step equal to 1. The returned key is that decryption's output.")
    rep.assume = ["OpenSSL's scrypt and ChaCha20-Poly1305 are correct", "the HChaCha20 arithmetic itself is not decided"]
    cfg = "openssl"
    L = layout.layout(cfg)
    P = prog.prog(cfg)

    def payload(f, a, n):
        """payload bytes [a, a+n)"""
        def p(t):
            if t[0] == "sub" and t[2] == a and (t[3] == n) and good_bits(t[1], lambda h: h == ("s", "ncryptsec")):
                return True
            return a == 0 and n is None and good_bits(t, lambda h: h == ("s", "ncryptsec"))
        return p
    def exact(f):
        return any(f.eqc(t, 91) and good_bits(t, lambda h: h == ("s", "ncryptsec")) for t in f.heads("bech32_convert_bits"))
    def rng(f, a, lo, hi):
        p = payload(f, a, 1)
        for t in f.sub:
            if p(t):
                if lo == hi and f.eqc(t, lo):
                    return True
                fs = f.sub[t]
                if (lo == 0 or any(x in ("uge", "sge") and b[0] == "c" and gate.sgn(b[1], 32) >= lo or x in ("ugt", "sgt") and b[0] == "c" and gate.sgn(b[1], 32) >= lo - 1 or
                                   x == "eq" and b[0] == "c" and b[1] >= lo for x, b in fs)) and \
                   any(x in ("ule", "sle") and b[0] == "c" and b[1] <= hi or x in ("ult", "slt") and b[0] == "c" and b[1] <= hi + 1 or x == "eq" and b[0] == "c" and b[1] <= hi for x, b in fs):
                    return True
        return False
    def scrypt(f):
        for t in f.heads("EVP_PBE_scrypt"):
            if f.eqc(t, 1) and t[1] == ("mem", ("arg", 1), 0, None) and t[2] == ("strlen", t[1]) and payload(f, 2, 16)(t[3]) and t[4] == ("c", 16) and \
               t[5][0] == "shl" and t[5][1] == ("c", 1) and payload(f, 1, 1)(t[5][2]) and t[6] == ("c", 8) and t[7] == ("c", 1) and t[9] == ("c", 32):
                return True
        return False
    def aead(f):
        for fin in f.heads("EVP_DecryptFinal_ex"):
            if not f.eqc(fin, 1):
                continue
            ctx = fin[1]
            tag = [t for t in f.heads("EVP_CIPHER_CTX_ctrl") if t[1] == ctx and t[2] == ("c", 17) and t[3] == ("c", 16) and payload(f, 75, 16)(t[4]) and f.eqc(t, 1)]
            iv = [t for t in f.heads("EVP_CIPHER_CTX_ctrl") if t[1] == ctx and t[2] == ("c", 9) and t[3] == ("c", 12) and f.eqc(t, 1)]
            ups = [t for t in f.heads("EVP_DecryptUpdate") if t[1] == ctx and f.eqc(t, 1)]
            aad = [t for t in ups if t[3] == ("c", 1) and payload(f, 42, 1)(t[2])]
            ct = [t for t in ups if t[3] == ("c", 32) and payload(f, 43, 32)(t[2])]
            ini = [t for t in f.heads("EVP_DecryptInit_ex") if t[1] == ctx and f.eqc(t, 1) and t[2] == ("EVP_chacha20_poly1305",)]
            key = [t for t in f.heads("EVP_DecryptInit_ex") if t[1] == ctx and f.eqc(t, 1) and t[5][0] == "cat" and t[5][1] == ("zero",) and payload(f, 34, 8)(t[5][2])
                   and t[4] != ("null",)]
            if tag and iv and aad and ct and ini and key:
                return ct[0]
        return None
    K = "nostr_ncryptsec_decrypt"
    common = [
        ("checksum", "succeeds without a 91-byte payload decoded from a data part whose checksum was found correct", exact),
        ("version", "succeeds without the version byte having been found equal to 2", lambda f: rng(f, 0, 2, 2)),
        ("cost", "succeeds without the cost byte having been found within 16..22", lambda f: rng(f, 1, 16, 22)),
        ("security", "succeeds without the key-security byte having been found within 0..2", lambda f: rng(f, 42, 0, 2)),
        ("prefix", "succeeds without the ncryptsec1 prefix", lambda f: any(f.zero(t) and t[1] == ("mem", ("arg", 0), 0, None) and t[2] == ("s", "ncryptsec1") and t[3] == ("c", 10) for t in f.heads("strncmp"))),
    ]
    inter = only("bech32_verify_checksum", "bech32_convert_bits", "EVP_PBE_scrypt", "EVP_DecryptFinal_ex", "EVP_CIPHER_CTX_ctrl", "EVP_DecryptUpdate", "EVP_DecryptInit_ex", "sub", "strncmp")
    judge(rep, cfg, K, [(k, "decryption " + t, p) for k, t, p in common] + [
        ("scrypt", "decryption succeeds without key derivation from the given password over the payload's salt and cost having succeeded", scrypt),
        ("aead", "decryption succeeds without the authenticated decryption of the payload's ciphertext (tag, nonce, associated data, final check) having succeeded on one context", lambda f: aead(f) is not None),
        ("output", "the key returned is not the output of that authenticated decryption",
         lambda f: unsub(f.content(2, 0, 32))[0] == "dec" and payload(f, 43, 32)(unsub(f.content(2, 0, 32))[2])),
    ], models=BECH_MODELS, promote=BECH_PROMOTE, interest=inter)
    judge(rep, cfg, "nostr_ncryptsec_validate", [(k, "format validation " + t, p) for k, t, p in common], models=BECH_MODELS, promote=BECH_PROMOTE, interest=inter)

    # encryption: payload layout is what decryption expects
    def enc(f):
        for t in f.heads("bech32_convert_bits"):
            if t[-3:] != (("c", 8), ("c", 5), ("c", 1)) or t[2] != ("c", 91):
                continue
            if not any(p in ("sgt", "ne", "sge") for p, b in f.sub[t]):
                continue
            c = t[1]
            if c[0] == "cat":
                pos, at = 0, {}
                sizes = [1, 1, 16, 24, 1, 32, 16]
                if len(c) - 1 != len(sizes):
                    continue
                v, ln, salt, nonce, sec, ct, mac = c[1:]
                if v == ("c", 2) and salt == ("rnd2", ("c", 16)) and nonce == ("rnd2", ("c", 24)) and ct[0] == "enc" and ct[2] == ("mem", ("arg", 0), 0, 32) and ln in (("arg", 2), ("trunc", 8, ("arg", 2))):
                    return True
        return False
    def encauth(f):
        fin = [t for t in f.heads("EVP_EncryptFinal_ex") if f.eqc(t, 1)]
        for t in fin:
            ctx = t[1]
            ups = [u for u in f.heads("EVP_EncryptUpdate") if u[1] == ctx and f.eqc(u, 1)]
            tag = [u for u in f.heads("EVP_CIPHER_CTX_ctrl") if u[1] == ctx and u[2] == ("c", 16) and u[3] == ("c", 16) and f.eqc(u, 1)]
            if any(u[2] == ("mem", ("arg", 0), 0, 32) for u in ups) and any(u[3] == ("c", 1) for u in ups) and tag:
                return True
        return False
    def encscrypt(f):
        return any(f.eqc(t, 1) and t[3] == ("rnd2", ("c", 16)) and t[5] == ("shl", ("c", 1), ("arg", 2)) and t[6] == ("c", 8) and t[7] == ("c", 1)
                   for t in f.heads("EVP_PBE_scrypt"))
    mods = dict(BECH_MODELS)
    mods["RAND_bytes"] = (("-", "n"), [(0, 0, ("v", 1), "rnd2")])
    judge(rep, cfg, "nostr_ncryptsec_encrypt", [
        ("rng", "encryption succeeds without both salt and nonce having been drawn from the RNG", lambda f: {t[1][1] for t in f.heads("RAND_bytes") if f.eqc(t, 1)} >= {16, 24}),
        ("scrypt", "encryption succeeds without key derivation over the fresh salt and requested cost having succeeded", encscrypt),
        ("aead", "encryption succeeds without the authenticated encryption of the private key having completed with its tag", encauth),
        ("payload", "the payload encoded is not version, cost, salt, nonce, security byte, ciphertext, tag", enc),
        ("checksum", "encryption succeeds without the Bech32 checksum over the payload", lambda f: any(f.nonzero(t) and t[1] == ("s", "ncryptsec") for t in f.heads("bech32_create_checksum"))),
    ], models=mods, interest=only("bech32_convert_bits", "EVP_PBE_scrypt", "EVP_EncryptFinal_ex", "EVP_CIPHER_CTX_ctrl", "EVP_EncryptUpdate", "EVP_EncryptInit_ex", "RAND_bytes", "bech32_create_checksum"))

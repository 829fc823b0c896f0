"""Error propagation: what a function returns on the paths where a call it made is known, or may be, to have failed.

One run per fallible call site.  ts: 'n' site not executed, 'o' the latest execution succeeded, 'f' it failed,
'?' its outcome was never separated.  The engine splits the state at the call, so every later test of the
result (direct, stored in a variable, merged with other results) is decided on each half."""
import esp, prog, layout
from esp import BaseClient, mk
from ir import Inst, Const

# external and int-valued functions: how success is reported
#   'z' zero, '1' exactly one, 'nz' non-zero / non-null, 'ge0' not negative
HOW = {
    "secp256k1_keypair_create": "nz", "secp256k1_keypair_xonly_pub": "nz", "secp256k1_xonly_pubkey_serialize": "nz", "secp256k1_schnorrsig_sign32": "nz",
    "secp256k1_xonly_pubkey_parse": "nz", "secp256k1_schnorrsig_verify": "nz", "secp256k1_ec_pubkey_create": "nz", "secp256k1_ec_pubkey_serialize": "nz",
    "secp256k1_ec_seckey_tweak_add": "nz", "secp256k1_ec_seckey_verify": "nz", "secp256k1_xonly_pubkey_from_pubkey": "nz", "secp256k1_ec_pubkey_parse": "nz",
    "secp256k1_ecdh": "nz", "secp256k1_keypair_sec": "nz", "secp256k1_keypair_pub": "nz", "secp256k1_schnorrsig_sign_custom": "nz",
    "RAND_bytes": "1", "nostr_random_bytes": "1", "PKCS5_PBKDF2_HMAC": "1", "HMAC": "nz", "EVP_PBE_scrypt": "1", "EVP_EncryptInit_ex": "1", "EVP_DecryptInit_ex": "1",
    "EVP_CIPHER_CTX_ctrl": "1", "EVP_EncryptUpdate": "1", "EVP_DecryptUpdate": "1", "EVP_EncryptFinal_ex": "1", "EVP_DecryptFinal_ex": "1",
    "mbedtls_ctr_drbg_seed": "z", "mbedtls_ctr_drbg_random": "z",
    "pthread_create": "z", "pthread_mutex_init": "z", "lws_write": "ge0",
    "bech32_create_checksum": "nz", "bech32_verify_checksum": "nz",
}
# documented fall-backs: the callee's failure selects another outcome that the caller documents as success
#   None: every failure; otherwise the codes that are NOT tolerated
FALLBACK = {
    ("nostr_event_is_reply", "nostr_event_get_reply_id"): None,        # no reply id: not a reply
    ("nostr_quote_tags_from_content", "nostr_uri_parse"): None,        # text that is not a valid URI is skipped
    ("nostr_relay_connect", "nostr_relay_disconnect"): None,           # best-effort close of the previous connection
    ("nostr_relay_list_from_event", "nostr_relay_list_add"): (4,),    # unusable URLs are skipped, NOSTR_ERR_MEMORY is not
}
OWNHOW = {"nostr_random_bytes": "1"}


def how(cfg, name):
    if name in HOW:
        return HOW[name]
    p = layout.layout(cfg).protos.get(name)
    if p is not None and p[0] in ("nostr_error_t", "nostr_relay_error_t"):
        return "z"
    return None


class Err(BaseClient):
    init = "n"
    cap = 8

    def __init__(self, P, fn, site, h, own, codes=None):
        self.codes = codes
        self.P, self.fn, self.site, self.h, self.own = P, fn, site, h, own
        self.bad = []
        self.nret = 0

    def keep(self, st):
        return {self.site} if st.ts in ("f", "o") else ()

    def on_call(self, E, st, i):
        if i is not self.site:
            return None
        E.clobber(st, i)
        out = []
        w = i.w or 64
        cases = {"z": ("eq", "ne", 0), "1": ("eq", "ne", 1), "nz": ("ne", "eq", 0), "ge0": ("sge", "slt", 0)}[self.h]
        for k, s in ((0, "o"), (1, "f")):
            for x in E.acmp(st.copy(), cases[k], i, mk(cases[2], w)):
                for code in self.codes if s == "f" and self.codes else (None,):
                    for y in ([x] if code is None else E.acmp(x.copy(), "eq", i, mk(code, w))):
                        y.ts = s
                        out.append(y)
                if s == "f" and self.codes:
                    for code in self.codes:
                        x = (E.acmp(x, "ne", i, mk(code, w)) or [None])[0]
                        if x is None:
                            break
                    if x is not None:
                        x.ts = "o"
                        out.append(x)
        return out

    def on_ret(self, E, st, i, val):
        self.nret += 1
        if st.ts != "f" or val is None:
            return
        k = E.rng(st, E.res(st, val))
        good = {"z": 0, "1": 1}[self.own]
        if k[0] <= good <= k[1] and good not in k[4]:
            self.bad.append((i, E.ev(st, val) == good, E.trail_lines(st)))


def one(a):
    cfg, name = a
    P = prog.prog(cfg)
    f = P.fn[name]
    p = layout.layout(cfg).protos.get(name)
    own = "z" if p is not None and p[0] in ("nostr_error_t", "nostr_relay_error_t") else OWNHOW.get(name)
    if own is None or not f.blocks:
        return name, 0, [], []
    out, n, skipped = [], 0, []
    from front import Broken
    for i in f.insts():
        if i.op != "call" or not i.cname:
            continue
        h = how(cfg, i.cname)
        if h is None:
            continue
        codes = FALLBACK.get((name, i.cname), ())
        if codes is None:
            skipped.append(i.cname)
            continue
        n += 1
        try:
            c = esp.explore(lambda: Err(P, f, i, h, own, codes), f, P.fx, 30000)
        except Broken as e:
            out.append((i.cname, i.loc, "broken", str(e), []))
            continue
        if c.bad:
            j, sure, tr = c.bad[0]
            out.append((i.cname, i.loc, "swallowed", "%s:%s in %s" % (j.file, j.line, name), tr))
    return name, n, out, skipped


def run(cfg):
    import multiprocessing
    P = prog.prog(cfg)
    layout.layout(cfg)
    names = sorted(P.fn, key=lambda n: -sum(1 for _ in P.fn[n].insts()))
    with multiprocessing.get_context("fork").Pool(8) as pool:
        return pool.map(one, [(cfg, n) for n in names], chunksize=1)

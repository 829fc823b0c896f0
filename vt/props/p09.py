"""Key material is wiped before its memory is given up."""
import wipe
from spec import CONFIGS

TECHNIQUE = "flow-insensitive taint of buffers holding key material, then path-sensitive dirty/wiped typestate per buffer over LLVM IR"


def check(rep, tier):
    rep.expl = ("Every local array, heap block and secret output parameter that is ever given key material was found by taint over the whole module (secret parameter types, key-producing calls, "
                "copies, conversions, hashes, and buffers copied into secrets). On all paths: each is covered by a wipe the compiler must keep before the function returns or the block is released, and "
                "secret outputs are clean at every failure return. Records with a private key are wiped by their release function. secure_wipe itself was checked.")
    rep.assume.append("scalars and registers are outside the model; a failed signature-library, key-derivation or random call leaves no key material in its output; salt and nonce of password encryption are public")
    for cfg in CONFIGS:
        n = 0
        for name, objs, bad in wipe.run(cfg):
            rep.fns.add(name)
            n += objs
            rep.nobl += max(0, objs - len(bad))
            rep.samples.append("%s (%s): %d buffers" % (name, cfg, objs))
            for key, where, why, path in bad:
                rep.obl(False, key, where, why, path)
        rep.count("buffers_" + cfg, n)
        rep.need("buffers with key material in " + cfg, n, 14 if cfg == "mbedtls" else 30)

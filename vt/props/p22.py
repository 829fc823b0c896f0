"""Malformed hex never decodes."""
import hexdec
from spec import CONFIGS

TECHNIQUE = "path-sensitive range analysis of every digit-to-nibble conversion and of every caller of a hex decoder over LLVM IR"


def check(rep, tier):
    rep.expl = ("Wherever a byte is assembled from two hex characters, each character must be proven to lie in the digit class whose offset is subtracted and both nibbles must be 0..15; odd-length text may not be accepted; "
                "a caller of a decoder may not report success when decoding failed or produced fewer bytes than the value holds; sscanf %x is not a hex decoder.")
    for cfg in CONFIGS:
        n = 0
        for name, k, out in hexdec.run(cfg):
            if not k:
                continue
            rep.fns.add(name)
            n += k
            rep.nobl += max(0, k - len(out))
            rep.samples.append("%s (%s): %d obligations" % (name, cfg, k))
            for kind, op, loc, why, path in out:
                rep.obl(False, "%s:%s:%s:%s" % (kind, name, op, why if kind == "digit" else ""), loc, why, path)
        rep.count("obligations_" + cfg, n)
        rep.need("hex decoding obligations in " + cfg, n, 5)

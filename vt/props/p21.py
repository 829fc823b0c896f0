"""Numbers read from text, JSON and lengths keep their value or are rejected."""
import num
from spec import CONFIGS

TECHNIQUE = "path-sensitive dataflow over LLVM IR: each conversion call split on its possible outcomes (number / no digits / trailing text / out of range), range analysis at every narrowing of a parsed value"


def check(rep, tier):
    rep.expl = ("Every strto*/ato* call was split on what it can report and the unusable outcomes followed: the value may not be stored, returned, passed on or compared on a path that reports success. "
                "Every truncation, floating-to-integer conversion and multiplication of a value parsed from text or JSON (and every length written into an 8/16-bit field) must be proven to keep the value "
                "from the comparisons that dominate it.")
    rep.assume += ["cJSON's valueint saturates at the int limits and is taken as the number read; JSON numbers are never NaN",
                   "an object length fits 31 bits (only 8- and 16-bit narrowing of lengths is checked)"]
    for cfg in CONFIGS:
        nc = nn = 0
        for name, c, m, out in num.run(cfg):
            if not (c or m):
                continue
            rep.fns.add(name)
            nc += c
            nn += m
            bad = {(k, o, l) for k, o, l, _, _ in out}
            rep.nobl += max(0, c + m - len(bad))
            rep.samples.append("%s (%s): %d conversions, %d narrowings" % (name, cfg, c, m))
            for kind, op, loc, why, path in out:
                rep.obl(False, "%s:%s:%s" % (kind, name, op), loc, why, path)
        rep.count("conversions_" + cfg, nc)
        rep.count("narrowings_" + cfg, nn)
        rep.need("numeric conversions in " + cfg, nc + nn, 20)

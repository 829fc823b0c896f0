"""JSON members are used only as the type they are known to have."""
import jtype
from spec import CONFIGS

TECHNIQUE = "path-sensitive type-state dataflow over LLVM IR: facts (item, type) established by cJSON_Is* / type tests, demanded at every use of a JSON item; per-member strictness runs for filters"


def check(rep, tier):
    rep.expl = ("Every read of a cJSON item's number, text or elements was checked for a dominating type test of that very item on every path, every read of an item and of a text for a null test; "
                "for filters, each member lookup was followed on the paths where it is present with another type: the parse must fail.")
    rep.assume.append("a cJSON string item has a non-null text (library invariant)")
    for cfg in CONFIGS:
        n = 0
        for name, k, out in jtype.run(cfg):
            if not k:
                continue
            rep.fns.add(name)
            n += k
            rep.nobl += max(0, k - len(out))
            rep.samples.append("%s (%s): %d uses" % (name, cfg, k))
            for what, loc, why, path in out:
                rep.obl(False, "%s:%s:%s" % (name, what, why[:60]), loc, why, path)
        rep.count("json_uses_" + cfg, n)
        rep.need("uses of JSON items in " + cfg, n, 60)

"""Failures of called operations are never reported as success."""
import err
from spec import CONFIGS
from front import Broken

TECHNIQUE = "path-sensitive dataflow per fallible call site over LLVM IR: the state is split on the outcome and the failing half followed to every return"


def check(rep, tier):
    rep.expl = ("For every call of a fallible operation (library functions returning nostr_error_t / nostr_relay_error_t, crypto, randomness, key derivation, cipher, thread and socket "
                "primitives) in a function that itself reports errors, the paths on which that call failed were followed to every return; none may return the success code. "
                "Helpers are inlined, so a failure dropped by a helper counts at its caller.")
    rep.assume.append("Documented fall-backs excluded: " + "; ".join("%s <- %s%s" % (a, b, "" if c is None else " (except out of memory)") for (a, b), c in sorted(err.FALLBACK.items())))
    for cfg in CONFIGS:
        n = 0
        for name, sites, out, skipped in err.run(cfg):
            if not sites:
                continue
            rep.fns.add(name)
            n += sites
            rep.nobl += sites - len(out)
            rep.samples.append("%s (%s): %d call sites" % (name, cfg, sites))
            for callee, loc, kind, where, path in out:
                if kind == "broken":
                    raise Broken("%s: %s" % (name, where))
                rep.obl(False, "swallowed:%s:%s" % (name, callee), where, "success may be returned although %s, called at %s, failed" % (callee, loc), path)
        rep.count("call_sites_" + cfg, n)
        rep.need("fallible call sites in " + cfg, n, 150)

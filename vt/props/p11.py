"""Heap ownership."""
import own
from spec import CONFIGS

TECHNIQUE = "path-sensitive ownership (typestate) dataflow per allocation and release site over LLVM IR"
KINDS = {"leak", "double", "uaf", "mismatch", "unadopted", "broken"}


def collect(rep, kinds, sitekinds=None):
    for cfg in CONFIGS:
        n = 0
        for name, sites, out in own.all_sites(cfg):
            rep.fns.add(name)
            n += sites
            bad = set()
            for sk, callee, loc, kind, where, why, path in out:
                if kind == "broken":
                    from front import Broken
                    raise Broken("%s: %s" % (name, why))
                if kind in kinds:
                    bad.add((callee, loc))
                    rep.obl(False, "%s:%s:%s" % (kind, name, callee), where, "%s, obtained or released at %s: %s" % (callee, loc, why), path)
            for _ in range(sites - len(bad)):
                rep.nobl += 1
            rep.samples.append("%s (%s): %d sites" % (name, cfg, sites))
        rep.count("sites_" + cfg, n)
        rep.need("ownership sites in " + cfg, n, 400)


def check(rep, tier):
    rep.expl = ("For every heap allocation site, every object a library constructor hands to a local variable or to the caller's out-parameter, every structure a parser fills "
                "in place and every release site of every function with a body (static helpers inlined), all paths were explored with the state of that one object: live, adopted by "
                "a container, handed to the caller, released. Violations: object lost while live, released twice, used after release, released by the wrong function.")
    collect(rep, KINDS)

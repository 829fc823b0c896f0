"""Every position of a counted list takes part."""
import walk, prog, layout
from spec import CONFIGS, loc

TECHNIQUE = "loop analysis over LLVM IR (natural loops, induction positions, bounds by provenance): every walk over a counted list starts at its first element, steps by one, is bounded by that list's own count and has no fixed cut-off or positional skip"


def check(rep, tier):
    rep.expl = ("Every natural loop of every library function was searched for a position that starts at a constant, moves up, indexes a list and is bounded by an element count of a record, "
                "by a caller's count or by the size of a JSON array. For each such walk: first position, step, bound (own list, no subtraction, no constant cap below the list's capacity), "
                "other exits that depend on a position alone, and branches that jump over the element because of its position.")
    rep.assume.append("a record's count describes its list (kept by the functions that fill it)")
    for cfg in CONFIGS:
        P, L = prog.prog(cfg), layout.layout(cfg)
        C = walk.counts(L)
        rep.need("element counts of records (%s)" % cfg, len(C), 10)
        n = 0
        for name, f in sorted(P.fn.items()):
            if not f.blocks:
                continue
            k, bad = walk.walks(f, C)
            if not k and not bad:
                continue
            n += k
            rep.fns.add(name)
            rep.count("list_walks", k)
            if not bad:
                rep.obl(True, name, cfg)
            for i, key, why in bad:
                rep.obl(False, "%s:%s" % (name, key), loc(f, i), why + " [%s configuration]" % cfg)
        rep.need("walks over counted lists (%s)" % cfg, n, 40)

"""What a relay filter match means."""
import filt
from spec import CONFIGS, loc

TECHNIQUE = "path-sensitive dataflow over LLVM IR with value provenance: per constraint, every path that answers yes must have found it absent or satisfied; every path that answers no must have found one violated or exhausted"
NAMES = {"ids": "ids", "authors": "authors", "kinds": "kinds", "since": "since", "until": "until", "e_tags": "#e", "p_tags": "#p", "generic_tags": "tag"}


def check(rep, tier):
    rep.expl = ("nostr_filter_matches was explored once per kind of constraint: at every yes, the constraint's list was found empty (its bound not set) or a successful comparison of the right "
                "event field (full hex of id or author against the whole listed prefix, kind without narrowing, timestamp against the inclusive bound, whole tag value of a tag whose name was "
                "found equal) was made on that path; at every no, a bound was found violated or a list exhausted. Loops over the lists start at the first element, step by one and end at the "
                "count. The search and multi-filter variants were explored the same way.")
    rep.assume.append("nostr_bytes_to_hex writes the hex text of its input; an event's tag list and counts describe each other")
    for cfg in CONFIGS:
        P, f, res = filt.matches(cfg)
        rep.fns.add(f.name)
        for n, nret, bad in res:
            rep.need("%s states at return (%s)" % (n, cfg), nret, 1)
            rep.count("states_at_return", nret)
            k = "nostr_filter_matches:" + n
            if not bad:
                rep.obl(True, k, cfg)
                continue
            i, s, tr = bad[0]
            if n == "every":
                why = s
            elif n == "reject":
                why = "an event is turned away although no constraint was found violated and no list was exhausted"
            else:
                why = "an event is accepted although a %s constraint is present: %s" % (NAMES[n], filt.WHY.get(s, s))
            rep.obl(False, k, loc(f, i), why + " [%s configuration]" % cfg, tr)
        for g, nret, bad in filt.others(cfg):
            rep.fns.add(g.name)
            rep.need("%s states at return (%s)" % (g.name, cfg), nret, 2)
            rep.count("states_at_return", nret)
            if not bad:
                rep.obl(True, g.name, cfg)
            seen = set()
            for i, why, tr in bad:
                if why not in seen:
                    seen.add(why)
                    rep.obl(False, "%s:%s" % (g.name, why[:50]), loc(g, i), why + " [%s configuration]" % cfg, tr)

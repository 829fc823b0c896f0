"""No caller-supplied function runs under a lock."""
import conc
from spec import CONFIGS

TECHNIQUE = "lock-state typestate dataflow with interprocedural callback summaries over LLVM IR"


def check(rep, tier):
    rep.expl = ("Every call through a function pointer, and every call to a library function that may make one, was checked on all paths to be made with no library lock held.")
    for cfg in CONFIGS:
        P, names, res, th, cb = conc.analyse(cfg)
        ind = {}
        for n, f in P.fn.items():
            for i in f.insts():
                if i.op == "call" and i.cname is None:
                    ind.setdefault(n, []).append(i.loc)
        rep.need("calls through function pointers in " + cfg, sum(len(v) for v in ind.values()), 6)
        bad = {}
        for name, viol, acc, ed, nl in res:
            rep.fns.add(name)
            for k, loc, why, tr in viol:
                if k == "callback-under-lock":
                    bad[(name, loc)] = 1
                    rep.obl(False, "%s:%s" % (k, name), loc, why, tr)
        for n, locs in sorted(ind.items()):
            for loc in locs:
                if (n, loc) not in bad:
                    rep.obl(True, "indirect-call:%s" % n, loc)

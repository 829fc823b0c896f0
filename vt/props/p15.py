"""Lock discipline."""
import conc
from spec import CONFIGS
from front import Broken

TECHNIQUE = "lock-state typestate dataflow with interprocedural acquire summaries and a lock-order graph over LLVM IR"
KINDS = ("double-lock", "unlock-unheld", "held-at-return", "running-at-return", "blocking-under-lock")


def cycle(edges):
    g = {}
    for a, b, w in edges:
        g.setdefault(a, {})[b] = w
    def reach(x, y, seen):
        for z in g.get(x, ()):
            if z == y:
                return [z]
            if z not in seen:
                seen.add(z)
                r = reach(z, y, seen)
                if r:
                    return [z] + r
        return None
    for a in g:
        r = reach(a, a, set())
        if r:
            return [a] + r
    return None


def check(rep, tier):
    rep.expl = ("Every function that locks, unlocks, starts threads, touches process-wide state or calls such a function was explored with the set of locks held: no lock acquired twice "
                "(also not through a callee), released unheld or held at a return; no blocking call or join under a lock; no return while a thread started here may still use local variables; "
                "the lock-order graph over all functions is acyclic.")
    for cfg in CONFIGS:
        P, names, res, th, cb = conc.analyse(cfg)
        n, edges = 0, []
        for name, viol, acc, ed, nl in res:
            rep.fns.add(name)
            n += nl
            rep.nobl += max(1, nl)
            rep.samples.append("%s (%s): %d acquisitions" % (name, cfg, nl))
            for k, loc, why, tr in viol:
                if k == "broken":
                    raise Broken(why)
                if k in KINDS:
                    rep.obl(False, "%s:%s" % (k, name), loc, why, tr)
            edges += [(a, b, "%s %s" % (name, loc)) for a, b, loc in ed]
        rep.need("lock acquisitions in " + cfg, n, 12)
        rep.need("thread entry functions in " + cfg, len(th), 2)
        es = {(a, b): w for a, b, w in edges if b != "$callback"}
        rep.count("lock_order_edges_" + cfg, len(es))
        c = cycle([(a, b, w) for (a, b), w in es.items()])
        rep.obl(c is None, "order:" + (" > ".join(sorted(set(c))) if c else "acyclic"), "", "locks are acquired in opposite orders: %s" % (" > ".join(c or [])), [es[k] for k in es if c and k[0] in c])

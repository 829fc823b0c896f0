"""Shared mutable state."""
import conc, prog
from spec import CONFIGS
from front import Broken

TECHNIQUE = "static lockset analysis (every access to shared state, locks held on every path) over LLVM IR"
RELAYF = "struct.relay_context"


def check(rep, tier):
    rep.expl = ("Every load, store and call argument touching a mutable process-wide variable, a field of the relay connection shared between callers and the network thread, its subscription list, "
                "or memory shared with mining threads was collected with the locks held on every path; per object the intersection must be non-empty once anyone writes it. "
                "Calls to C library functions that keep hidden static state are rejected everywhere.")
    rep.assume = ["volatile stop flags are exempt", "the network library calls back only on the thread running lws_service",
                  "reads of the crypto context after nostr_init() succeeded on the same path are ordered by its lock; nostr_cleanup must not run concurrently with other calls"]
    for cfg in CONFIGS:
        P, names, res, th, cb = conc.analyse(cfg)
        service = th | cb
        D = {}
        for name, viol, acc, ed, nl in res:
            rep.fns.add(name)
            for k, o, loc, mode, held, ph in acc:
                D.setdefault((k, o if k in ("global", "field") else (name, o)), []).append((name, loc, mode, held, ph))
        ng = nf = nt = 0
        for (k, o), l in sorted(D.items(), key=str):
            if k == "global":
                g = P.m.globals.get(o)
                if g is None or g.const or g.is_fn or g.tls:
                    continue
                if o in {x for a in conc.acquires(P).values() for x in a}:
                    continue
                if not any(x[2] == "w" for x in l):
                    continue
                ng += 1
                initonly = {x[0] for x in l if x[2] == "w"} <= {"nostr_init", "nostr_cleanup"}
                judge(rep, "global:" + o, [x for x in l if not (initonly and x[2] == "r" and "init" in x[4])], "the process-wide variable " + o)
            elif k == "field":
                s, idx = o
                fn = conc._F[cfg][idx] if s == RELAYF and idx < len(conc._F[cfg]) else "#%d" % idx
                l = [x for x in l if "join" not in x[4]]
                if s == RELAYF:
                    roles = {x[0] in service for x in l}
                    if len(roles) < 2 or not any(x[2] == "w" for x in l):
                        continue
                if not l:
                    continue
                nf += 1
                judge(rep, "connection:%s.%s" % (s[7:], fn), l, "%s.%s, shared between callers and the network thread," % (s[7:], fn))
            else:
                nt += 1
                judge(rep, "thread-shared:%s" % o[0], l, "memory shared with a running thread")
        rep.need("guarded process-wide variables in " + cfg, ng, 5)
        rep.need("shared connection fields in " + cfg, nf, 5)
        rep.need("thread-shared objects in " + cfg, nt, 2)
        nc = 0
        for n, f in P.fn.items():
            for i in f.insts():
                if i.op == "call" and i.cname:
                    nc += 1
                    if i.cname in conc.NONREENTRANT:
                        rep.obl(False, "non-reentrant:%s:%s" % (n, i.cname), i.loc, "%s keeps hidden static state and is called from a function documented as thread-safe" % i.cname)
        rep.count("calls_screened_for_non_reentrant_functions", nc)
        rep.nobl += 1


def judge(rep, key, l, what):
    if not l:
        return
    common = set(l[0][3])
    for x in l:
        common &= x[3]
    if common:
        rep.obl(True, key, "", "")
        rep.nobl += len(l) - 1
        return
    # blame the accesses outside the lock most accesses hold
    cnt = {}
    for x in l:
        for h in x[3]:
            cnt[h] = cnt.get(h, 0) + 1
    best = max(cnt, key=cnt.get) if cnt else None
    for x in l:
        if best is None or best not in x[3]:
            rep.obl(False, "%s:%s" % (key, x[0]), x[1], "%s is %s in %s without %s" % (what, "written" if x[2] == "w" else "read", x[0], best or "any lock"))

"""NIP-13 proof of work."""
import gate, prog, layout, mine
from spec import *

TECHNIQUE = "path-sensitive must-pass gate dataflow over LLVM IR with symbolic buffer provenance"


def check(rep, tier):
    rep.expl = ("All success paths of proof-of-work verification and of the miners were explored. Verification requires the difficulty of the event's id to have been found at "
                "least the requested minimum, a nonce tag, and, where a positive committed target is present, difficulty at least that target. The single-threaded miner only "
                "reports success in a state where the id was recomputed after the last nonce update and its difficulty was found at least the target. Threaded mining: on every path of the "
                "worker routine the outcome is announced only after the id was recomputed over the event as it stands and found to reach the target, with the lock held and the stop "
                "flag set before it is released; the event is changed only after the stop flag was found clear under the same lock; the coordinator clears each outcome field, leaves "
                "the event alone while workers run and reports success only when some worker announced it.")
    for cfg in CONFIGS:
        L = layout.layout(cfg)
        DIF = ("nostr_nip13_calculate_difficulty", ("arg", 0))
        def isdif(t):
            return t[0] in ("nostr_nip13_calculate_difficulty",) or t[:2] == ("ret", "nostr_nip13_calculate_difficulty")
        def ofid(t):
            return t[-1] == ("arg", 0) or t[-1] == ("gep", ("arg", 0), L.off[("nostr_event", "id")][0])
        def committed(f):
            for t in f.heads("atoi", "strtol"):
                if f.any(lambda p, a, b: a == t and b[0] == "c" and p in ("sle", "slt", "eq") and gate.sgn(b[1], 32) <= 0):
                    continue
                if f.any(lambda p, a, b: p in ("sge", "sgt") and isdif(a) and b == t):
                    continue
                return False
            if not f.heads("atoi", "strtol"):
                # the third value must have been found absent
                def cnt(t):
                    return t[0] in ("ld", "mem") and "80, 8" in repr(t)
                return f.any(lambda p, a, b: p in ("ult", "ule", "eq") and cnt(a) and b[0] == "c" and b[1] in (2, 3, 0))
            return True
        judge(rep, cfg, "nostr_nip13_verify_pow", [
            ("difficulty", "proof of work is accepted without the id's difficulty having been found at least the requested minimum",
             lambda f: f.any(lambda p, a, b: p == "sge" and isdif(a) and ofid(a) and b == ("arg", 1))),
            ("minimum", "proof of work is accepted for a non-positive minimum", lambda f: f.any(lambda p, a, b: a == ("arg", 1) and (p == "sge" and b == ("c", 1) or p == "sgt" and b == ("c", 0)))),
            ("commitment", "proof of work is accepted although a positive committed target is present that the difficulty was not found to reach", committed),
        ])
        EV = lambda f: None
        def mined(f):
            # the id in the event is the recomputed one and its difficulty reached the target
            return f.any(lambda p, a, b: p == "sge" and isdif(a) and ofid(a) and b == ("arg", 1)) and \
                any(f.zero(t) and t[1][0] == "evid" for t in f.heads("nostr_event_compute_id")) and f.content(0, 0, 32)[0] == "evid"
        judge(rep, cfg, "nostr_nip13_mine_event", [
            ("target", "mining reports success without the id recomputed over the final fields having been found to reach the target", mined)], models=evid_model(L))
        P, f, r = mine.run(cfg)
        rep.fns.add(mine.MAIN)
        if r is None:
            judge(rep, cfg, mine.MAIN, [("delegates", "threaded mining reports success without the single-threaded miner having succeeded on the same event and target",
                                         lambda f: any(f.zero(t) and a[:2] == (("arg", 0), ("arg", 1)) for t, a in
                                                       [(t, t[3:]) for t in f.heads("ret") if t[1] == "nostr_nip13_mine_event"] + [(t, t[1:]) for t in f.heads("nostr_nip13_mine_event")]))])
            continue
        w, m = r
        rep.count("worker_announcements", w.npub)
        rep.count("worker_event_changes", w.nmod)
        rep.need("event changes in the mining worker", w.nmod, 1)
        rep.need("announcements in the mining worker", w.npub, 1)
        rep.need("success returns of threaded mining", m.nsucc, 1)
        for c, tag in ((w, "worker"), (m, "coordinator")):
            rep.fns.add(c.fn.name)
            seen = set()
            for i, why, tr in c.bad:
                if why not in seen:
                    seen.add(why)
                    rep.obl(False, "%s:%s" % (tag, why.split(":")[0][:60]), loc(c.fn, i), why + " [%s configuration]" % cfg, tr)
            if not c.bad:
                rep.obl(True, tag, cfg)

"""Relay-side full validation."""
import gate, prog, layout
from ir import Const
from spec import *
from gate import Facts

TECHNIQUE = "path-sensitive must-pass gate dataflow over LLVM IR; result-struct/return agreement on every path"


def check(rep, tier):
    rep.expl = ("All paths of full event validation, the timestamp check and the expiry predicate were explored. Success requires the facts: timestamp within "
                "the allowed future window, not expired now, event verification succeeded on the same event. On every path the result record agrees with the "
                "returned code. The timestamp and expiry predicates are decided as exact boundary comparisons on every path.")
    rep.assume = ["nostr_event_verify itself is decided by P01", "the wall clock does not overflow 63 bits when the window is added"]
    for cfg in CONFIGS:
        L = layout.layout(cfg)
        E = L.enums
        TS = fld(L, "nostr_event", "created_at")
        vo, vs = L.off[("nostr_validation_result_t", "valid")][:2]
        eo, es = L.off[("nostr_validation_result_t", "error_code")][:2]
        inter = None
        c = judge(rep, cfg, "nostr_event_validate_full", [
            ("timestamp", "validation succeeds without the timestamp having been checked against the caller's future window",
             lambda f: f.nonzero(("nostr_validate_timestamp", TS, ("arg", 1)))),
            ("expiry", "validation succeeds without the event having been found unexpired",
             lambda f: f.zero(("nostr_event_is_expired_now", ("arg", 0))) or
             any(t[1] == ("arg", 0) and f.zero(t) for t in f.heads("nostr_event_is_expired"))),
            ("verified", "validation succeeds without the event's id and signature having been verified",
             lambda f: f.zero(("nostr_event_verify", ("arg", 0)))),
            ("result-valid", "validation returns success but the result record does not say valid",
             lambda f: f.content(2, vo, vs) == ("c", 1)),
            ("result-code", "validation returns success but the result record carries an error code",
             lambda f: f.content(2, eo, es) == ("c", E["NOSTR_RELAY_OK"])),
        ], models=evid_model(L), pure=("nostr_event_verify",))
        for st, i, v in c.bad:
            f = Facts(c, c.E, st)
            if f.has("eq", ("arg", 2), ("c", 0)):
                continue
            k = c.E.ev(st, v)
            ok1 = f.content(2, vo, vs) == ("c", 0)
            ok2 = k is not None and f.content(2, eo, es) == ("c", k)
            ln = loc(c.fn, i)
            rep.obl(ok1, "nostr_event_validate_full:fail-valid:%s" % k, ln, "a failure return leaves the result record saying valid", c.E.trail_lines(st))
            rep.obl(ok2, "nostr_event_validate_full:fail-code:%s" % k, ln, "a failure return (%s) disagrees with the code in the result record (%s)" % (k, f.content(2, eo, es)), c.E.trail_lines(st))
        rep.need("failure returns of full validation", len(c.bad), 4)

        # timestamp: accepted iff ts <= now + window
        now = ("ret", "nostr_timestamp_now")
        def isnow(t):
            return t[:2] == now or t[0] in ("nostr_timestamp_now",)
        def lim(t):
            return t[0] == "add" and len(t) == 3 and ("arg", 1) in t[1:] and any(isnow(x) for x in t[1:])
        def rel(f, preds):
            return f.any(lambda p, a, b: p in preds and a == ("arg", 0) and lim(b)) or sub(f, preds)
        def sub(f, preds):
            # ts - now <= window, or ts - window <= now
            def d1(t):
                return t[0] == "sub" and t[1] == ("arg", 0) and isnow(t[2])
            def d2(t):
                return t[0] == "sub" and t[1] == ("arg", 0) and t[2] == ("arg", 1)
            return f.any(lambda p, a, b: p in preds and (d1(a) and b == ("arg", 1) or d2(a) and isnow(b)))
        judge(rep, cfg, "nostr_validate_timestamp", [
            ("upper-bound", "a timestamp is accepted without having been found <= now + window", lambda f: rel(f, ("sle",)))], succ=gate.succ_nonzero)
        judge(rep, cfg, "nostr_validate_timestamp", [
            ("no-overreject", "a timestamp is rejected without having been found > now + window", lambda f: rel(f, ("sgt",)))], succ=gate.succ_zero)
        # expiry: expired iff expiration present and now > expiration
        def exp(t):
            return t[0] == "nostr_event_get_expiration" or t[:2] == ("ret", "nostr_event_get_expiration")
        judge(rep, cfg, "nostr_event_is_expired", [
            ("strictly-after", "reported expired without now > expiration", lambda f: f.any(lambda p, a, b: p == "sgt" and a == ("arg", 1) and exp(b))),
            ("has-expiration", "reported expired although the event carries no expiration", lambda f: any(exp(t) and f.nonzero(t) for t in f.sub) or
             f.any(lambda p, a, b: p == "sgt" and exp(a) and b == ("c", 0)))], succ=gate.succ_nonzero)
        judge(rep, cfg, "nostr_event_is_expired", [
            ("else-live", "reported live although an expiration is present and has passed",
             lambda f: any(exp(t) and f.zero(t) for t in f.sub) or f.any(lambda p, a, b: exp(a) and b == ("c", 0) and p == "sle") or
             f.any(lambda p, a, b: p == "sle" and a == ("arg", 1) and exp(b)))], succ=gate.succ_zero)
        judge(rep, cfg, "nostr_event_is_expired_now", [
            ("delegates", "the current-time expiry predicate says live without the expiry predicate having said so for the same event",
             lambda f: any(f.zero(t) and t[1] == ("arg", 0) and isnow(t[2]) for t in f.heads("nostr_event_is_expired")) or
             any(f.any(lambda p, a, b: p == "sle" and isnow(a) and exp(b)) or exp(t) and f.zero(t) for t in f.sub))], succ=gate.succ_zero)
        judge(rep, cfg, "nostr_event_is_expired_now", [
            ("delegates-true", "the current-time expiry predicate says expired without the expiry predicate having said so for the same event",
             lambda f: any(f.nonzero(t) and t[1] == ("arg", 0) and isnow(t[2]) for t in f.heads("nostr_event_is_expired")) or
             any(f.any(lambda p, a, b: p == "sgt" and isnow(a) and exp(b)) for t in f.sub))], succ=gate.succ_nonzero)
        def tagexp(f):
            t = f.val
            return t == ("c", 0) or t[0] in ("strtoll", "strtol") and t[2] == ("c", 10) and \
                "nostr_event_get_tag_value" in repr(t[1]) and "'expiration'" in repr(t[1]) and f.any(lambda p, a, b: p == "sge" and a == t and b == ("c", 0)
                                                                                                or p == "sgt" and a == t)
        judge(rep, cfg, "nostr_event_get_expiration", [
            ("value", "the expiration reported is neither 0 nor the non-negative decimal value of the event's expiration tag", tagexp)], succ=lambda E, st, v: [st])

"""Tag queries and accessors answer from exactly the data asked for."""
import esp, gate, prog, layout, tagq
from tagq import norm, cst, load, plus, times, atom
from front import Broken
from spec import CONFIGS, loc

TECHNIQUE = "path-sensitive dataflow over LLVM IR with symbolic terms: reasons for passing a tag over are collected per loop round, answers are compared with the address of the tag that was found to match"

A0, A1, A2 = ("arg", 0), ("arg", 1), ("arg", 2)
FIND = {"nostr_event_get_tag_value": (2, "value"), "nostr_event_find_tag": (1, "tag"), "nostr_event_has_tag": (1, "bool")}


def run(P, fn, c):
    E = esp.Engine(fn, c, P.fx, 60000)
    E.run()
    c.E, c.steps = E, E.steps
    return c


def val(c, st, v):
    k = c.E.ev(st, v)
    return ("c", k) if k is not None else c.vterm(c.E, st, v)


def ended(c, st, room=None):
    """every tag was looked at, or there is nothing to look at"""
    for p, a, b in st.ts.F:
        for q, x, y in ((p, a, b), (gate.SW[p], b, a)):
            if y == ("c", 0) and q in ("eq", "ule") and (x[0] == "arg" or x[0] in ("mem", "ld") and norm(x) in (c.tags, c.cnt)):
                return True
            if q in ("uge", "eq", "ugt") and norm(y) == c.cnt and x[0] != "c":
                return True
            # the loop walks a pointer to the end
            if q in ("uge", "eq", "ugt") and norm(y) == plus(c.tags, times(c.cnt, c.TAG)):
                return True
            if room is not None and q in ("uge", "eq", "ugt") and y == ("arg", room):
                return True
    return False


def sub(c, st, name, want):
    """an earlier query of this kind, asked about the same event and name: found / not found"""
    for p, a, b in st.ts.F:
        for q, x, y in ((p, a, b), (gate.SW[p], b, a)):
            if x[0] == name and y == ("c", 0) and len(x) >= 3 and x[1] == A0 and (x[2] == c.name or x[2] == c.name[1]) and (q == "eq") == (want == "no") and q in ("eq", "ne"):
                return x
    return None


def result(c, st, v, kind):
    """does the answer come from a tag that matched?"""
    t = norm(v)
    for b in c.heads:
        for T, p in c.cands(c.E, st, b):
            r = c.reasons(c.E, st, T)
            if "match" in r and "long" in r and t == {"value": load(plus(load(T, 8), cst(8)), 8), "tag": T, "bool": cst(1)}[kind]:
                return True
            if kind == "value" and v == ("c", 0) and "match" in r and "long" in r and "null" in r:
                return True
    x = sub(c, st, "nostr_event_find_tag", "yes")
    if x:
        T = norm(x)
        r = c.reasons(c.E, st, T)
        if kind == "bool" and v == ("c", 1) or kind == "tag" and t == T or kind == "value" and "long" in r and t == load(plus(load(T, 8), cst(8)), 8):
            return True
        if kind == "value" and v == ("c", 0) and "null" in r:
            return False
    return False


def find(P, L, fn, need, kind, name):
    f = P.get(fn)
    c = run(P, f, tagq.TagQ(P, f, L, need, name, norm(A0)))
    bad = []
    for st, i, v in c.good:
        t = val(c, st, v)
        if t == ("c", 0) or kind == "bool" and t[0] != "c":
            if not (ended(c, st) or sub(c, st, "nostr_event_find_tag", "no") or result(c, st, t, kind)):
                bad.append((i, "the answer is \"none\" before every tag was looked at" if kind != "bool" else "the answer is no before every tag was looked at", c.E.trail_lines(st)))
            continue
        if delegated(t, fn, c):
            continue
        if not result(c, st, t, kind):
            bad.append((i, "the answer is not taken from a tag that was found to match", c.E.trail_lines(st)))
    return c, bad + [(b.insts[-1] if b.insts else None, w, tr) for b, w, tr in c.skip]


def delegated(t, fn, c):
    return t[0] == "nostr_event_find_tag" and fn == "nostr_event_find_tag"


def report(rep, cfg, fn, f, c, bad, n=1):
    rep.fns.add(fn)
    rep.count("states_at_return", c.nret)
    rep.count("loop_rounds", getattr(c, "nit", 0))
    rep.count("engine_steps", c.steps)
    if not bad:
        rep.obl(True, fn, cfg)
    seen = set()
    for i, why, tr in bad:
        if why not in seen:
            seen.add(why)
            rep.obl(False, "%s:%s" % (fn, why[:40]), loc(f, i), "%s: %s [%s configuration]" % (fn, why, cfg), tr)


def queries(rep, cfg, P, L):
    for fn, (need, kind) in FIND.items():
        c, bad = find(P, L, fn, need, kind, ("arg", A1))
        report(rep, cfg, fn, c.fn, c, bad)
    # all values
    fn = "nostr_event_get_tag_values"
    f = P.get(fn)
    c = run(P, f, tagq.TagQ(P, f, L, 2, ("arg", A1), norm(A0), room=(2, 3)))
    bad = [(b.insts[-1], w, tr) for b, w, tr in c.skip] + c.wrong
    for st, i, v in c.good:
        t = val(c, st, v)
        if not ended(c, st, 3):
            bad.append((i, "the answer ends before every tag was looked at", c.E.trail_lines(st)))
        if t != ("c", 0) and not counter(c, st, t):
            bad.append((i, "the number returned is not the number of values found", c.E.trail_lines(st)))
    if not c.nstore:
        raise Broken("%s: no stores into the caller's array" % fn)
    report(rep, cfg, fn, f, c, bad)
    # "d"
    fn = "nostr_event_get_d_tag"
    f = P.get(fn)
    c = gate.run(P, fn, lambda E, st, v: [st])
    if all(deleg_d(val(c, st, v)) for st, i, v in c.good):
        report(rep, cfg, fn, f, c, [])
    else:
        c, bad = find(P, L, fn, 2, "value", ("s", "d"))
        report(rep, cfg, fn, f, c, bad)
    # ids and keys
    for fn, nm in (("nostr_event_get_e_tags_binary", "e"), ("nostr_event_get_p_tags_binary", "p")):
        f = P.get(fn)
        c = run(P, f, BinQ(P, f, L, 2, ("s", nm), norm(A0), binary=True))
        bad = [(b.insts[-1], w, tr) for b, w, tr in c.skip] + c.wrong
        for st, i, v in c.good:
            t = val(c, st, v)
            if t == ("c", 0):
                if not (ended(c, st) or nomem(c, st)):
                    bad.append((i, "the answer is \"none\" before every tag was looked at", c.E.trail_lines(st)))
            else:
                n = c.cont(c.E, st, f.args[1], 0, 8)
                if not counter(c, st, n):
                    bad.append((i, "the number reported is not the number of values found", c.E.trail_lines(st)))
        if not c.ndec:
            raise Broken("%s: no decoding call" % fn)
        report(rep, cfg, fn, f, c, bad)


def nomem(c, st):
    return any(p == "eq" and (a == ("c", 0) or b == ("c", 0)) and ("malloc" in repr((a, b)) or "calloc" in repr((a, b)) or (a if b == ("c", 0) else b)[0] in ("v", "ret", "call")) for p, a, b in st.ts.F)


def deleg_d(t):
    return t == ("nostr_event_get_tag_value", A0, ("s", "d"))


def counter(c, st, t):
    t = norm(t)
    if t == cst(0):
        return True
    for b in c.heads:
        for T, p in c.cands(c.E, st, b):
            for q in c.heads[b]:
                if q is not p and q.ty != "ptr" and q.w == 64 and c.pos(c.E, st, q) == t:
                    return True
    return False


class BinQ(tagq.TagQ):
    """decoded into consecutive slots of a fresh array"""
    ndec = 0

    def call_model(self, E, st, i):
        if i.cname in ("nostr_hex_decode", "nostr_hex_to_bytes"):
            self.ndec += 1
            src = norm(self.vterm(E, st, i.ops[0]))
            dst = norm(self.vterm(E, st, i.ops[1 if i.cname == "nostr_hex_decode" else 2]))
            ok = False
            for b in self.heads:
                for T, p in self.cands(E, st, b):
                    r = self.reasons(E, st, T)
                    ctr = [q for q in self.heads[b] if q is not p and q.ty != "ptr" and q.w == 64]
                    d = [q for q in ctr if slot(dst, self.pos(E, st, q)) or slot(dst, norm(self.vterm(E, st, q)))]
                    if src == load(plus(load(T, 8), cst(8)), 8) and "match" in r and "long" in r and d:
                        ok = True
            if not ok:
                self.wrong.append((i, "what is decoded is not the matching tag's value into the next slot", E.trail_lines(st)))
        return tagq.TagQ.call_model(self, E, st, i)


def slot(dst, idx):
    """dst = array + 32 * idx"""
    r = plus(dst, times(idx, 32), -1)
    return r[1] == 0 and len(r[2]) == 1 and r[2][0][1] == 1


# ---- accessors
def fo(L, r, f):
    return L.off[(r, f)][:2]


def accessors(rep, cfg, P, L):
    F, EV = "nostr_filter_t", "nostr_event"
    fld = lambda r, f, a=A0: load(plus(norm(a), cst(fo(L, r, f)[0])), fo(L, r, f)[1])
    n = 0
    # plain values: the field, or a neutral answer without an object
    for fn, (r, f) in sorted({
            "nostr_filter_get_since": (F, "since"), "nostr_filter_get_until": (F, "until"), "nostr_filter_get_limit": (F, "limit"), "nostr_filter_get_search": (F, "search"),
            "nostr_event_get_kind": (EV, "kind"), "nostr_event_get_created_at": (EV, "created_at"), "nostr_event_get_content": (EV, "content"), "nostr_event_get_tag_count": (EV, "tags_count"),
            "nostr_tag_get_value_count": ("nostr_tag", "count")}.items()):
        if fn not in P.fn:
            continue
        n += 1
        each(rep, cfg, P, fn, lambda c, st, t, r=r, f=f: (None if none(c, st, t, A0) or same(c, st, t, fld(r, f)) else "the value is not the object's %s" % f))
    # addresses of parts
    for fn, f in (("nostr_event_get_id", "id"), ("nostr_event_get_pubkey", "pubkey"), ("nostr_event_get_sig", "sig")):
        if fn in P.fn:
            n += 1
            each(rep, cfg, P, fn, lambda c, st, t, f=f: None if none(c, st, t, A0) or norm(t) == plus(norm(A0), cst(fo(L, EV, f)[0])) else "the address is not that of the event's %s" % f)
    # lists with their number of elements
    for fn, f in (("ids", "ids"), ("authors", "authors"), ("kinds", "kinds"), ("e_tags", "e_tags"), ("p_tags", "p_tags")):
        fn = "nostr_filter_get_" + fn
        if fn in P.fn:
            n += 1
            each(rep, cfg, P, fn, lambda c, st, t, f=f: pair(c, st, t, A0, fld(F, f), fld(F, f + "_count"), 1))
    T = load(plus(norm(A0), cst(fo(L, EV, "tags")[0])), 8)
    N = fld(EV, "tags_count")
    E_ = lambda c, st: beyond(st, A1, N) or isnull(st, T) or isnull(st, norm(A0))
    ti = plus(T, times(norm(A1), 16))
    n += 4
    each(rep, cfg, P, "nostr_event_get_tag", lambda c, st, t: None if t == ("c", 0) and E_(c, st) or norm(t) == ti and not_beyond(st, A1, N) else "not the tag at the index asked for")
    each(rep, cfg, P, "nostr_event_get_tag_at", lambda c, st, t: (None if E_(c, st) and cnt_is(c, st, 2, cst(0)) else "no tag although the index exists, or the length is not reported as 0") if t == ("c", 0) and not same(c, st, t, load(ti, 8))
         else (None if same(c, st, t, load(ti, 8)) and cnt_is(c, st, 2, load(plus(ti, cst(8)), 8)) and not_beyond(st, A1, N) else "not the tag at the index asked for, with its length"))
    V, C = load(norm(A0), 8), load(plus(norm(A0), cst(8)), 8)
    each(rep, cfg, P, "nostr_tag_get_value", lambda c, st, t: None if same(c, st, t, load(plus(V, times(norm(A1), 8)), 8)) and not_beyond(st, A1, C) or
         t == ("c", 0) and (beyond(st, A1, C) or isnull(st, V) or isnull(st, norm(A0))) else "not the string at the index asked for")
    each(rep, cfg, P, "nostr_tag_get_name", lambda c, st, t: None if same(c, st, t, load(V, 8)) and atleast(st, C, 1) or
         t == ("c", 0) and (isnull(st, C) or isnull(st, V) or isnull(st, norm(A0)) or below1(st, C)) else "not the tag's first string")
    # the cursor
    ev = load(norm(A0), 8)
    cur = load(plus(norm(A0), cst(8)), 8)
    T2, N2 = load(plus(ev, cst(fo(L, EV, "tags")[0])), 8), load(plus(ev, cst(fo(L, EV, "tags_count")[0])), 8)
    tc = plus(T2, times(cur, 16))

    def nxt(c, st, t):
        moved = norm(c.cont(c.E, st, c.fn.args[0], 8, 8)) if not isnull(st, norm(A0)) else None
        end = isnull(st, norm(A0)) or isnull(st, ev) or isnull(st, T2) or any(gate_uge(p, a, b, cur, N2) for p, a, b in st.ts.F)
        if end:
            return None if t == ("c", 0) and cnt_is(c, st, 1, cst(0)) and moved in (None, cur) else "at the end, the answer is not \"none\" with length 0"
        if not same(c, st, t, load(tc, 8)) or not cnt_is(c, st, 1, load(plus(tc, cst(8)), 8)):
            return "the answer is not the tag the cursor is at, with its length"
        return None if moved == plus(cur, cst(1)) else "the cursor does not move to the next tag"
    each(rep, cfg, P, "nostr_tag_iterator_next", nxt)
    each(rep, cfg, P, "nostr_tag_iterator_init", lambda c, st, t: None if isnull(st, norm(A0)) or norm(c.cont(c.E, st, c.fn.args[0], 0, 8)) == norm(A1) and c.cont(c.E, st, c.fn.args[0], 8, 8) == ("c", 0) else "the cursor does not start at the event's first tag")
    n += 2
    # tag constraints by letter
    fn = "nostr_filter_get_tag_values"
    f = P.get(fn)
    c = run(P, f, tagq.GenQ(P, f, L, 0, ("arg", A1), norm(A0)))
    bad = [(b.insts[-1], w, tr) for b, w, tr in c.skip]
    for st, i, v in c.good:
        t = val(c, st, v)
        w = letters(c, st, t, L, fld)
        if w:
            bad.append((i, w, c.E.trail_lines(st)))
    report(rep, cfg, fn, f, c, bad)
    # does the filter constrain tags at all
    cs = [fld(F, x + "_count") for x in ("e_tags", "p_tags", "generic_tags")]
    each(rep, cfg, P, "nostr_filter_has_tag_filters", lambda c, st, t: (None if isnull(st, norm(A0)) or all(below1(st, x) for x in cs) else "the answer is no although a tag constraint may be present") if t == ("c", 0)
         else (None if t == ("c", 1) and any(atleast(st, x, 1) for x in cs) else "the answer is yes although no tag constraint was seen"))
    n += 2
    return n


def letters(c, st, t, L, fld):
    F = "nostr_filter_t"
    for k, f in ((101, "e_tags"), (112, "p_tags")):
        if fact(st, "eq", A1, ("c", k)):
            if t[:2] == ("ret", "nostr_filter_get_" + f) and t[3:] == (A0, A2) or pair(c, st, t, A0, fld(F, f), fld(F, f + "_count"), 2) is None:
                return None
            return "'%s' is not answered from the filter's %s" % (chr(k), f)
    if not all(fact(st, "ne", A1, ("c", k)) for k in (101, 112)) and not isnull(st, norm(A0)):
        return "the letter was not compared with those the filter keeps apart"
    for b in c.heads:
        for T, p in c.cands(c.E, st, b):
            if "match" in c.reasons(c.E, st, T):
                o = L.off
                if same(c, st, t, load(plus(T, cst(o[("nostr_generic_tag_filter_t", "values")][0])), 8)) and cnt_is(c, st, 2, load(plus(T, cst(o[("nostr_generic_tag_filter_t", "values_count")][0])), 8)):
                    return None
                return "the answer is not the matching constraint's values with their number"
    return None if t == ("c", 0) and cnt_is(c, st, 2, cst(0)) and ended(c, st) else "the answer is \"none\" before every constraint was looked at"


def fact(st, p, a, b):
    return (p, a, b) in st.ts.F or (gate.SW[p], b, a) in st.ts.F


def isnull(st, t):
    return any(q in ("eq", "ule") and y == ("c", 0) and x[0] != "c" and norm(x) == t for p, a, b in st.ts.F for q, x, y in ((p, a, b), (gate.SW[p], b, a)))


def below1(st, t):
    return any((q in ("eq", "ule") and y == ("c", 0) or q == "ult" and y == ("c", 1)) and x[0] != "c" and norm(x) == t for p, a, b in st.ts.F for q, x, y in ((p, a, b), (gate.SW[p], b, a)))


def atleast(st, t, k):
    return any(x[0] != "c" and y[0] == "c" and norm(x) == t and (q == "uge" and y[1] >= k or q == "ugt" and y[1] >= k - 1 or q == "ne" and y[1] == 0 and k == 1 or q == "eq" and y[1] >= k) for p, a, b in st.ts.F
               for q, x, y in ((p, a, b), (gate.SW[p], b, a)))


def beyond(st, i, n):
    return any(q in ("uge", "ugt", "eq") and norm(x) == norm(i) and norm(y) == n for p, a, b in st.ts.F for q, x, y in ((p, a, b), (gate.SW[p], b, a)))


def not_beyond(st, i, n):
    return any(q == "ult" and norm(x) == norm(i) and norm(y) == n for p, a, b in st.ts.F for q, x, y in ((p, a, b), (gate.SW[p], b, a)))


def gate_uge(p, a, b, x, n):
    return p in ("uge", "ugt", "eq") and norm(a) == x and norm(b) == n or p in ("ule", "ult", "eq") and norm(b) == x and norm(a) == n


def same(c, st, t, want):
    """the value, or a null that was found to be the value"""
    return norm(t) == want or t[0] == "c" and any(q == "eq" and y == t and norm(x) == want for p, a, b in st.ts.F for q, x, y in ((p, a, b), (gate.SW[p], b, a)) if x[0] != "c")


def none(c, st, t, obj):
    return t == ("c", 0) and isnull(st, norm(obj))


def cnt_is(c, st, k, want):
    """*argument k holds the number (if the caller wants it)"""
    if isnull(st, ("+", 0, ((("arg", k), 1),))):
        return True
    t = c.cont(c.E, st, c.fn.args[k], 0, 8)
    return norm(t) == want or t == ("c", 0) and isnull(st, want)


def pair(c, st, t, obj, lst, cnt, k):
    if isnull(st, norm(obj)):
        return None if t == ("c", 0) and cnt_is(c, st, k, cst(0)) else "without a filter, the answer is not \"none\" with number 0"
    if same(c, st, t, lst) and cnt_is(c, st, k, cnt):
        return None
    if t == ("c", 0) and cnt_is(c, st, k, cst(0)) and isnull(st, cnt):
        return None
    return "the answer is not the filter's list with its own number of elements"


def each(rep, cfg, P, fn, ok):
    f = P.get(fn)
    c = run(P, f, gate.GateClient(P, f, lambda E, st, v: [st]))
    bad = []
    for st, i, v in c.good:
        w = ok(c, st, None if v is None else val(c, st, v))
        if w:
            bad.append((i, w, c.E.trail_lines(st)))
    report(rep, cfg, fn, f, c, bad)


def check(rep, tier):
    rep.expl = ("For each tag query all paths were followed. Per loop round: passing a tag over needs one of: too few strings, a null string, a name that compared different (binary queries: a value that is not 64 hex digits). "
                "An answer must be the value (or address) of the tag at the current position, after its name compared equal and its length was checked; \"none\" needs the end of the list. Collected values go to consecutive slots and are counted once each. "
                "Accessors: the value returned on each path is compared with the field (list and number) the accessor is named after.")
    rep.assume.append("an event's tags have at least one string each (kept by nostr_event_add_tag)")
    for cfg in CONFIGS:
        P, L = prog.prog(cfg), layout.layout(cfg)
        queries(rep, cfg, P, L)
        n = accessors(rep, cfg, P, L)
        rep.need("accessors (%s)" % cfg, n, 18)

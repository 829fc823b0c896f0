"""Documents written as JSON carry every field under its own name, whole and in order."""
import esp, gate, prog, layout, tagq, corr
from tagq import norm, cst, load, plus, times, atom
from corr import Ser, puts, parent
from ir import Inst, Const
from front import Broken
from spec import CONFIGS, loc
from props.p23 import fact

TECHNIQUE = "path-sensitive dataflow over LLVM IR with symbolic terms: the members and items attached to a document are recorded with the field their value was read from, and compared with the document's format when it is printed"

A0, A1, A2 = ("arg", 0), ("arg", 1), ("arg", 2)
B0 = norm(A0)


def fld(L, r, f, base=B0):
    o, s = L.f(r, f)
    return load(plus(base, cst(o)), s)


def vals(v):
    """the values a recorded value can be"""
    t = v[1]
    return set(t[1]) if t[0] == "alts" else {t}


def unbool(t):
    while t[0] == "+" and t[1] == 0 and len(t[2]) == 1 and t[2][0][1] == 1 and t[2][0][0][0] in ("trunc", "icmp"):
        x = t[2][0][0]
        if x[0] == "trunc":
            t = x[2]
        elif x[1] == "ne" and x[3] == cst(0):
            t = x[2]
        else:
            break
    return t


def below(st, t, k):
    """known: t < k (signed) / t == 0"""
    for p, a, b in st.ts.F:
        for q, x, y in ((p, a, b), (gate.SW[p], b, a)):
            if y[0] == "c" and x[0] != "c" and unbool(norm(x)) == t:
                v = gate.sgn(y[1], 64) if y[1] >= 1 << 63 else gate.sgn(y[1], 32) if y[1] >= 1 << 31 and y[1] < 1 << 32 else y[1]
                if q in ("slt", "ult") and v <= k or q in ("sle", "ule") and v <= k - 1 or q == "eq" and v < k:
                    return True
    return False


def above(st, t, k):
    """known: t >= k"""
    for p, a, b in st.ts.F:
        for q, x, y in ((p, a, b), (gate.SW[p], b, a)):
            if y[0] == "c" and x[0] != "c" and norm(x) == t:
                v = gate.sgn(y[1], 32) if y[1] >= 1 << 31 and y[1] < 1 << 32 else y[1]
                if q in ("sge", "uge") and v >= k or q in ("sgt", "ugt") and v >= k - 1 or q == "eq" and v >= k:
                    return True
    return False


def zero(st, t):
    return below(st, t, 1) and any((p == "eq" or p == "ule" or p == "ult") and t in (norm(a), norm(b)) for p, a, b in st.ts.F)


def about(*terms):
    """keep the facts that compare one of these values with a constant, and how far a loop has counted"""
    ts = set(terms)

    def interest(p, a, b):
        for x, y in ((a, b), (b, a)):
            if y[0] == "c" and x[0] != "c" and (x[0] == "v" or unbool(norm(x)) in ts):
                return True
        return False
    return interest


# ---- one member of an object
def member(st, o, nm, want, when, fieldterm):
    """want(value) -> bool; when: "always" | "set" (the field is a pointer or number: left out when 0) | "positive" """
    got = puts(st, o, nm)
    if not got:
        if when == "always":
            return "member \"%s\" is missing" % nm
        if when == "set" and zero(st, fieldterm) or when == "positive" and below(st, fieldterm, 1):
            return None
        return "member \"%s\" is left out although its field may be set" % nm
    if len(got) > 1 or not fits(st, want, got[0]):
        return "member \"%s\" does not carry its own field" % nm
    if when == "positive" and not above(st, fieldterm, 1):
        return "member \"%s\" is written although its field is not set" % nm
    return None


def isnum(t):
    return lambda v: v[0] == "num" and vals(v) == {t}


def isstr(t, empty=False):
    e = norm(("s", ""))
    return lambda v: v[0] == "str" and (vals(v) <= {t, e} and (t in vals(v) or empty == "known") if empty else vals(v) == {t})


def isbool(t):
    f = lambda v: v[0] == "bool" and {unbool(x) for x in vals(v)} == {t}
    f.of = t
    return f


def fits(st, want, v):
    if want(v):
        return True
    t = getattr(want, "of", None)
    if t is None or v[0] not in ("bool", "true", "false"):
        return False
    k = v[0] == "true" if v[0] != "bool" else bool(v[1][1]) if v[1][0] == "+" and v[1][2] == () else None
    return k is not None and (notzero(st, t) if k else zero(st, t))


def ishex(a, n):
    def ok(v):
        if v[0] != "text" or v[1][0] != "hex":
            return False
        x, k = v[1][1], v[1][2]
        if x[0] == "mem":
            x = plus(norm(x[1]), cst(x[2]))
        return x == a and k in (n, ("c", n))
    return ok


def written(c, st, argk=1):
    """the caller's buffer holds the whole printed text, and only that"""
    pr = [e for e in st.ts.u if e[0] == "printed"]
    if not pr:
        return "nothing was printed"
    t = c.cont(c.E, st, c.fn.args[argk], 0, None)
    P = lambda x: isinstance(x, tuple) and len(x) > 2 and x[0] == "ret" and x[1] in corr.PRINT and x[2] == pr[0][1]

    def haslen(x):
        m = norm(x)
        return m[0] == "+" and m[1] in (0, 1) and len(m[2]) == 1 and m[2][0][0][0] == "strlen" and m[1] == 1
    if t[0] == "copy" and haslen(t[2]) and "'%s', %d" % (t[1] and "cJSON_PrintUnformatted", pr[0][1]) in repr(t[1]):
        return None
    cp = [e for e in st.ts.u if e[0] == "whole" and e[1] == argk]
    if cp and cp[0][3] and str(pr[0][1]) in cp[0][2]:
        return None
    if t[0] == "fmt" and t[1] == ("s", "%s") and str(pr[0][1]) in repr(t[2]):
        return None
    if t[0] in ("mem", "at") and str(pr[0][1]) in repr(t):
        return None
    return "the buffer does not hold the whole printed document (%s)" % (t[0],)


JOBS = []


def drive(rep, cfg, P, fn, key, mk, final=None, need_print=True, post=None):
    """explore fn with the client mk() builds; its hooks report into badp. Jobs run in parallel."""
    JOBS.append((cfg, P, fn, key, mk, final, need_print, post))


def job(k):
    cfg, P, fn, key, mk, final, need_print, post = JOBS[k]
    f = P.get(fn)

    def fail(c):
        out = list(c.badp)
        if not out and final:
            for st, i, v in c.good:
                w = final(c, st)
                if w:
                    out.append((i, w, c.E.trail_lines(st)))
        c.out = out
        return out
    try:
        c = esp.explore(lambda: mk(f), f, P.fx, 60000, bad=fail, scales=(1, 4, 16))
        if need_print and not c.prints:
            raise Broken("%s: no document is printed" % fn)
        if not c.good:
            raise Broken("%s: no path succeeds" % fn)
        if post and not c.out:
            post()
    except Broken as e:
        return ("broken", str(e))
    bad = [(loc(f, i), w, tr) for i, w, tr in c.out[:1]]
    return (cfg, fn, key, c.E.steps, c.prints, len(c.good), bad)


def rundown(rep):
    import multiprocessing
    with multiprocessing.get_context("fork").Pool(8) as pool:
        res = pool.map(job, range(len(JOBS)), 1)
    for r in res:
        if r[0] == "broken":
            raise Broken(r[1])
        cfg, fn, key, steps, prints, good, bad = r
        rep.fns.add(fn)
        rep.count("engine_steps", steps)
        rep.count("prints_seen", prints)
        rep.count("success_states", good)
        k = "%s:%s" % (fn, key)
        if bad:
            rep.obl(False, k, bad[0][0], bad[0][1] + " [%s configuration]" % cfg, bad[0][2])
        else:
            rep.obl(True, k, cfg)


def checker(why):
    def h(c, E, st, i, o):
        w = why(c, E, st, o)
        if w:
            c.flag(E, st, i, w)
    return h


# ---- events
def events(rep, cfg, P, L):
    EV = "nostr_event"
    text = fld(L, EV, "content")
    at = lambda f: plus(B0, cst(L.f(EV, f)[0]))
    rows = [("id", ishex(at("id"), 32)), ("pubkey", ishex(at("pubkey"), 32)), ("created_at", isnum(fld(L, EV, "created_at"))), ("kind", isnum(fld(L, EV, "kind"))),
            ("content", "content"), ("sig", ishex(at("sig"), 64)), ("tags", "tags")]
    for nm, want in rows:
        def why(c, E, st, o, nm=nm, want=want):
            if o is None:
                return "what is printed was not built here"
            w = want
            if want == "content":
                w = lambda v: okcontent(st, v, text)
            if want == "tags":
                w = lambda v: v[0] == "node" and v[1][0] == "cJSON_CreateArray"
            return member(st, o, nm, w, "always", None)
        drive(rep, cfg, P, "nostr_event_to_json", nm, lambda f, nm=nm, why=why: Ser(P, f, gate.succ_zero, names={nm}, interest=about(text), at_print=checker(why)), final=outptr)
    tags(rep, cfg, P, L, "nostr_event_to_json")
    # the text an event's id is the hash of
    def why(c, E, st, o):
        seq = [e[2] for e in st.ts.u if e[0] == "seq" and e[1] == o]
        if not seq:
            return "what is printed is not a list built here"
        q = seq[0]
        want = [("the number 0", lambda v: v == ("num", cst(0))), ("the author's key in hex", ishex(at("pubkey"), 32)), ("the time", isnum(fld(L, EV, "created_at"))),
                ("the kind", isnum(fld(L, EV, "kind"))), ("the tags", lambda v: v[0] == "node" and v[1][0] == "cJSON_CreateArray" and v[1] != o), ("the content", lambda v: okcontent(st, v, text))]
        for k, (what, ok) in enumerate(want):
            if k >= len(q) or not ok(q[k]):
                return "item %d of the serialised event is not %s" % (k, what)
        return None if len(q) == len(want) else "the serialised event has further items"
    drive(rep, cfg, P, "nostr_event_compute_id", "sequence", lambda f: Ser(P, f, gate.succ_zero, names=set(), seqs=True, interest=about(text), at_print=checker(why)), final=lambda c, st: hashed(c, st, L))
    tags(rep, cfg, P, L, "nostr_event_compute_id")
    return len(rows) + 3


def okcontent(st, v, text):
    e = norm(("s", ""))
    if v[0] != "str":
        return False
    vs = vals(v)
    if vs == {e}:
        return zero(st, text)
    return vs <= {e, text} and text in vs


def outptr(c, st):
    """*arg1 is the printed text"""
    t = c.cont(c.E, st, c.fn.args[1], 0, 8)
    pr = [e for e in st.ts.u if e[0] == "printed"]
    if pr and t[0] == "ret" and t[1] in ("cJSON_Print", "cJSON_PrintUnformatted", "cJSON_PrintBuffered") and t[2] == pr[0][1]:
        return None
    return "the result is not the printed document"


def hashed(c, st, L):
    t = c.cont(c.E, st, c.fn.args[0], L.f("nostr_event", "id")[0], 32)
    pr = [e for e in st.ts.u if e[0] == "printed"]
    if t[0] == "sha256" and pr:
        r = repr(t[1])
        ln = norm(t[2])
        if "cJSON_PrintUnformatted', %d" % pr[0][1] in r and len(ln[2]) == 1 and ln[1] == 0 and ln[2][0][0][0] == "strlen" and ln[2][0][1] == 1:
            return None
    return "the id is not the SHA-256 of the whole compact text (%s)" % (t[0],)


def tags(rep, cfg, P, L, fn):
    """each inner list is one tag, its strings in order"""
    T = fld(L, "nostr_event", "tags")
    TAG = L.size["nostr_tag"]
    vo = L.f("nostr_tag", "values")[0]
    seen = []

    def item(c, E, st, i, o, k):
        if not c.inloop(E, i.bb):
            return
        if k[0] == "node":
            seen.append("tag")
            return
        v = i.ops[1]
        v = E.res(st, v)
        if not (isinstance(v, Inst) and v.op == "call" and v.cname in ("cJSON_CreateString", "cJSON_CreateStringReference")):
            if k[0] not in ("?",) or E.ev(st, v) != 0:
                c.flag(E, st, i, "what is put into a tag's list is not a string")
            return
        s = c.snorm(E, st, v.ops[0])
        xs = set(s[1]) if s[0] == "alts" else {s}
        xs.discard(norm(("s", "")))
        if c.vterm(E, st, v.ops[0]) == ("s", "") and not any(p == "eq" and ("c", 0) in (a, b) and interest(p, a, b) for p, a, b in st.ts.F):
            c.flag(E, st, i, "an empty string is put in place of a tag's string")
        for x in xs:
            # L(L(T + 16*i + vo) + 8*j)
            ok = False
            if len(x[2]) == 1 and x[1] == 0 and x[2][0][0][0] == "L":
                a = x[2][0][0][1]
                inner = [y for y, n in a[2] if y[0] == "L" and n == 1]
                for y in inner:
                    j = corr.index_of(plus(a, atom(y), -1), cst(0), 8)
                    ti = corr.index_of(plus(y[1], cst(-vo)), T, TAG)
                    if j is not None and ti is not None and corr.phi_of(c, j) is not None and corr.phi_of(c, ti) is not None:
                        pj, pi = corr.phi_of(c, j), corr.phi_of(c, ti)
                        import walk
                        bi, bj = walk.loop_body(E.info, pi.bb), walk.loop_body(E.info, pj.bb)
                        made = next((z for b in c.fn.blocks for z in b.insts if z.id == o[1]), None)
                        if pi is not pj and i.bb in bj and pj.bb in bi and made is not None and made.bb in bi and made.bb not in bj:
                            ok = True
            if not ok:
                c.flag(E, st, i, "a string put into a tag's list is not the tag's string at that position")
        if not xs:
            c.flag(E, st, i, "no string of the tag is put into its list")
        seen.append("string")
    def post():
        if "tag" not in seen or "string" not in seen:
            raise Broken("%s: tags are not written as lists of strings any more" % fn)

    def interest(p, a, b):
        return any(y == ("c", 0) and x[0] in ("ld", "mem") and deep(norm(x)) for x, y in ((a, b), (b, a)))

    def deep(t):
        return len(t[2]) == 1 and t[2][0][0][0] == "L" and any(y[0] == "L" and (repr(T[2][0][0]) in repr(y) or any(z[0] == "v" and z[1] in walkers for z, _ in y[1][2])) for y, n in t[2][0][0][1][2])
    walkers = {p.id for b in P.get(fn).blocks for p in b.insts if p.op == "phi" and corr.strider(p)}
    drive(rep, cfg, P, fn, "tag strings", lambda f: Ser(P, f, gate.succ_zero, names=set(), interest=interest, at_item=item), post=post)


# ---- messages to clients
def messages(rep, cfg, P, L):
    M = "nostr_relay_msg_t"
    ty = fld(L, M, "type")
    a = lambda f: isstr(plus(B0, cst(L.f(M, f)[0])))
    word = lambda w: (lambda v: v == ("str", norm(("s", w))))
    D = "data."
    fmt = {"EVENT": [a(D + "event.subscription_id"), lambda v: v == ("node", ("event", fld(L, M, D + "event.event")))],
           "OK": [a(D + "ok.event_id"), isbool(fld(L, M, D + "ok.success")), a(D + "ok.message")],
           "EOSE": [a(D + "eose.subscription_id")],
           "CLOSED": [a(D + "closed.subscription_id"), a(D + "closed.message")],
           "NOTICE": [a(D + "notice.message")],
           "AUTH": [a(D + "auth.challenge")],
           "COUNT": [a(D + "count.query_id"), "count"]}
    code = {k: L.enums["NOSTR_RELAY_MSG_" + k] for k in fmt}
    cnt, app = fld(L, M, D + "count.count"), fld(L, M, D + "count.approximate")
    seen = set()

    def why(c, E, st, o):
        q = [e[2] for e in st.ts.u if e[0] == "seq" and e[1] == o]
        k = [n for n, v in code.items() if known(st, ty, v)]
        if len(k) != 1 or not q:
            return "the message's type is not settled when it is printed"
        k, q = k[0], q[0]
        seen.add(k)
        if not q or not word(k)(q[0]):
            return "a message of type %s does not start with \"%s\"" % (k, k)
        if len(q) != len(fmt[k]) + 1:
            return "a message of type %s has %d items" % (k, len(q))
        for n, (ok, v) in enumerate(zip(fmt[k], q[1:])):
            if ok == "count":
                if v[0] != "node":
                    return "item %d of a COUNT message is not an object" % (n + 1)
                w = member(st, v[1], "count", isnum(cnt), "always", None)
                got = puts(st, v[1], "approximate")
                if not w and not got and not zero(st, app):
                    w = "an approximate count is not marked as such"
                if not w and got and not (got[0] == ("true",) or got[0][0] == "bool" and (unbool(got[0][1]) == app or got[0][1][2] == () and got[0][1][1] and notzero(st, app))):
                    w = "an exact count is marked approximate"
                if w:
                    return w
            elif not fits(st, ok, v):
                return "item %d of a %s message is not the field meant for it" % (n + 1, k)
    def post():
        if seen != set(fmt):
            raise Broken("nostr_relay_msg_serialize: message types %s are never printed" % sorted(set(fmt) - seen))
    drive(rep, cfg, P, "nostr_relay_msg_serialize", "items", lambda f: Ser(P, f, gate.succ_zero, names={"count", "approximate"}, seqs=True, interest=about(ty, app, fld(L, M, D + "ok.success")), at_print=checker(why)), final=written, post=post)
    return len(fmt)


def known(st, t, k):
    return any(p == "eq" and (norm(a) == t and b == ("c", k) or norm(b) == t and a == ("c", k)) for p, a, b in st.ts.F)


def notzero(st, t):
    return above(st, t, 1) or any(p == "ne" and (unbool(norm(a)) == t and b == ("c", 0) or unbool(norm(b)) == t and a == ("c", 0)) for p, a, b in st.ts.F) or \
        any(p == "eq" and (unbool(norm(a)) == t and b == ("c", 1)) for p, a, b in st.ts.F)


# ---- relay information
LIM = {"max_message_length": "positive", "max_subscriptions": "positive", "max_filters": "positive", "max_limit": "positive", "max_subid_length": "positive", "max_event_tags": "positive",
       "max_content_length": "positive", "min_pow_difficulty": "positive", "auth_required": "bool", "payment_required": "bool", "restricted_writes": "bool",
       "created_at_lower_limit": "positive", "created_at_upper_limit": "positive", "default_limit": "positive"}
STR = {"name": "name", "description": "description", "banner": "banner", "icon": "icon", "pubkey": "pubkey", "self": "self_pubkey", "contact": "contact", "software": "software", "version": "version",
       "privacy_policy": "privacy_policy", "terms_of_service": "terms_of_service", "posting_policy": "posting_policy", "payments_url": "payments_url"}
FEE = [("admission", "amount", "num", "always"), ("admission", "unit", "str", "set"), ("subscription", "amount", "num", "always"), ("subscription", "unit", "str", "set"), ("subscription", "period", "num", "positive"),
       ("publication", "amount", "num", "always"), ("publication", "unit", "str", "set")]
LISTS = {"supported_nips": "always", "relay_countries": "set", "language_tags": "set", "tags": "set"}


def info(rep, cfg, P, L):
    I, M = "nostr_relay_info_t", "nostr_relay_limitation_t"
    n = 0
    fn = "nostr_relay_limitation_serialize"
    for m, when in sorted(LIM.items()):
        t = fld(L, M, m)
        why = lambda c, E, st, o, m=m, when=when, t=t: member(st, o, m, isbool(t) if when == "bool" else isnum(t), "always" if when == "bool" else when, t)
        drive(rep, cfg, P, fn, m, lambda f, m=m, t=t, why=why: Ser(P, f, gate.succ_zero, names={m}, interest=about(t), at_print=checker(why)), final=written)
        n += 1
    fn = "nostr_relay_info_serialize"
    for m, when in sorted(LIM.items()):
        t = fld(L, I, "limitation." + m)

        def why(c, E, st, o, m=m, when=when, t=t):
            k = [v[1] for v in puts(st, o, "limitation") if v[0] == "node"]
            if len(k) != 1:
                return "the limits are not part of the document"
            return member(st, k[0], m, isbool(t) if when == "bool" else isnum(t), "always" if when == "bool" else when, t)
        drive(rep, cfg, P, fn, "limitation." + m, lambda f, m=m, t=t, why=why: Ser(P, f, gate.succ_zero, names={m, "limitation"}, interest=about(t), at_print=checker(why)), final=written)
        n += 1
    for m, f_ in sorted(STR.items()):
        t = fld(L, I, f_)
        why = lambda c, E, st, o, m=m, t=t: member(st, o, m, isstr(t), "set", t)
        drive(rep, cfg, P, fn, m, lambda f, m=m, t=t, why=why: Ser(P, f, gate.succ_zero, names={m}, interest=about(t), at_print=checker(why)), final=written)
        n += 1
    for m, when in sorted(LISTS.items()):
        n += 1
        listof(rep, cfg, P, L, fn, m, [m], fld(L, I, m), fld(L, I, m + "_count"), 4 if m == "supported_nips" else 8, when)
    RF, RT = "nostr_relay_fee_t", "nostr_relay_retention_t"
    kinds(rep, cfg, P, L, fn, ["retention"], fld(L, I, "retention"), fld(L, I, "retention_count"), RT)
    kinds(rep, cfg, P, L, fn, ["fees", "publication"], fld(L, I, "fees.publication"), fld(L, I, "fees.publication_count"), RF)
    n += 2
    for lst, m, kind, when in FEE + [("retention", "time", "num", "set"), ("retention", "count", "num", "positive")]:
        n += 1
        if lst == "retention":
            elements(rep, cfg, P, L, fn, [lst], fld(L, I, lst), fld(L, I, lst + "_count"), RT, m, kind, when)
        else:
            elements(rep, cfg, P, L, fn, ["fees", lst], fld(L, I, "fees." + lst), fld(L, I, "fees." + lst + "_count"), RF, m, kind, when)
    return n


def chain(st, o, path):
    """the node found under these names"""
    for nm in path:
        k = [v[1] for v in puts(st, o, nm) if v[0] == "node"]
        if len(k) != 1:
            return None
        o = k[0]
    return o


def emptyl(st, lst, cnt):
    return zero(st, lst) or zero(st, cnt)


def listof(rep, cfg, P, L, fn, key, path, lst, cnt, size, when):
    """a list of strings or numbers: the items come from the field's list, counting up"""
    arr = {}

    def item(c, E, st, i, o, k):
        v = E.res(st, i.ops[1])
        if not (isinstance(v, Inst) and v.op == "call" and v.cname in corr.LEAF) or not v.ops:
            return
        s = c.snorm(E, st, v.ops[0])
        ok = len(s[2]) == 1 and s[0] == "+" and s[1] == 0 and s[2][0][0][0] == "L"
        j = corr.index_of(s[2][0][0][1], lst, size) if ok else None
        arr.setdefault(o, set()).add(ok and j is not None and corr.phi_of(c, j) is not None)

    def why(c, E, st, o):
        a = chain(st, o, path)
        if a is None:
            return None if when == "set" and emptyl(st, lst, cnt) else "list \"%s\" is left out although it may have entries" % path[-1]
        if a[0] != "cJSON_CreateArray":
            return "\"%s\" is not a list" % path[-1]
        if arr.get(a) != {True}:
            return "list \"%s\" is not filled from its own field" % path[-1]
        if sum(1 for e in st.ts.u if e[0] == "put" and e[3] == ("node", a)) > 1:
            return "the list of \"%s\" is attached twice" % path[-1]
    drive(rep, cfg, P, fn, key, lambda f: Ser(P, f, gate.succ_zero, names=set(path), interest=about(lst, cnt), at_item=item, at_print=checker(why)), final=written)


def elements(rep, cfg, P, L, fn, path, lst, cnt, rec, m, kind, when):
    """objects of a list: each carries its member from the record at the same position"""
    o_, s_ = L.f(rec, m)
    size = L.size[rec]
    arr = {}

    def item(c, E, st, i, o, k):
        if k[0] != "node" or k[1][0] != "cJSON_CreateObject":
            return
        got = puts(st, k[1], m)
        w = None
        if got:
            pos = [e for e in st.ts.u if e[0] == "pos" and e[1] == k[1]]
            w = "wrong" if not pos else pos[0][2]
        arr.setdefault(o, []).append((w, i, st, E.trail_lines(st)))

    class S(Ser):
        def put(self, E, st, i, o, nm, v):
            Ser.put(self, E, st, i, o, nm, v)
            if nm == m and o is not None and len(i.ops) > 2:
                x = self.snorm(E, st, i.ops[2])
                ok = x[0] == "+" and x[1] == 0 and len(x[2]) == 1 and x[2][0][0][0] == "L" and x[2][0][0][2] == s_
                j = corr.index_of(plus(x[2][0][0][1], cst(-o_)), lst, size) if ok else None
                p = corr.phi_of(self, j) if j is not None else None
                good = "ok" if p is not None and v[0] == kind and x[2][0][0][2] == s_ else "wrong"
                if good == "ok" and when == "positive":
                    t = norm(self.vterm(E, st, corr.unfloat(E, st, i.ops[2])))
                    if not any(q in ("sgt", "ugt") and y == ("c", 0) or q == "ne" and y == ("c", 0) or q in ("sge", "uge") and y == ("c", 1) for a, b, d in st.ts.F for q, xx, y in ((a, b, d), (gate.SW[a], d, b)) if norm(xx) == t):
                        good = "unset"
                self.upd(st, [("pos", o, good)], [e for e in st.ts.u if e[0] == "pos" and e[1] == o])

        def about(self, e, key):
            return e[0] == "pos" and e[1] == key or Ser.about(self, e, key)

    def why(c, E, st, o):
        a = chain(st, o, path)
        if a is None:
            return None if emptyl(st, lst, cnt) or len(path) > 1 and chain(st, o, path[:1]) is None and zero(st, cnt) else "list \"%s\" is left out although it may have entries" % path[-1]
        rs = arr.get(a)
        if not rs:
            return "list \"%s\" gets no entries" % path[-1]
        for w, i, st2, tr in rs:
            if w in ("wrong", "unset"):
                return "member \"%s\" of an entry of \"%s\" does not carry its own field" % (m, path[-1])
            if w is None and (when == "always" or not elem_zero(c, E, st2, lst, size, o_, s_)):
                return "member \"%s\" of an entry of \"%s\" is left out although its field may be set" % (m, path[-1])

    def interest(p, a, b):
        for x, y in ((a, b), (b, a)):
            if y[0] == "c" and x[0] != "c":
                if x[0] == "v":
                    return True
                t = norm(x)
                if t in (lst, cnt) or len(t[2]) == 1 and t[2][0][0][0] == "L" and t[2][0][0][2] == s_ and corr.index_of(plus(t[2][0][0][1], cst(-o_)), lst, size) is not None:
                    return True
        return False
    drive(rep, cfg, P, fn, ".".join(path + [m]), lambda f: S(P, f, gate.succ_zero, names=set(path) | {m}, interest=interest, at_item=item, at_print=checker(why)), final=written)


def kinds(rep, cfg, P, L, fn, path, lst, cnt, rec):
    """the list of kinds inside each object of a list"""
    ko, kc = L.f(rec, "kinds"), L.f(rec, "kinds_count")
    size, ks = L.size[rec], 4
    objs, arr = {}, {}

    def item(c, E, st, i, o, k):
        if k[0] == "node" and k[1][0] == "cJSON_CreateObject":
            got = [v for v in puts(st, k[1], "kinds")]
            objs.setdefault(o, []).append((got, i, st, E.trail_lines(st)))
            return
        v = E.res(st, i.ops[1])
        if not (isinstance(v, Inst) and v.op == "call" and v.cname in corr.LEAF and v.ops):
            return
        s = c.snorm(E, st, v.ops[0])
        ok = False
        if s[0] == "+" and s[1] == 0 and len(s[2]) == 1 and s[2][0][0][0] == "L" and v.cname == "cJSON_CreateNumber":
            a = s[2][0][0][1]
            for y in [y for y, n in a[2] if y[0] == "L" and n == 1]:
                j = corr.index_of(plus(a, atom(y), -1), cst(0), s[2][0][0][2])
                ti = corr.index_of(plus(y[1], cst(-ko[0])), lst, size)
                pj, pi = j is not None and corr.phi_of(c, j), ti is not None and corr.phi_of(c, ti)
                if pj and pi and pj is not pi:
                    import walk
                    made = next((z for b in c.fn.blocks for z in b.insts if z.id == o[1]), None)
                    bi, bj = walk.loop_body(E.info, pi.bb), walk.loop_body(E.info, pj.bb)
                    ok = i.bb in bj and pj.bb in bi and made is not None and made.bb in bi and made.bb not in bj
        arr.setdefault(o, set()).add(ok)

    def why(c, E, st, o):
        a = chain(st, o, path)
        if a is None:
            return None if emptyl(st, lst, cnt) or len(path) > 1 and chain(st, o, path[:1]) is None and zero(st, cnt) else "list \"%s\" is left out although it may have entries" % path[-1]
        if not objs.get(a):
            return "list \"%s\" gets no entries" % path[-1]
        for got, i, st2, tr in objs[a]:
            if not got:
                if not elem_zero(c, E, st2, lst, size, *ko) and not elem_zero(c, E, st2, lst, size, *kc):
                    return "the kinds of an entry of \"%s\" are left out although it may have some" % path[-1]
            elif len(got) > 1 or got[0][0] != "node" or arr.get(got[0][1], {True}) != {True}:
                return "the kinds of an entry of \"%s\" are not the entry's own" % path[-1]
        if not any(k[0] != a[0] or True for k in arr):
            return "no kinds are written"

    def interest(p, a, b):
        for x, y in ((a, b), (b, a)):
            if y[0] == "c" and x[0] != "c":
                t = norm(x)
                if t in (lst, cnt) or len(t[2]) == 1 and t[2][0][0][0] == "L" and any(corr.index_of(plus(t[2][0][0][1], cst(-q[0])), lst, size) is not None for q in (ko, kc)):
                    return True
        return False
    drive(rep, cfg, P, fn, ".".join(path + ["kinds"]), lambda f: Ser(P, f, gate.succ_zero, names=set(path) | {"kinds"}, interest=interest, at_item=item, at_print=checker(why)), final=written)


def elem_zero(c, E, st, lst, size, o_, s_):
    for p, a, b in st.ts.F:
        for q, x, y in ((p, a, b), (gate.SW[p], b, a)):
            if y[0] == "c" and x[0] != "c":
                t = norm(x)
                if len(t[2]) == 1 and t[2][0][0][0] == "L" and corr.index_of(plus(t[2][0][0][1], cst(-o_)), lst, size) is not None:
                    if q == "eq" and y[1] == 0 or q in ("ule", "sle") and y[1] == 0 or q in ("slt", "ult") and y[1] == 1:
                        return True
    return False


def check(rep, tier):
    n = 0
    for cfg in CONFIGS:
        P, L = prog.prog(cfg), layout.layout(cfg)
        n += events(rep, cfg, P, L)
        n += messages(rep, cfg, P, L)
        n += info(rep, cfg, P, L)
    rundown(rep)
    rep.need("members and items with a rule", n, 100)
    rep.expl = "Each writer of a JSON document is explored along all paths, once per member; at every print the recorded members are compared with the format."
    rep.assume.append("cJSON prints the members and items it was given, in order; a failed cJSON_Add... is reported under the allocation property")

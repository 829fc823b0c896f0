"""Records are filled from exactly the data they are read or copied from."""
import esp, gate, prog, layout, origin, corr, walk, light
from tagq import norm, cst, load, plus
from ir import Inst, Const, Arg
from front import Broken
from spec import CONFIGS, loc
from origin import Origin, CONV

TECHNIQUE = "access-path dataflow over LLVM IR: for every store and copy into a record, the set of places its value is computed from is compared with the place that field stands for; a path-sensitive pass shows that a field left unwritten had nothing to be written from"

EMPTY = (("text", ""), ())


def strip(v):
    while isinstance(v, Inst) and v.op in CONV:
        v = v.ops[0]
    return v


def srcs(o, v):
    """source places; a walk over the children of a JSON node counts as a position"""
    out = set()
    for r, p in o.value(v):
        if r[0] in ("item", "root"):
            q = []
            for x in p:
                q.append("[]" if x == 16 and (not q or q[-1] == "[]") else x)
            p = tuple(q)
        out.add((r, p))
    return out


def loops(o):
    info = esp.info(o.fn)
    return {h: walk.loop_body(info, h) for h in info.headers}


def positions(o, v, seen=()):
    """the list positions taken on the way to a value: indices of addresses and of cJSON_GetArrayItem"""
    if not isinstance(v, Inst) or v in seen:
        return []
    seen = seen + (v,)
    if v.op == "gep":
        return [strip(x) for x, s in v.gep[1]] + positions(o, v.ops[0], seen)
    if v.op == "call":
        if v.cname == "cJSON_GetArrayItem":
            return [strip(v.ops[1])] + positions(o, v.ops[0], seen)
        if v.cname in origin.DUP or v.cname in ("strlen",):
            return positions(o, v.ops[0], seen)
        return []
    if v.op in ("load",) + CONV:
        return positions(o, v.ops[0], seen)
    if v.op in ("phi", "select"):
        out = []
        if v.op == "phi" and any(isinstance(x, Inst) and x.op == "gep" and x.ops[0] is v for x, b in v.inc):
            return [v] + sum([positions(o, x, seen) for x, b in v.inc if not (isinstance(x, Inst) and x.op == "gep" and x.ops[0] is v)], [])
        for x in ([x for x, b in v.inc] if v.op == "phi" else v.ops[1:]):
            out += positions(o, x, seen)
        return out
    return []


def stepping(i):
    """the position of a loop that takes every position from the first"""
    if isinstance(i, Inst) and i.op in ("add", "sub") and isinstance(i.ops[1], Const):
        k = i.ops[1].v if i.op == "add" else -i.ops[1].v
        return counter(strip(i.ops[0])) and all(not isinstance(x, Const) or x.v + k == 0 for x, b in strip(i.ops[0]).inc)
    return counter(i) and all(not isinstance(x, Const) or x.v == 0 for x, b in i.inc) or isinstance(i, Inst) and i.op == "phi" and bool(corr.strider(i))


def counter(i):
    """a loop counter going up by one"""
    if not (isinstance(i, Inst) and i.op == "phi"):
        return False
    return any(isinstance(x, Inst) and x.op == "add" and x.ops[0] is i and isinstance(x.ops[1], Const) and x.ops[1].v == 1 for x, b in i.inc)


def dead(b):
    """b is only reached over a branch that a constant rules out"""
    n = 0
    while b is not None and len(b.preds) == 1 and n < 50:
        p, n = b.preds[0], n + 1
        t = p.insts[-1]
        if t.op == "br" and t.ops and isinstance(t.ops[0], Const) and t.succs[0] is not t.succs[1] and b is t.succs[1 if getattr(t.ops[0], "v", 0) else 0]:
            return True
        b = p
    return False


def guarded(o, v, want, seen=()):
    """a fixed value only stands in for something that is not there"""
    v = strip(v)
    if not isinstance(v, Inst) or v in seen:
        return True
    seen = seen + (v,)
    if v.op == "call" and v.cname in origin.DUP:
        return guarded(o, v.ops[0], want, seen)
    if v.op not in ("phi", "select"):
        return True
    alt = [(x, b) for x, b in v.inc] if v.op == "phi" else [(x, None) for x in v.ops[1:]]
    for x, b in alt:
        if b is not None and dead(b):
            continue
        if origin.text(x) == "" or isinstance(x, Const):
            if isinstance(x, Const) and getattr(x, "v", 0) not in (0, None):
                return False
            if v.op == "select":
                conds = [v.ops[0]]
            else:
                conds, n = [], b
                while n is not None and len(n.preds) == 1 and not conds:
                    t = n.preds[0].insts[-1]
                    if t.op == "br" and t.ops:
                        conds = [t.ops[0]]
                    n = n.preds[0]
                t = b.insts[-1]
                if not conds and t.op == "br" and t.ops:
                    conds = [t.ops[0]]
            if not any(isinstance(c, Inst) and c.op == "icmp" and isinstance(c.ops[1], Const) and not getattr(c.ops[1], "v", 0) and want & o.value(c.ops[0]) for c in conds):
                return False
        elif not guarded(o, x, want, seen):
            return False
    return True


class Job(object):
    def __init__(self, rep, cfg, P, fn):
        self.rep, self.cfg, self.P, self.fn = rep, cfg, P, fn
        self.f = P.get(fn)
        self.o = Origin(self.f)
        rep.fns.add(fn)
        self.w = {}
        for i, ws, kind, v, ln in self.o.writes:
            for r, p, ix in ws:
                self.w.setdefault((r, p), []).append((i, kind, v, ln, ix))
        rep.count("writes_to_records", len(self.o.writes))

    def bad(self, key, i, why, path=()):
        self.rep.obl(False, "%s:%s" % (self.fn, key), loc(self.f, i), "%s: %s [%s configuration]" % (self.fn, why, self.cfg), list(path))

    def ok(self, key):
        self.rep.obl(True, "%s:%s" % (self.fn, key), self.cfg)

    def trivial(self, place, i, kind, v):
        """clearing a field, or giving it the memory that is filled afterwards, or counting up"""
        if kind != "store":
            return False
        if isinstance(v, Const):
            return getattr(v, "v", 0) in (0, None) or v.kind == "null"
        own = self.o.value(v)
        return own == {place} or (not own and bool(self.o.allocs(v))) or own == set() and strip(v).op == "icmp"


def content(j, place, want, key, what, kinds=("store",), exact=True, size=None):
    """every value written to place comes from want alone; returns the instructions that write it"""
    ws = [x for x in j.w.get(place, []) if not j.trivial(place, x[0], x[1], x[2])]
    if not ws:
        j.bad(key, j.f.blocks[0].insts[0], "%s is never filled" % what)
        return []
    for i, kind, v, ln, ix in ws:
        got = srcs(j.o, v)
        w = None
        if got - {EMPTY} != {want} and not (kind == "store" and EMPTY not in got and got - {want} == set() and got):
            near = [r for r, p in got if r[0] == "item" and want[0][0] == "item" and r[1] == want[0][1] and not r[2]]
            w = "%s is found by a name that may differ in upper and lower case" % what if near else "%s is not filled from its own source" % what
        elif exact and not j.o.exact(v):
            w = "%s is changed on its way" % what
        elif not guarded(j.o, v, {want}):
            w = "%s is replaced by a fixed value although it is there" % what
        elif size is not None and not size(j, i, kind, v, ln):
            w = "%s is not copied whole" % what
        if w:
            j.bad(key, i, w)
            return [x[0] for x in ws]
    return [x[0] for x in ws]


class Wrote(gate.GateClient):
    """which marked instructions the path has been through"""
    cap = 30

    def __init__(self, P, fn, succ, marks, interest, about=None, key=None):
        gate.GateClient.__init__(self, P, fn, succ, interest=interest)
        self.marks, self.about, self.key = marks, about, key
        self.init = self.init.with_(u=frozenset())

    def mark(self, st, i):
        m = self.marks.get(i.id)
        if m:
            u = st.ts.u
            for sign, tag in m:
                u = u | {tag} if sign == "+" else u if ("none", tag) in u else u - {tag}
            st.ts = st.ts.with_(u=u)

    def join_u(self, x, y):
        return x & y

    def on_fact(self, E, st, pred, a, b):
        r = gate.GateClient.on_fact(self, E, st, pred, a, b)
        if self.about:
            x = iszero(pred, self.vterm(E, st, a), self.vterm(E, st, b))
            if x is not None and self.about(x):
                st.ts = st.ts.with_(u=st.ts.u | {self.key, ("none", self.key)})     # nothing to write
        return r

    def on_store(self, E, st, i, base, off, size, val):
        self.mark(st, i)
        return gate.GateClient.on_store(self, E, st, i, base, off, size, val)

    def user_call(self, E, st, i):
        self.mark(st, i)
        return gate.GateClient.user_call(self, E, st, i)


def iszero(p, a, b):
    """the term a fact says is zero"""
    for q, x, y in ((p, a, b), (gate.SW[p], b, a)):
        if y[0] == "c" and x[0] != "c":
            if q in ("eq", "ule", "sle") and y[1] == 0 or q in ("ult", "slt") and y[1] == 1:
                return x
    return None


def isposs(p, a, b):
    for q, x, y in ((p, a, b), (gate.SW[p], b, a)):
        if y[0] == "c" and x[0] != "c" and y[1] in (0, 1):
            return x
    return None


def filled(j, key, insts, clears, about, what, result=True):
    """on success the field was written, or there was nothing to write"""
    marks = {}
    for i in insts:
        marks[i.id] = 1
    for i in clears:
        marks.setdefault(i.id, -1)
    w = light.Paths(j.f, marks, lambda v: about(j.o, v))
    bad = w.run((lambda zero: zero) if result else None)
    j.rep.count("success_states", w.goods)
    j.rep.count("engine_steps", w.done)
    if bad:
        j.bad(key, insts[0] if insts else j.f.blocks[0].insts[0], "%s may be left empty although there is something to fill it with" % what, bad)
    elif not w.goods:
        raise Broken("%s: no path succeeds" % j.fn)
    else:
        j.ok(key)


def clearing(j, place):
    return [x[0] for x in j.w.get(place, []) if x[1] == "store" and isinstance(x[2], Const)]


def plain(o, v):
    """the one place a value is read from unchanged"""
    v = strip(v)
    if isinstance(v, Inst) and v.op in ("load", "call") and (v.op != "load" or o.exact(v)):
        p = o.value(v)
        if len(p) == 1:
            return next(iter(p))


def missing(name):
    """the member called name is not there, is of another type or has no entries"""
    def about(o, v):
        item = (("item", name, True), ())
        if isinstance(v, Inst) and v.op == "call" and v.cname and v.cname.startswith("cJSON_Is"):
            return plain(o, v.ops[0]) == item
        p = plain(o, v)
        return p == item or p == (item[0], ("size",)) or p == (item[0], (32,))
    return about


def absent(places):
    """a null pointer or a zero count where the value would be"""
    return lambda o, v: isinstance(v, Arg) and ((("arg", v.idx), ()) in places) or plain(o, v) in places


# ---- JSON read into a record
def listpos(j, key, place, what, depth):
    """elements are taken at the position of a loop counter, and stored at a moving position"""
    for i, kind, v, ln, ix in j.w.get(place, []):
        if j.trivial(place, i, kind, v):
            continue
        ps = positions(j.o, v)
        if not ix or any(isinstance(x, Const) for x in ix):
            j.bad(key, i, "%s are all stored at one place" % what)
        if not all(stepping(x) for x in ps):
            j.bad(key, i, "%s are not taken from consecutive positions" % what)


def read_filter(rep, cfg, P, L):
    j = Job(rep, cfg, P, "nostr_filter_parse")
    F, G = "nostr_filter_t", "nostr_generic_tag_filter_t"
    A = ("arg", 2)
    off = lambda f: L.f(F, f)[0]
    n = 0
    for f, m, src in (("ids", "ids", 32), ("authors", "authors", 32), ("kinds", "kinds", 40), ("e_tags", "#e", 32), ("p_tags", "#p", 32)):
        elem = (A, (off(f), 0, "[]"))
        content(j, elem, (("item", m, True), ("[]", src)), f, "the list of \"%s\"" % m)
        listpos(j, f, elem, "the entries of \"%s\"" % m, 1)
        top = (A, (off(f),))
        own(j, top, f, "the list of \"%s\"" % m)
        sizes(j, (A, (off(f + "_count"),)), ("item", m, True), f + "_count", "the number of entries of \"%s\"" % m, elem)
        filled(j, f, [x[0] for x in j.w.get(top, []) if not isinstance(x[2], Const)], clearing(j, top), missing(m), "the list of \"%s\"" % m)
        n += 1
    for f, src in (("since", 48), ("until", 48), ("limit", 40), ("search", 32)):
        place = (A, (off(f),))
        ins = content(j, place, (("item", f, True), (src,)), f, "\"%s\"" % f)
        filled(j, f, ins, clearing(j, place), missing(f), "\"%s\"" % f)
        n += 1
    g = off("generic_tags")
    nm, vs, vc = L.f(G, "tag_name")[0], L.f(G, "values")[0], L.f(G, "values_count")[0]
    content(j, (A, (g, nm, "[]")), (("root",), ("[]", 56, 1)), "tag_name", "the letter of a tag constraint")
    content(j, (A, (g, vs, "[]", 0, "[]")), (("root",), ("[]", "[]", 32)), "values", "the values of a tag constraint")
    listpos(j, "values", (A, (g, vs, "[]", 0, "[]")), "the values of a tag constraint", 2)
    own(j, (A, (g,)), "generic_tags", "the list of tag constraints")
    own(j, (A, (g, vs, "[]")), "values", "the list of a tag constraint's values")
    same_entry(j, [(A, (g, nm, "[]")), (A, (g, vs, "[]")), (A, (g, vc, "[]"))])
    closed(j, A, {off(f) for f in ("ids", "authors", "kinds", "e_tags", "p_tags", "since", "until", "limit", "search", "generic_tags", "generic_tags_count")} |
           {off(f + "_count") for f in ("ids", "authors", "kinds", "e_tags", "p_tags")})
    return n + 2


def own(j, place, key, what):
    for i, kind, v, ln, ix in j.w.get(place, []):
        if not j.trivial(place, i, kind, v):
            j.bad(key, i, "%s is not memory of its own" % what)


def sizes(j, place, root, key, what, elem):
    bad = False
    ls = loops(j.o)
    home = {h for x in j.w.get(elem, []) for h, body in ls.items() if x[0].bb in body}
    if not any(not j.trivial(place, x[0], x[1], x[2]) or counts(x[2]) for x in j.w.get(place, [])) and not any(place in j.o.value(x[2]) for x in j.w.get(place, [])):
        bad = True
        j.bad(key, j.f.blocks[0].insts[0], "%s is never recorded" % what)
    for i, kind, v, ln, ix in j.w.get(place, []):
        if not isinstance(v, Const) and (place in srcs(j.o, v) or counts(v)) and not any(h in home and (i.bb in body or counts(v) and inloop(v, body)) for h, body in ls.items()):
            bad = True
            j.bad(key, i, "%s counts the entries of another list" % what)
    for i, kind, v, ln, ix in j.w.get(place, []):
        if not j.trivial(place, i, kind, v):
            got = srcs(j.o, v)
            if got - {(root, ("size",)), place} or not got and not counts(v):
                bad = True
                j.bad(key, i, "%s is not the number of its entries" % what)
    if not bad:
        j.ok(key)


def counts(v):
    v = strip(v)
    return isinstance(v, Inst) and (counter(v) or v.op == "add" and counter(strip(v.ops[0])) or v.op == "phi" and all(isinstance(x, Const) or counts(x) for x, b in v.inc if x is not v))


def inloop(v, body, seen=()):
    v = strip(v)
    if not isinstance(v, Inst) or v in seen:
        return False
    if v.op == "phi" and counter(v):
        return v.bb in body
    return v.op in ("phi", "add") and any(inloop(x, body, seen + (v,)) for x in ([x for x, b in v.inc] if v.op == "phi" else v.ops[:1]))


def same_entry(j, places):
    ixs = {}
    for p in places:
        for i, kind, v, ln, ix in j.w.get(p, []):
            ixs.setdefault(frozenset(strip(x) if isinstance(x, Inst) else x for x in ix), []).append(i)
    idx = [k for k in ixs if k]
    if any(isinstance(x, Const) for k in idx for x in k):
        j.bad("entries", ixs[idx[0]][0], "parts of one entry are stored in different entries")
    elif len(idx) > 1:
        j.bad("entries", ixs[idx[-1]][0], "parts of one entry are stored in different entries")
    else:
        j.ok("entries")


def closed(j, root, offs):
    """nothing else of the record is written"""
    for (r, p), ws in j.w.items():
        if r == root and p and p[0] not in offs:
            for i, kind, v, ln, ix in ws:
                if not j.trivial((r, p), i, kind, v):
                    j.bad("other", i, "a field that stands for nothing in the document is written")
                    return


def read_event(rep, cfg, P, L):
    j = Job(rep, cfg, P, "nostr_event_from_json")
    EV = "nostr_event"
    A = ("arg", 1)
    off = lambda f: L.f(EV, f)[0]
    n = 0
    for f, m, k in (("id", "id", 32), ("pubkey", "pubkey", 32), ("sig", "sig", 64)):
        place = (A, (0, off(f)))
        size = lambda j, i, kind, v, ln, k=k: kind == "nostr_hex_decode" and isinstance(ln, Const) and ln.v == k
        ins = content(j, place, (("item", m, True), (32,)), f, "\"%s\"" % m, size=size)
        filled(j, f, ins, [], missing(m), "\"%s\"" % m)
        n += 1
    for f, src in (("created_at", 48), ("kind", 40), ("content", 32)):
        place = (A, (0, off(f)))
        ins = content(j, place, (("item", f, True), (src,)), f, "\"%s\"" % f)
        filled(j, f, ins, [], missing(f), "\"%s\"" % f)
        n += 1
    # tags: handed to nostr_event_add_tag, one call per tag, strings in their order
    calls = [i for b in j.f.blocks for i in b.insts if i.op == "call" and i.cname == "nostr_event_add_tag"]
    if not calls:
        raise Broken("nostr_event_from_json: tags are not added with nostr_event_add_tag any more")
    for c in calls:
        if not any((r, p) == (A, (0,)) for r, p in j.o.value(c.ops[0])):
            j.bad("tags", c, "a tag is added to another event")
        want = (("item", "tags", True), ("[]", "[]", 32))
        buf = {r for r, p, o_, ix in j.o.addr(c.ops[1])}
        cnt = srcs(j.o, c.ops[2])
        if cnt != {(("item", "tags", True), ("[]", "size"))} and not counts(c.ops[2]) or not j.o.exact(c.ops[2]) or not counts(c.ops[2]) and not guarded(j.o, c.ops[2], {(("item", "tags", True), ("[]", "size"))}):
            j.bad("tags", c, "a tag is added with another number of strings")
        seen = False
        for (r, p), ws in j.w.items():
            if r in buf and p == (0, "[]"):
                for i, kind, v, ln, ix in ws:
                    got = srcs(j.o, v)
                    if not got - {EMPTY}:
                        continue
                    seen = True
                    if got - {EMPTY} != {want} or not j.o.exact(v):
                        j.bad("tags", i, "a tag string is not taken from the member \"tags\"")
                        continue
                    ps = positions(j.o, v)
                    dx = {strip(x) for x in ix}
                    inner = ps[0] if ps else None
                    if len(dx) != 1 or inner not in dx or not counter(inner):
                        j.bad("tags", i, "a tag string is not put at its own position")
                    elif len(ps) < 2 or not counter(ps[1]) or ps[1] is ps[0]:
                        j.bad("tags", i, "a tag string is not taken from the tag at hand")
        if not seen:
            j.bad("tags", c, "a tag is added without its strings")
        else:
            j.ok("tags")
    return n + 1


def read_message(rep, cfg, P, L):
    """client messages: the word in front decides the type; its parts come from their positions"""
    fn = "nostr_client_msg_parse"
    j = Job(rep, cfg, P, fn)
    M = "nostr_client_msg_t"
    A = ("arg", 2)
    ty = L.f(M, "type")[0]
    D = "data."
    E_, S_, F_ = "event", "text", "filters"
    words = {"EVENT": [(E_, D + "event.event")], "REQ": [(S_, D + "req.subscription_id"), (F_, D + "req.filters")], "CLOSE": [(S_, D + "close.subscription_id")],
             "AUTH": [(E_, D + "auth.event")], "COUNT": [(S_, D + "count.query_id"), (F_, D + "count.filters")]}
    marks = {}
    for b in j.f.blocks:
        for i in b.insts:
            if i.op != "call":
                continue
            if i.cname == "nostr_event_from_json":
                src = jsonof(j, i.ops[0])
                for r, p, o_, ix in j.o.addr(i.ops[1]):
                    if r == A and not p and src == {(("root",), (("at", 1),))}:
                        marks.setdefault(i.id, []).append(("+", (E_, o_)))
            elif i.cname == "nostr_filter_parse":
                src = jsonof(j, i.ops[0])
                for r, p, o_, ix in j.o.addr(i.ops[2]):
                    ps = positions(j.o, printed(i.ops[0]))
                    if r == A and len(p) == 1 and src == {(("root",), ("[]",))} and ps and counter(ps[0]) and any(isinstance(x, Const) and x.v == 2 for x, b2 in ps[0].inc) and ix and not any(isinstance(x, Const) for x in ix):
                        marks.setdefault(i.id, []).append(("+", (F_, p[0])))
    for (r, p), ws in j.w.items():
        if r == A and len(p) == 1:
            for i, kind, v, ln, ix in ws:
                if kind in ("strncpy", "strcpy", "memcpy", "strlcpy", "snprintf") and srcs(j.o, v) == {(("root",), (("at", 1), 32))} and (not isinstance(ln, Const) or ln.v >= 64):
                    marks.setdefault(i.id, []).append(("+", (S_, p[0])))
    seen = set()

    def word(t, out):
        if len(t) >= 3 and t[0] in ("strcmp", "strncmp"):
            for x in t[1:]:
                if isinstance(x, tuple) and x[0] == "s" and (t[0] == "strcmp" or t[-1][0] == "c" and t[-1][1] > len(x[1])):
                    out.add(x[1])
        else:
            for x in t:
                if isinstance(x, tuple):
                    word(x, out)
        return out

    def interest(p, a, b):
        x = isposs(p, a, b)
        return x is not None and ("strcmp" in repr(x) or "GetArraySize" in repr(x) or x[0] == "v")

    def fail(c):
        out = []
        for st, i, v in c.good:
            t = c.cont(c.E, st, j.f.args[2], ty, 4)
            k = [w for w in words if t == ("c", L.enums["NOSTR_CLIENT_MSG_" + w])]
            said = set()
            said = {x[1] for x in st.ts.u if x[0] == "word"}
            w = None
            if len(k) != 1:
                w = "a message is accepted without a settled type"
            elif said & set(words) != {k[0]}:
                w = "a message that does not start with \"%s\" is given that type" % k[0]
            else:
                seen.add(k[0])
                for kind, f in words[k[0]]:
                    if (kind, L.f(M, f)[0]) not in st.ts.u and not (kind == F_ and nofilters(c, st, L.f(M, f)[0] + 8)):
                        w = "the %s of a %s message does not come from its place in the message" % (f.split(".")[-1], k[0])
            if w:
                out.append((i, st, w))
        return out
    class W(Wrote):
        def on_fact(self, E, st, pred, a, b):
            r = Wrote.on_fact(self, E, st, pred, a, b)
            x = (pred, self.vterm(E, st, a), self.vterm(E, st, b))
            if pred == "eq" and ("c", 0) in x[1:]:
                w = word(x, set())
                st.ts = st.ts.with_(u=st.ts.u | {("word", y) for y in w})
            return r
    c = esp.explore(lambda: W(P, j.f, gate.succ_zero, marks, interest), j.f, P.fx, 60000, bad=fail, scales=(1, 4, 16))
    out = fail(c)
    rep.count("success_states", len(c.good))
    for i, st, w in out[:1]:
        j.bad("message", i, w, c.E.trail_lines(st))
    if not out:
        if seen != set(words):
            raise Broken("%s: messages %s are never accepted" % (fn, sorted(set(words) - seen)))
        j.ok("message")
    return len(words)


def nofilters(c, st, off):
    t = c.cont(c.E, st, c.fn.args[2], off, 8)
    return t in (("zero",), ("c", 0)) or t[0] == "?"


def printed(v):
    """the node a JSON text was printed from"""
    v = strip(v)
    return v.ops[0] if isinstance(v, Inst) and v.op == "call" and v.cname in corr.PRINT else v


def jsonof(j, v):
    p = printed(v)
    return srcs(j.o, p) if p is not v else set()


# ---- copies
def clone(rep, cfg, P, L):
    j = Job(rep, cfg, P, "nostr_filter_clone")
    F, G = "nostr_filter_t", "nostr_generic_tag_filter_t"
    D, S = ("arg", 0), ("arg", 1)
    off = lambda f: L.f(F, f)[0]
    n = 0

    def from_src(fs):
        return absent({(S, (off(f),)) for f in fs})
    for f in ("ids", "authors", "e_tags", "p_tags", "kinds", "generic_tags"):
        top = (D, (off(f),))
        own(j, top, f, "the copy of \"%s\"" % f)
        filled(j, f, [x[0] for x in j.w.get(top, []) if not isinstance(x[2], Const)], clearing(j, top), from_src((f, f + "_count")), "the copy of \"%s\"" % f)
        n += 1
    for f in ("since", "until", "limit", "search") + tuple(x + "_count" for x in ("ids", "authors", "kinds", "e_tags", "p_tags", "generic_tags")):
        place = (D, (off(f),))
        ws = [x for x in j.w.get(place, []) if f == "generic_tags_count" and counter(strip(x[2]))]
        for x in ws:
            j.w[place].remove(x)            # what was copied when the copy fails
        ins = content(j, place, (S, (off(f),)), f, "the copy of \"%s\"" % f)
        if f == "search":
            copied(j, place, f, "the copy of \"%s\"" % f)
        filled(j, f, ins, clearing(j, place), from_src((f, f[:-6]) if f.endswith("_count") else (f,)), "the copy of \"%s\"" % f)
        n += 1
    g = off("generic_tags")
    lists = [(off(f), 0, "[]") for f in ("ids", "authors", "e_tags", "p_tags")] + [(g, L.f(G, "values")[0], "[]", 0, "[]")]
    for p in lists:
        elem(j, (D, p), (S, p), "a copied string")
        n += 1
    elem(j, (D, (g, L.f(G, "tag_name")[0], "[]")), (S, (g, L.f(G, "tag_name")[0], "[]")), "a tag constraint's letter")
    elem(j, (D, (g, L.f(G, "values_count")[0], "[]")), (S, (g, L.f(G, "values_count")[0], "[]")), "the number of a tag constraint's values")
    own(j, (D, (g, L.f(G, "values")[0], "[]")), "values", "the list of a tag constraint's values")
    # kinds: one block copy, or one by one
    k = (D, (off("kinds"), 0))
    if j.w.get(k):
        for i, kind, v, ln, ix in j.w[k]:
            cnt = strip(ln)
            if isinstance(cnt, Inst) and cnt.op == "mul" and isinstance(cnt.ops[0], Const):
                fac, num = cnt.ops[0], cnt.ops[1]
            else:
                fac, num = (cnt.ops[1], cnt.ops[0]) if isinstance(cnt, Inst) and len(cnt.ops) == 2 else (None, None)
            whole = isinstance(cnt, Inst) and (cnt.op == "mul" and isinstance(fac, Const) and fac.v == 4 or cnt.op == "shl" and isinstance(fac, Const) and fac.v == 2) and j.o.exact(num) and \
                j.o.value(cnt) in ({(S, (off("kinds_count"),))}, {(D, (off("kinds_count"),))})
            if j.o.value(v) not in ({(S, (off("kinds"),))}, {(S, (off("kinds"), ("&", 0)))}) or not whole:
                j.bad("kinds", i, "the copy of \"kinds\" is not the whole list")
            else:
                j.ok("kinds")
    else:
        elem(j, (D, (off("kinds"), 0, "[]")), (S, (off("kinds"), 0, "[]")), "a copied kind")
    return n + 3


def fresh(o, v, seen=()):
    """memory of its own, or nothing"""
    v = strip(v)
    if v in seen or isinstance(v, Const):
        return True
    if not isinstance(v, Inst):
        return False
    if v.op == "call":
        return v.cname in origin.DUP or v.cname in origin.ALLOC
    if v.op in ("phi", "select"):
        return all(fresh(o, x, seen + (v,)) for x in ([x for x, b in v.inc] if v.op == "phi" else v.ops[1:]))
    return bool(o.allocs(v))


def copied(j, place, key, what):
    for i, kind, v, ln, ix in j.w.get(place, []):
        if kind == "store" and not fresh(j.o, v):
            j.bad(key, i, "%s is the string of the original itself" % what)


def elem(j, dst, src, what):
    """dst[i] = src[i]"""
    key = "%s %s" % (what, ".".join(map(str, dst[1])))
    content(j, dst, src, key, what)
    good = True
    if "string" in what:
        copied(j, dst, key, what)
    for i, kind, v, ln, ix in j.w.get(dst, []):
        if j.trivial(dst, i, kind, v):
            continue
        dx = [strip(x) for x in ix]
        ps = positions(j.o, v)
        if not dx or any(isinstance(x, Const) for x in dx) or not ps or any(p is not dx[-1] and p not in outerof(j, v) for p in ps) or dx[-1] not in ps:
            good = False
            j.bad(key, i, "%s is not put at the position it was taken from" % what)
    if good:
        j.ok(key)


def outerof(j, v, d=0, seen=()):
    """positions further up the path of a value: the lists its list came from"""
    ps = positions(j.o, v)
    return ps[1:]


def add_tag(rep, cfg, P, L):
    fn = "nostr_event_add_tag"
    j = Job(rep, cfg, P, fn)
    EV, T = "nostr_event", "nostr_tag"
    A = ("arg", 0)
    tags, tc = L.f(EV, "tags")[0], L.f(EV, "tags_count")[0]
    vo, co = L.f(T, "values")[0], L.f(T, "count")[0]
    c = corr.Ser(P, j.f, gate.succ_zero, names=set())
    # the number of strings
    place = (A, (tags, co, "[]"))
    ins = content(j, place, (("arg", 2), ()), "count", "the number of strings of a new tag")
    at = {strip(x) for i in j.w.get(place, []) for x in i[4]}
    if any(j.o.value(x) != {(A, (tc,))} or not j.o.exact(x) for x in at):
        j.bad("count", ins[0] if ins else j.f.blocks[0].insts[0], "a new tag is not put behind the tags there are")
    else:
        j.ok("count")
    # the strings: a copy of values[i], whole, recorded at position i
    vals = (A, (tags, vo, "[]", 0, "[]"))
    recs = []
    for i, kind, v, ln, ix in j.w.get(vals, []):
        if j.o.value(v) and all(r == A and p[:1] == (tags,) for r, p in j.o.value(v)):
            continue                        # moved along with the storage
        if isinstance(strip(v), Inst) and strip(v).op == "gep" and any(y.op == "load" and vals in [(r, q + j.o.step(o_, x_)) for r, q, o_, x_ in j.o.addr(y.ops[0])] for y in bases(strip(v))):
            continue
        recs.append((i, strip(v), [strip(x) for x in ix]))
    cps = []
    for b in j.f.blocks:
        for i in b.insts:
            if i.op == "call" and i.cname and (i.cname.startswith(("llvm.memcpy", "llvm.memmove")) or i.cname in ("strcpy", "memcpy")) and srcs(j.o, i.ops[1]) == {(("arg", 1), (0, "[]"))}:
                cps.append(i)
    if not recs or not cps:
        j.bad("strings", j.f.blocks[0].insts[0], "the strings of a new tag are not copied")
        return 2
    fine = True
    for i, v, ix in recs:
        mine = [m for m in cps if samep(strip(m.ops[0]), v) or reread(j, m, vals, ix)]
        if not mine:
            fine = False
            j.bad("strings", i, "a string recorded for a new tag is not the one copied")
            continue
        m = mine[0]
        ps = positions(j.o, m.ops[1])
        if not ix or not ps or ix[-1] is not ps[0] or not counter(ix[-1]):
            fine = False
            j.bad("strings", i, "a string of a new tag is not recorded at its own position")
        if m.cname != "strcpy" and not wholestr(j, m):
            fine = False
            j.bad("strings", m, "a string of a new tag is not copied whole")
        p = v
        if isinstance(p, Inst) and p.op == "gep" and len(p.gep[1]) == 1 and isinstance(strip(p.gep[1][0][0]), Inst) and strip(p.gep[1][0][0]).op == "phi":
            q = strip(p.gep[1][0][0])           # base + running offset
            ln = strip(m.ops[2]) if m.cname != "strcpy" else None
            nxt = [x for x, b in q.inc if isinstance(x, Inst) and x.op == "add" and strip(x.ops[0]) is q]
            if not nxt or p.gep[1][0][1] != 1 or any(strip(x.ops[1]) is not ln and j.o.value(strip(x.ops[1])) != j.o.value(ln) for x in nxt):
                fine = False
                j.bad("strings", m, "the strings of a new tag are not laid out one after another")
        if isinstance(p, Inst) and p.op == "phi":
            nxt = [x for x, b in p.inc if isinstance(x, Inst) and x.op == "gep" and x.ops[0] is p]
            ln = strip(m.ops[2]) if m.cname != "strcpy" else None
            if not nxt or ln is not None and any([strip(y) for y, s in x.gep[1]] != [ln] and not samelen(j, x, m) for x in nxt):
                fine = False
                j.bad("strings", m, "the strings of a new tag are not laid out one after another")
    if fine:
        j.ok("strings")
    return 2


def reread(j, m, vals, ix):
    """the copy goes to the string recorded just before"""
    d = strip(m.ops[0])
    return isinstance(d, Inst) and d.op == "load" and any((r, q + j.o.step(o_, x_)) == vals and [strip(x) for x in x_] == ix for r, q, o_, x_ in j.o.addr(d.ops[0]))


def bases(g):
    out = []
    while isinstance(g, Inst) and g.op == "gep":
        g = strip(g.ops[0])
        if isinstance(g, Inst):
            out.append(g)
    return out


def samep(a, b):
    if a is b:
        return True
    if isinstance(a, Inst) and isinstance(b, Inst) and a.op == b.op == "gep":
        return samep(strip(a.ops[0]), strip(b.ops[0])) and a.gep[0] == b.gep[0] and [(strip(x), s) for x, s in a.gep[1]] == [(strip(x), s) for x, s in b.gep[1]]
    return False


def wholestr(j, m):
    ln = strip(m.ops[2])
    if isinstance(ln, Inst) and ln.op == "add" and isinstance(ln.ops[1], Const) and ln.ops[1].v == 1:
        s = strip(ln.ops[0])
        return isinstance(s, Inst) and s.op == "call" and s.cname == "strlen" and j.o.value(s.ops[0]) == j.o.value(m.ops[1]) and positions(j.o, s.ops[0]) == positions(j.o, m.ops[1])
    return False


def samelen(j, g, m):
    """the step is strlen + 1 of the same string, computed again"""
    ys = [strip(y) for y, s in g.gep[1]]
    return len(ys) == 1 and (g.gep[0] == 1 and isinstance(ys[0], Inst) and ys[0].op == "call" and ys[0].cname == "strlen" or isinstance(ys[0], Inst) and ys[0].op == "add" and j.o.value(ys[0]) == j.o.value(strip(m.ops[2])))


# ---- messages being made
def made(rep, cfg, P, L):
    M = "nostr_relay_msg_t"
    A = ("arg", 0)
    D = "data."
    rows = {"event": [("s", D + "event.subscription_id", 1), ("v", D + "event.event", 2)], "ok": [("s", D + "ok.event_id", 1), ("v", D + "ok.success", 2), ("s", D + "ok.message", 3)],
            "eose": [("s", D + "eose.subscription_id", 1)], "closed": [("s", D + "closed.subscription_id", 1), ("s", D + "closed.message", 2)], "notice": [("s", D + "notice.message", 1)],
            "auth": [("s", D + "auth.challenge", 1)], "count": [("s", D + "count.query_id", 1), ("v", D + "count.count", 2), ("v", D + "count.approximate", 3)]}
    n = 0
    for w, fs in sorted(rows.items()):
        j = Job(rep, cfg, P, "nostr_relay_msg_" + w)
        for kind, f, a in fs:
            o_, s_ = L.f(M, f)

            def size(j, i, k, v, ln, s_=s_):
                if k in ("strncpy", "strlcpy", "snprintf"):
                    return not isinstance(ln, Const) or ln.v >= s_ - 1
                return True
            ins = content(j, (A, (o_,)), (("arg", a), ()), f, "\"%s\"" % f.split(".")[-1], size=size if kind == "s" else None)
            filled(j, f, ins, [], absent({(("arg", a), ()), (A, ())}), "\"%s\"" % f.split(".")[-1], False)
            n += 1
        want = L.enums["NOSTR_RELAY_MSG_" + w.upper()]
        ts = j.w.get((A, (L.f(M, "type")[0],)), [])
        if not ts or any(not (isinstance(x[2], Const) and x[2].v == want) for x in ts):
            j.bad("type", (ts or [[j.f.blocks[0].insts[0]]])[0][0], "the message made is not of type %s" % w.upper())
        else:
            j.ok("type")
    return n


class Rec(object):
    """what one piece of the analysis reports"""
    def __init__(self):
        self.fns, self.calls = set(), []

    def obl(self, *a):
        self.calls.append(("obl", a))

    def count(self, *a):
        self.calls.append(("count", a))


PARTS = (read_filter, read_event, read_message, clone, add_tag, made)


def piece(k):
    cfg, n = CONFIGS[k // len(PARTS)], k % len(PARTS)
    r = Rec()
    try:
        r.n = PARTS[n](r, cfg, prog.prog(cfg), layout.layout(cfg))
    except Broken as e:
        return str(e)
    return r


def check(rep, tier):
    import multiprocessing
    n = 0
    for cfg in CONFIGS:
        prog.prog(cfg), layout.layout(cfg)
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for r in pool.map(piece, range(len(CONFIGS) * len(PARTS)), 1):
            if isinstance(r, str):
                raise Broken(r)
            n += r.n
            rep.fns |= r.fns
            for m, a in r.calls:
                getattr(rep, m)(*a)
    rep.need("fields with a rule", n, 100)
    rep.expl = "For each reader, copier and maker of a record, every store and copy into the record was collected with the places its value is computed from; each field has one place it stands for."
    rep.assume.append("cJSON's parser, printer and lookups do what they are documented to do; strings handed to the message makers fit the fields (subscription ids are validated to 64 characters)")

"""Events and lists are built from exactly what was asked for."""
import re
import esp, gate, prog, layout, light, origin, walk, terms
from ir import Arg, Inst, Const
from front import Broken
from spec import *
import props.p20 as p20

TECHNIQUE = "path-sensitive dataflow over LLVM IR with symbolic terms: the contents of every tag handed to nostr_event_add_tag, and what had been added when a builder succeeds, are compared with the protocol's layout"
A = lambda k: ("arg", k)
S = lambda s: ("s", s)
Z = ("c", 0)
NOT = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}


def unres(t):
    while t and t[0] in ("zext", "sext", "trunc"):
        t = t[-1] if isinstance(t[-1], tuple) else t[1]
    return t




class Tag(object):
    """one tag a builder adds: slots are terms, Text(...) or sets of alternatives given as [(condition, slot or None)]"""
    def __init__(self, key, slots, need=lambda f: True, allowed=lambda f: True, what=None):
        self.key, self.slots, self.need, self.allowed, self.what = key, slots, need, allowed, what or 'the "%s" tag' % key


class Text(object):
    """a text printed from the given pieces"""
    def __init__(self, *pieces):
        self.pieces = pieces

    def fits(self, t):
        if t is None:
            return False
        if t[0] != "fmt":
            return len(self.pieces) == 1 and t == self.pieces[0]
        parts = re.split(r"(%(?:hh|h|ll|l|z|j)?[a-zA-Z])", t[2 - 1][1])
        out, args = [], list(t[2:])
        for x in parts:
            if not x:
                continue
            if x[0] == "%":
                if not args:
                    return False
                v = args.pop(0)
                out.append(v if x[-1] == "s" else ("num", unres(v)) if x[-1] in "uid" else ("odd", v))
            else:
                out.append(x)
        return out == list(self.pieces)


NUM = lambda t: ("num", t)
STR = lambda t: ("mem", t, 0, None)


class Builder(gate.GateClient):
    cap = 24
    tcap = 24

    def __init__(self, P, fn, job, L):
        gate.GateClient.__init__(self, P, fn, gate.succ_zero, None, None, self.cap, ())
        self.tcap = 24
        self.job, self.L_ = job, L
        self.models = {"nostr_event_add_tag": (("n", "-", "n"), self.tag), "nostr_event_set_content": (("n", "-"), self.text), "nostr_hex_encode": (("-", "n", "-"), self.hexenc),
                       "nostr_event_create": (("-",), self.create)}
        self.interest = lambda p, a, b: self.near(a) or self.near(b)
        self.faults = {}
        self.calls = 0
        self.init = self.init.with_(u=frozenset())
        self.promote = {}

    def near(self, t):
        return bool(t) and (t[0] == "arg" or t[0] in ("mem", "ld", "sub") and "arg" in repr(t) or t[0] in ("add", "trunc", "zext", "and", "nostr_event_add_tag", "select"))

    def join_u(self, x, y):
        return x & y

    def fault(self, st, i, key, why):
        self.faults.setdefault((i, key), (st, why))

    def did(self, st, x):
        st.ts = st.ts.with_(u=st.ts.u | {x})

    def behind(self, E, st, t, n=None):
        """the text a pointer with this value points at"""
        if t is None:
            return None
        if t[0] == "s":
            return t
        for (b, o) in st.ts.C:
            if o == 0 and self.vterm(E, st, b) == t:
                return self.cont(E, st, b, 0, n)
        return ("mem", t, 0, n)

    def create(self, C, E, st, i, a):
        self.did(st, "create")
        t = ("ret", "nostr_event_create", i.id)
        self.generic_writes(E, st, i, t)
        return t

    def hexenc(self, C, E, st, i, a):
        t = ("ret", "nostr_hex_encode", i.id)
        n = E.ev(st, i.ops[1])
        src = self.content(E, st, i.ops[0], n)
        self.generic_writes(E, st, i, t)
        b, o = E.ptr(st, i.ops[2])
        if o is not None and not isinstance(b, Const):
            self.wr(E, st, b, o, None, ("hexof", src, n))
        return t

    def text(self, C, E, st, i, a):
        if self.isev(E, st, i.ops[0]):
            p = self.vterm(E, st, i.ops[1])
            self.did(st, ("content", p))
            ok = self.job.get("content")
            if ok is not None and not any(p == w and c(gate.Facts(self, E, st)) for c, w in ok):
                self.fault(st, i, "content", "the content is not what was asked for")
        t = ("ret", "nostr_event_set_content", i.id)
        self.generic_writes(E, st, i, t)
        return t

    def isev(self, E, st, p):
        ev = self.vterm(E, st, p)
        k = self.job["event"]
        if self.job.get("direct"):
            return ev == A(k)
        x, o = E.ptr(st, p)
        return ev == self.cont(E, st, self.fn.args[k], 0, 8)

    def on_fact(self, E, st, pred, a, b):
        r = gate.GateClient.on_fact(self, E, st, pred, a, b)
        f = gate.Facts(self, E, st)
        if any(f.zero(t) and f.nonzero(t) for t in f.sub if t[0] == "ld"):
            return []           # the same entry read twice cannot be two things
        for T in self.job["tags"]:
            if ("tag", T.key) not in st.ts.u:
                if not T.need(f):
                    self.did(st, ("tag", T.key))
        return r

    def on_load(self, E, st, i, base, off):
        r = gate.GateClient.on_load(self, E, st, i, base, off)
        o, z = self.L_.off[("nostr_event", "kind")][:2]
        if off == o and i.size == z and isinstance(base, Inst) and "kind" in self.job and self.vterm(E, st, base) == self.cont(E, st, self.fn.args[self.job["event"]], 0, 8):
            k = [x[1] for x in st.ts.u if isinstance(x, tuple) and x[0] == "kindv"]
            if len(k) == 1:
                E.forget(st, i)
                st.env[i] = esp.mk(k[0], i.w)
                return [st]
        return r

    def tag(self, C, E, st, i, a):
        self.calls += 1
        ret = ("nostr_event_add_tag", i.id)
        f = gate.Facts(self, E, st)
        n = self.vterm(E, st, i.ops[2])
        b, o = E.ptr(st, i.ops[1])
        slot = lambda q: self.cont(E, st, b, o + 8 * q, 8) if o is not None else None
        if not self.isev(E, st, i.ops[0]):
            self.fault(st, i, "event", "a tag is added to another event")
        name = slot(0)
        got = None
        for T in self.job["tags"]:
            w = self.match(E, st, f, T, n, slot)
            if w is True:
                got = T
                break
            if w:
                got = w
        if isinstance(got, Tag):
            if not got.allowed(f):
                self.fault(st, i, got.key, "%s is added although nothing asked for it" % got.what)
            self.did(st, ("tag", got.key))
        else:
            self.fault(st, i, "tag-%s" % (name[1] if name and name[0] == "s" else "item"), got or "a tag is added that nothing asked for")
        self.generic_writes(E, st, i, ret)
        return ret

    def match(self, E, st, f, T, n, slot):
        """True, or why the call is not this tag"""
        if callable(T.slots):
            return T.slots(self, E, st, f, n, slot)
        if slot(0) != T.slots[0]:
            return None
        want = []
        for s in T.slots:
            if isinstance(s, list):
                hit = [x for c, x in s if c(f)]
                if not hit:
                    return "%s is added without its condition having been looked at" % T.what
                alts = hit
                if None in alts:
                    if len(alts) == 1:
                        continue
                want.append(alts)
            else:
                want.append([s])
        if n != ("c", len(want)):
            return "%s has the wrong number of parts" % T.what
        for q, alts in enumerate(want):
            t = slot(q)
            for x in alts:
                if isinstance(x, Text):
                    if x.fits(self.behind(E, st, t)):
                        break
                elif callable(x):
                    if x(t, self.behind(E, st, t)):
                        break
                elif t == x:
                    break
            else:
                return "part %d of %s is not what belongs there" % (q + 1, T.what)
        return True

    def on_store(self, E, st, i, base, off, size, val):
        o, z = self.L_.off[("nostr_event", "kind")][:2]
        if off == o and size == z and "kind" in self.job and not isinstance(base, (Const,)):
            t = self.vterm(E, st, base) if isinstance(base, Inst) else None
            if t is not None and t == self.cont(E, st, self.fn.args[self.job["event"]], 0, 8):
                v = self.vterm(E, st, val)
                f = gate.Facts(self, E, st)
                if not any(c(f) and unres(v) == k for c, k in self.job["kind"]):
                    self.fault(st, i, "kind", "the event gets another kind")
                self.did(st, "kind")
                st.ts = st.ts.with_(u=frozenset(x for x in st.ts.u if not (isinstance(x, tuple) and x[0] == "kindv")) | ({("kindv", v[1])} if v[0] == "c" else set()))
        return gate.GateClient.on_store(self, E, st, i, base, off, size, val)


def build(rep, cfg, P, L, name, job):
    fn = P.get(name)
    c = Builder(P, fn, job, L)
    E = esp.Engine(fn, c, P.fx, 120000)
    c.E = E
    E.run()
    rep.fns.add(name)
    rep.count("engine_steps", E.steps)
    rep.count("success_returns", len(c.good))
    if not c.good or not c.calls:
        raise Broken("%s (%s): no path adds a tag and succeeds" % (name, cfg))
    faults = {(i, k): v for (i, k), v in c.faults.items()}
    for st, i, v in c.good:
        f = gate.Facts(c, E, st)
        for T in job["tags"]:
            if ("tag", T.key) not in st.ts.u and T.need(f):
                faults.setdefault((i, T.key + "-missing"), (st, "success is reported without %s" % T.what))
        if "kind" in job and "kind" not in st.ts.u:
            faults.setdefault((i, "kind-missing"), (st, "success is reported without the event's kind having been set"))
        if "content" in job and job.get("need_content", lambda f: True)(f) and not any(isinstance(x, tuple) and x[0] == "content" for x in st.ts.u):
            faults.setdefault((i, "content-missing"), (st, "success is reported without the content having been set"))
    for (i, k), (st, why) in faults.items():
        rep.obl(False, "%s:%s" % (name, k), loc(fn, i), "%s: %s [%s configuration]" % (name, why, cfg), E.trail_lines(st))
    for T in job["tags"]:
        rep.obl(True, "%s:%s" % (name, T.key), cfg)
    for k in ("kind", "content"):
        if k in job:
            rep.obl(True, "%s:%s" % (name, k), cfg)
    for cname in ("loop",):
        if job.get(cname):
            each(rep, cfg, P, fn, job, L)
    room(rep, cfg, fn)


def each(rep, cfg, P, fn, job, L):
    """every round of the loop over the list adds its tag"""
    O = origin.Origin(fn)
    info = esp.info(fn)
    calls = {i.id: 1 for i in fn.insts() if i.op == "call" and i.cname == "nostr_event_add_tag"}
    n = 0
    for h in info.headers:
        body = walk.loop_body(info, h)
        if not any(i.id in calls for b in body for i in b.insts):
            continue
        n += 1
        skip = job["loop"](O, L)
        bad = rounds(fn, h, body, calls, skip)
        rep.obl(bad is None, "%s:each" % fn.name, loc(fn, h.insts[0]), None if bad is None else "%s: an entry of the list gets no tag [%s configuration]" % (fn.name, cfg), bad)
    if not n:
        raise Broken("%s (%s): no loop adds tags" % (fn.name, cfg))
    toend(rep, cfg, fn, O, job["end"])


def rounds(fn, h, body, marks, skip):
    """the lines of a round from the header back to it that passes no marked call and no skipping branch"""
    return light.Paths(fn, marks, start=h, within=set(body) - {h}, settles=skip, ends={h}).run(None)


CONV = ("zext", "sext", "trunc", "freeze")
def early(fn, O, at):
    """the lines of a success that has not come to the end of the list whose length is kept at that place"""
    def last(v, z):
        if not isinstance(v, Inst) or v.op != "icmp":
            return False
        p = NOT[v.pred] if z else v.pred
        x, y = (O.value(o) if isinstance(light.conv(o), Inst) else set() for o in v.ops)
        return at in y and p in ("uge", "eq", "sge") or at in x and p in ("ule", "eq", "sle")
    return light.Paths(fn, {}, settles=last).run(lambda z: z)


def toend(rep, cfg, fn, O, at):
    bad = early(fn, O, at)
    rep.obl(bad is None, "%s:end" % fn.name, loc(fn, fn.blocks[0].insts[0]) if bad else cfg, None if bad is None else "%s: success is reported before the end of the list has been reached [%s configuration]" % (fn.name, cfg), bad)


WIDE = {8: 3, 16: 5, 32: 10, 64: 20}


def whole(fmt, ops):
    """None, or what a printed number loses on its way"""
    for c, x in zip(re.findall(r"%(hh|h|ll|l|z|j)?([a-zA-Z])", fmt), ops):
        if c[1] not in "diu":
            continue
        at = {"hh": 8, "h": 16}.get(c[0], 64 if c[0] else 32)
        w = lambda v: v.w if isinstance(v, Inst) else int(v.ty[1:]) if str(getattr(v, "ty", "")).startswith("i") else 64
        low, sext = w(x), False
        while isinstance(x, Inst) and x.op in CONV:
            if x.op == "sext":
                sext = True
            if x.op == "zext":
                sext = False
            if x.op == "trunc":
                low = min(low, x.w)
            x = x.ops[0]
        if isinstance(x, Const):
            continue
        if w(x) > min(low, at):
            return "a number is cut before it is printed"
        if sext or c[1] != "u" and w(x) >= at:
            return "a large number is printed as a negative one"
    return None


def grown(i):
    """a text is printed into a buffer measured for it, or whether it fitted is looked at"""
    n = light.conv(i.ops[1])
    if isinstance(n, Const):
        k = None
    else:
        k = 0
        while isinstance(n, Inst) and n.op in ("add", "sub") and isinstance(n.ops[1], Const):
            k += n.ops[1].s if n.op == "add" else -n.ops[1].s
            n = light.conv(n.ops[0])
        if isinstance(n, Inst) and n.op == "call" and n.cname == "snprintf" and isinstance(n.ops[1], Const) and not n.ops[1].v:
            return k >= 1
    return False


def room(rep, cfg, fn):
    """numbers printed into a fixed buffer fit it"""
    for i in fn.insts():
        if i.op != "call" or i.cname != "snprintf" or origin.text(i.ops[2]) is None or isinstance(i.ops[1], Const) and not i.ops[1].v:
            continue
        fmt = origin.text(i.ops[2])
        why = whole(fmt, i.ops[3:])
        if why is None and "%s" in fmt:
            checked = any(u.op == "icmp" and any(light.conv(o) is i for o in u.ops) for u in fn.insts())
            why = None if checked or grown(i) else "a text is printed into a buffer that was not measured for it"
        rep.obl(why is None, "%s:printed" % fn.name, loc(fn, i) if why else cfg, why and "%s: %s [%s configuration]" % (fn.name, why, cfg))
    for i in fn.insts():
        if i.op != "call" or i.cname != "snprintf" or not isinstance(i.ops[1], Const) or not i.ops[1].v:
            continue
        fmt = origin.text(i.ops[2])
        if fmt is None or "%s" in fmt:
            continue
        need = len(re.sub(r"%(?:hh|h|ll|l|z|j)?[a-zA-Z]", "", fmt)) + 1
        for x in i.ops[3:]:
            while isinstance(x, Inst) and x.op == "zext":
                x = x.ops[0]
            w = x.w if isinstance(x, Inst) else int(x.ty[1:]) if str(getattr(x, "ty", "")).startswith("i") else 64
            need += WIDE.get(w, 20)
        rep.obl(i.ops[1].v >= need, "%s:room" % fn.name, loc(fn, i) if i.ops[1].v < need else cfg, None if i.ops[1].v >= need else "%s: a number is cut off to fit its buffer [%s configuration]" % (fn.name, cfg))


def jobs(L):
    nz = lambda t: lambda f: f.nonzero(t)
    z = lambda t: lambda f: f.zero(t)
    always = lambda f: True
    opt = lambda t, other=None: [(lambda f: not f.zero(t) and (f.nonzero(t)), t), (lambda f: f.zero(t), other)]
    unless0 = lambda t: lambda f: not f.zero(t)
    D = "nostr_delegation"
    mem = lambda k, r, fl: fld(L, r, fl, k)
    out = {}
    nil = lambda f, t: any(b == Z and p in ("eq", "ule", "sle") or b == ("c", 1) and p in ("ult", "slt") for p, b in f.sub.get(t, ()))
    is1 = lambda f: any(f.eqc(t, 1) for t in f.sub if unres(t) == A(4))
    out["nostr_repost_create"] = dict(event=0, kind=[(is1, ("c", 6)), (lambda f: not is1(f), ("c", 16))], content=[(nz(A(6)), A(6)), (z(A(6)), S(""))], tags=[
        Tag("e", [S("e"), A(1), A(3)]), Tag("p", [S("p"), A(2)]),
        Tag("k", [S("k"), Text(NUM(A(4)))], need=lambda f: not is1(f), allowed=lambda f: not is1(f)),
        Tag("a", [S("a"), Text(NUM(A(4)), ":", STR(A(2)), ":", STR(A(5)))], need=unless0(A(5)), allowed=nz(A(5)))])
    zero5 = lambda f: any(nil(f, t) for t in f.sub if unres(t) == A(5))
    out["nostr_reaction_create"] = dict(event=0, kind=[(always, ("c", 7))], content=[(nz(A(1)), A(1)), (z(A(1)), S("+"))], tags=[
        Tag("e", [S("e"), A(2), opt(A(4), S("")), A(3)]), Tag("p", [S("p"), A(3), opt(A(4))]),
        Tag("k", [S("k"), Text(NUM(A(5)))], need=lambda f: not zero5(f), allowed=lambda f: not zero5(f))])
    for key, a in (("root", 1), ("reply", 4)):
        out.setdefault("nostr_event_add_reply_tags", dict(event=0, direct=True, tags=[]))["tags"].append(
            Tag(key, [S("e"), A(a), opt(A(a + 1), S("")), S(key), opt(A(a + 2))], need=unless0(A(a)), allowed=nz(A(a)), what='the "e" tag marked "%s"' % key))
    out["nostr_event_add_mention_tag"] = dict(event=0, direct=True, tags=[Tag("p", [S("p"), A(1), opt(A(2))])])
    hexof = lambda src, n: lambda t, b: b is not None and (b == ("hexof", src, n) or b[0] == "hex" and b[1] == src)
    out["nostr_event_add_delegation"] = dict(event=0, direct=True, tags=[
        Tag("delegation", [S("delegation"), hexof(("mem", A(1)) + L.off[(D, "delegator_pubkey")][:1] + (32,), 32), mem(1, D, "conditions"), hexof(("mem", A(1)) + L.off[(D, "token")][:1] + (64,), 64)])])
    first = lambda f: A(5)
    out["nostr_zap_create_request"] = dict(event=0, kind=[(always, ("c", 9734))], content=[(always, A(4))], need_content=lambda f: not f.zero(A(4)) and not any(f.zero(t) for t in f.sub if t[:3] == ("mem", A(4), 0)), tags=[
        Tag("relays", relays, what="the list of relays"), Tag("amount", [S("amount"), Text(NUM(A(1)))]), Tag("lnurl", [S("lnurl"), A(3)], need=unless0(A(3)), allowed=nz(A(3))),
        Tag("p", [S("p"), hexof(("mem", A(2), 0, 32), 32)])])
    R = "nostr_relay_list_entry"
    uo, ro, wo = (L.off[(R, x)][0] for x in ("url", "read", "write"))

    def rtag(c, E, st, f, n, slot):
        if slot(0) != S("r"):
            return None
        u = slot(1)
        if not elem(u, ("mem", A(0), L.off[("nostr_relay_list", "relays")][0], 8), uo, L.size[R]):
            return "the address in an \"r\" tag is not that of a list entry"
        rd, wr = (sibling(f, u, uo, o) for o in (ro, wo))
        if n == ("c", 2):
            return True if rd == 1 and wr == 1 else "an entry that is not for both reading and writing gets no marker"
        if n != ("c", 3):
            return "an \"r\" tag has the wrong number of parts"
        m = slot(2)
        if m == S("read"):
            return True if wr == 0 else "an entry is marked \"read\" although it is not for reading only"
        if m == S("write"):
            return True if rd == 0 else "an entry is marked \"write\" although it is not for writing only"
        return "an entry gets an unknown marker"
    out["nostr_relay_list_to_event"] = dict(event=1, kind=[(always, ("c", 10002))], content=[(always, S(""))], tags=[Tag("r", rtag, need=lambda f: False, what="the tag of a relay")], loop=lambda O, L: lambda v, z: False,
                                            end=(("arg", 0), L.off[("nostr_relay_list", "count")][:1]))
    I = "nostr_list_item"
    io = {x: L.off[(I, x)][0] for x in ("tag_type", "value", "relay_hint", "petname", "is_private")}
    items = ("mem", A(0), L.off[("nostr_list", "items")][0], 8)

    def itag(c, E, st, f, n, slot):
        u = slot(1)
        if not elem(u, items, io["value"], L.size[I]):
            return None if slot(0) and slot(0)[0] == "s" else "a public tag does not hold the value of a list entry"
        if sibling(f, u, io["value"], io["is_private"]) != 0:
            return "a private entry is published"
        if place(slot(0), u, io["value"]) != io["tag_type"]:
            return "a public tag does not carry its entry's type"
        rh, pn = (sibling(f, u, io["value"], io[x]) for x in ("relay_hint", "petname"))
        rest = []
        if rh is None or pn is None:
            return "a public tag is made without its entry's relay and name having been looked at"
        if rh:
            rest.append("relay_hint")
        if pn:
            rest += ([] if rh else [""]) + ["petname"]
        if n != ("c", 2 + len(rest)):
            return "a public tag has the wrong number of parts"
        for q, w in enumerate(rest):
            if w == "" and slot(2 + q) != S("") or w and place(slot(2 + q), u, io["value"]) != io[w]:
                return "part %d of a public tag is not what belongs there" % (q + 3)
        return True
    def param(f):
        """kind in 30000..39999"""
        lo, hi = 0, 65535
        for t in f.sub:
            if unres(t) == mem(0, "nostr_list", "kind"):
                for p, b in f.sub[t]:
                    if b[0] == "c":
                        k = b[1]
                        if p in ("uge", "sge", "ugt", "sgt"):
                            lo = max(lo, k + (p[1:] == "gt"))
                        elif p in ("ult", "slt", "ule", "sle"):
                            hi = min(hi, k - (p[1:] == "lt"))
        return True if lo >= 30000 and hi <= 39999 else False if hi < 30000 or lo > 39999 else None
    M = lambda x: mem(0, "nostr_list", x)
    def skip(O, L):
        want = {(("arg", 0), (L.off[("nostr_list", "items")][0], io["is_private"]))}
        def s(v, z):
            if z:
                return False
            got = O.value(v)
            return len(got) == 1 and min(got)[0] == ("arg", 0) and io["is_private"] in min(got)[1][1:]
        return s
    out["nostr_list_to_event"] = dict(event=2, kind=[(always, M("kind"))], content=[(always, S(""))], tags=[
        Tag("d", [S("d"), opt(M("d_tag"), S(""))], need=lambda f: param(f) is not False, allowed=lambda f: param(f) is True)] +
        [Tag(k, [S(k), M(x)], need=lambda f, x=x: param(f) is not False and not f.zero(M(x)), allowed=lambda f, x=x: param(f) is True and f.nonzero(M(x))) for k, x in (("title", "title"), ("description", "description"), ("image", "image"))] +
        [Tag("item", itag, need=lambda f: False, what="the tag of a list entry")], loop=skip, end=(("arg", 0), L.off[("nostr_list", "item_count")][:1]))
    return out


def relays(c, E, st, f, n, slot):
    name = slot(0)
    return None if n and n[0] == "c" or name and name[0] == "s" and name != S("relays") else True     # the rest: relaylist


def under(v):
    while isinstance(v, Inst) and v.op in ("gep", "bitcast"):
        v = v.ops[0]
    return v


def relaylist(rep, cfg, P):
    """the array of the "relays" tag: its name first, then every given address in its place"""
    fn = P.get("nostr_zap_create_request")
    O = origin.Origin(fn)
    info = esp.info(fn)
    name, copies, why = 0, 0, None
    arr = set()
    for i in fn.insts():
        if i.op == "call" and i.cname == "nostr_event_add_tag" and not isinstance(i.ops[2], Const):
            arr |= O.allocs(i.ops[1])
    at = None
    size, whole_ = {}, False
    for i in fn.insts():
        if i.op == "call" and (i.cname or "").startswith("llvm.memcpy") and O.allocs(under(i.ops[0])) & arr:
            g, n = i.ops[0], light.conv(i.ops[2])
            k = 1
            while isinstance(n, Inst) and n.op in ("mul", "shl") and isinstance(n.ops[1], Const):
                k, n = k * (n.ops[1].v if n.op == "mul" else 1 << n.ops[1].v), light.conv(n.ops[0])
            if not (isinstance(g, Inst) and g.op == "gep" and g.gep[0] == 8 and not g.gep[1] and i.ops[1] is fn.args[5] and n is fn.args[6] and k == 8):
                why, at = "an address is not put at its own place in the list of relays", i
            copies += 1
        if i.op != "store" or not (O.allocs(under(i.ops[1])) & arr):
            continue
        g = i.ops[1]
        off, ix = (g.gep if isinstance(g, Inst) and g.op == "gep" else (0, []))
        t = origin.text(i.ops[0])
        if t is not None:
            if ix or off or t != "relays":
                why, at = "the list of relays does not begin with its name", i
            name += 1
            continue
        v = light.conv(i.ops[0])
        if not (isinstance(v, Inst) and v.op == "load" and isinstance(v.ops[0], Inst) and v.ops[0].op == "gep" and v.ops[0].ops[0] is fn.args[5] and v.ops[0].gep[0] == 0 and len(v.ops[0].gep[1]) == 1 and v.ops[0].gep[1][0][1] == 8):
            why, at = "something other than a given address is put into the list of relays", i
            continue
        src = light.conv(v.ops[0].gep[1][0][0])
        k, x = off // 8, light.conv(ix[0][0]) if len(ix) == 1 and ix[0][1] == 8 else None
        while isinstance(x, Inst) and x.op == "add" and isinstance(x.ops[1], Const):
            k += x.ops[1].s
            x = light.conv(x.ops[0])
        j = 0
        while isinstance(src, Inst) and src.op in ("add", "sub") and isinstance(src.ops[1], Const):
            j += src.ops[1].s if src.op == "add" else -src.ops[1].s
            src = light.conv(src.ops[0])
        if x is not src or k - j != 1 or not isinstance(x, Inst) or x.op != "phi":
            why, at = "an address is not put at its own place in the list of relays", i
            continue
        copies += 1
        b = walk.loop_body(info, x.bb)
        start = [y for y, bb in x.inc if bb not in b]
        step = [y for y, bb in x.inc if bb in b]
        ends = [t for bb in b for t in [bb.insts[-1]] if t.op == "br" and t.ops and any(s not in b for s in t.succs)]
        test = ends[0].ops[0] if len(ends) == 1 else None
        good = len(start) == 1 and isinstance(start[0], Const) and start[0].v + j == 0 and all(isinstance(y, Inst) and y.op == "add" and y.ops[0] is x and isinstance(y.ops[1], Const) and y.ops[1].v == 1 for y in step)
        if good:
            ok = False
            if isinstance(test, Inst) and test.op == "icmp":
                l, r, p = light.conv(test.ops[0]), light.conv(test.ops[1]), test.pred
                if r is x or l is fn.args[6]:
                    l, r, p = r, l, {"ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge"}.get(p, p)
                if ends[0].succs[0] not in b:
                    p = {"uge": "ult", "eq": "ne", "ugt": "ule"}.get(p, "?")
                ok = r is fn.args[6] and (l is x and j == 0 and p in ("ult", "ne") or l is x and j == -1 and p == "ule" or isinstance(l, Inst) and l.op in ("add", "sub") and light.conv(l.ops[0]) is x and isinstance(l.ops[1], Const)
                                          and p in ("ult", "ne") and (l.ops[1].s if l.op == "add" else -l.ops[1].s) == j)
                if ok:
                    size[x] = 1 if l is x and p == "ule" else 0
            good = ok
        if not good or any(y.op == "br" and y.ops and y is not ends[0] for bb in b for y in bb.insts):
            why, at = "not every given address is put into the list of relays", i
    for i in fn.insts():
        if i.op == "call" and i.cname == "nostr_event_add_tag" and not isinstance(i.ops[2], Const):
            n, k = light.conv(i.ops[2]), 0
            while isinstance(n, Inst) and n.op == "add" and isinstance(n.ops[1], Const):
                n, k = light.conv(n.ops[0]), k + n.ops[1].s
            if why is None and not (n is fn.args[6] and k == 1 or n in size and size[n] + k == 1):
                why, at = "not every given address is put into the list of relays", i
    if why is None and (name != 1 or copies != 1):
        why = "the list of relays is not its name and the given addresses"
    rep.obl(why is None, "nostr_zap_create_request:relay-list", loc(fn, at or fn.blocks[0].insts[0]) if why else cfg, why and "nostr_zap_create_request: %s [%s configuration]" % (why, cfg))


def parse(t):
    """(list, index, offset) of a value read from an element of a list"""
    t = unres(t)
    if t and t[0] == "and" and t[2] == ("c", 1):
        t = t[1]
    if not t:
        return None
    if t[0] == "mem" and t[1] and t[1][0] == "mem" and isinstance(t[2], int):
        return t[1], None, t[2]
    if t[0] == "ld" and t[1] and t[1][0] == "gepv":
        g = t[1]
        off, ix = g[2], g[3]
        while g[1] and g[1][0] == "gepv":
            g = g[1]
            off, ix = off + g[2], g[3] + ix
        return g[1], ix, off
    return None


def elem(u, lst, off, size):
    """u was read from the field at that offset of an element of lst"""
    p = parse(u)
    if p is None or p[0][:len(lst)] != lst:
        return False
    if p[1] is None:
        return p[2] % size == off
    return p[2] % size == off and len(p[1]) == 1 and p[1][0][1] == size


def place(t, u, off):
    """which field of u's element t is"""
    a, b = parse(t), parse(u)
    if a is None or b is None or a[:2] != b[:2]:
        return None
    return a[2] - b[2] + off


def sibling(f, u, off, want):
    """whether another field of u's element is known to be set (1) or not (0)"""
    for t in f.sub:
        if place(t, u, off) == want:
            if f.nonzero(t):
                return 1
            if f.zero(t):
                return 0
    return None


# ---- lists
def adders(rep, cfg, P, L):
    I, T, R, RL = "nostr_list_item", "nostr_list", "nostr_relay_list_entry", "nostr_relay_list"
    X = ("arg", 0)

    def entry(fn, lst, cnt, rec, fields, owner):
        j = p20.Job(rep, cfg, P, fn)
        at = L.off[(owner, lst)][0]
        n = L.off[(owner, cnt)][0]
        for f, want, optional in fields:
            place = (X, (at, L.off[(rec, f)][0], "[]"))
            ws = p20.content(j, place, want, f, 'the field "%s" of the new entry' % f)
            about = (lambda o, v, k=want[0]: isinstance(v, Arg) and ("arg", v.idx) == k) if optional else (lambda o, v: False)
            if ws:
                p20.filled(j, f, ws, p20.clearing(j, place), about, 'the field "%s" of the new entry' % f)
            for i, kind, v, ln, ix in j.w.get(place, []):
                if not all(j.o.value(x) == {(X, (n,))} for x in ix) or not ix:
                    j.bad(f, i, "the new entry is not put behind the last one")
        for f in [f for (r, f) in L.off if r == rec]:
            if f not in [x[0] for x in fields]:
                for i, kind, v, ln, ix in j.w.get((X, (at, L.off[(rec, f)][0], "[]")), []):
                    if p20.srcs(j.o, v) and not j.trivial((X, (at, L.off[(rec, f)][0], "[]")), i, kind, v):
                        j.bad(f, i, 'the field "%s" of the new entry is filled with something not asked for' % f)
                j.ok(f)
        ups = [x for x in j.w.get((X, (n,)), [])]
        good = [x for x in ups if isinstance(x[2], Inst) and x[2].op == "add" and isinstance(x[2].ops[1], Const) and x[2].ops[1].v == 1 and j.o.value(x[2]) == {(X, (n,))}]
        if len(good) != len(ups) or not good:
            j.bad("count", (ups[0][0] if ups else j.f.blocks[0].insts[0]), "the number of entries does not go up by one")
        else:
            p20.filled(j, "count", [x[0] for x in good], [], lambda o, v: False, "the number of entries")
    t = lambda s: (("text", s), ())
    a = lambda k: (("arg", k), ())
    for fn, kind, value, relay, pet, private in (("pubkey", "p", 1, 2, 3, 4), ("event", "e", 1, 2, None, 3), ("hashtag", "t", 1, None, None, 2), ("word", "word", 1, None, None, 2), ("relay", "relay", 1, None, None, 2),
                                                 ("reference", "a", 1, 2, None, 3), ("group", "group", 1, 2, 3, 4), ("emoji", "emoji", 1, 2, None, 3)):
        fields = [("tag_type", t(kind), False), ("value", a(value), False), ("is_private", a(private), False)]
        if relay:
            fields.append(("relay_hint", a(relay), fn not in ("group", "emoji")))
        if pet:
            fields.append(("petname", a(pet), True))
        entry("nostr_list_add_" + fn, "items", "item_count", I, fields, T)
    entry("nostr_relay_list_add", "relays", "count", R, [("url", a(1), False), ("read", a(2), False), ("write", a(3), False)], RL)
    for f in ("d_tag", "title", "description", "image"):
        j = p20.Job(rep, cfg, P, "nostr_list_set_" + f)
        place = (X, (L.off[(T, f)][0],))
        ws = p20.content(j, place, a(1), f, 'the field "%s"' % f)
        if ws:
            p20.filled(j, f, ws, [], lambda o, v: False, 'the field "%s"' % f)
        p20.closed(j, X, {L.off[(T, f)][0]})
    j = p20.Job(rep, cfg, P, "nostr_list_create")
    p20.content(j, (X, (0, L.off[(T, "kind")][0])), a(1), "kind", "the kind of the list")


class Taker(gate.GateClient):
    """what is taken out of an event's tags"""
    cap = 24

    def __init__(self, P, fn, L, takes, stores=None):
        gate.GateClient.__init__(self, P, fn, gate.succ_zero, None, lambda p, a, b: self.near(a) or self.near(b), 24, ())
        self.tcap, self.promote = 24, {}
        self.L_, self.takes, self.stores = L, takes, stores or {}
        self.models = {n: ((), self.call) for n in takes}
        self.faults, self.seen = {}, {}
        self.tags = ("mem", A(0)) + L.off[("nostr_event", "tags")][:2]
        self.TS, self.VO, self.CO = L.size["nostr_tag"], L.off[("nostr_tag", "values")][0], L.off[("nostr_tag", "count")][0]

    def near(self, t):
        return bool(t) and (t[0] in ("mem", "ld", "strcmp", "strncmp"))

    def slot(self, t):
        """(tag's list of strings, position) of one of an event's tag strings"""
        t = unres(t)
        if t and t[0] in ("mem", "ld"):
            if t[0] == "mem" and isinstance(t[2], int) and t[2] % 8 == 0 and elem(t[1], self.tags, self.VO, self.TS):
                return t[1], t[2] // 8
            if t[0] == "ld":
                g = t[1]
                if g[0] == "gepv" and not g[3] and elem(g[1], self.tags, self.VO, self.TS):
                    return g[1], g[2] // 8
        return None

    def text_of(self, t):
        """the tag string a text is the content of"""
        if t and t[0] in ("mem", "ld") and t[0] == "mem" and t[2] == 0:
            return self.slot(t[1])
        return None

    def compared(self, f, V, k, word):
        """0: the string is the word, 1: it is another, None: not known"""
        for t in f.heads("strcmp"):
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if y == S(word) and self.text_of(x) == (V, k):
                    if f.zero(t):
                        return 0
                    if f.nonzero(t):
                        return 1
        return None

    def absent(self, f, V, k):
        """the tag has no string at that position"""
        for t in f.sub:
            if self.slot(t) == (V, k) and f.zero(t):
                return True
            p, q = parse(t), parse(V)
            if p and q and p[:2] == q[:2] and p[2] - q[2] == self.CO - self.VO:
                for pr, b in f.sub[t]:
                    if b[0] == "c" and (pr in ("ult", "slt") and b[1] <= k + 0 + 1 or pr in ("ule", "sle") and b[1] <= k or pr == "eq" and b[1] <= k):
                        return True
        return False

    def call(self, C, E, st, i, a):
        f = gate.Facts(self, E, st)
        why = self.takes[i.cname](self, f, [self.vterm(E, st, o) for o in i.ops])
        self.seen[i.cname] = self.seen.get(i.cname, 0) + 1
        if why:
            self.faults.setdefault((i, i.cname), (st, why))
        t = ("ret", i.cname, i.id)
        self.generic_writes(E, st, i, t)
        return t

    def on_store(self, E, st, i, base, off, size, val):
        h = self.stores.get(i.id)
        if h:
            why = h(self, gate.Facts(self, E, st), self.vterm(E, st, val))
            self.seen[i.id] = self.seen.get(i.id, 0) + 1
            if why:
                self.faults.setdefault((i, "store"), (st, why))
        return gate.GateClient.on_store(self, E, st, i, base, off, size, val)


def taken(rep, cfg, P, L):
    def drive(name, takes, stores=None):
        fn = P.get(name)
        c = Taker(P, fn, L, takes, stores)
        E = esp.Engine(fn, c, P.fx, 120000)
        c.E = E
        E.run()
        rep.fns.add(name)
        rep.count("engine_steps", E.steps)
        for (i, k), (st, why) in c.faults.items():
            rep.obl(False, "%s:%s" % (name, k), loc(fn, i), "%s: %s [%s configuration]" % (name, why, cfg), E.trail_lines(st))
        for n in takes:
            rep.obl(n in c.seen, "%s:%s" % (name, n), loc(fn, fn.blocks[0].insts[0]) if n not in c.seen else cfg, None if n in c.seen else "%s: nothing is taken over with %s [%s configuration]" % (name, n, cfg))
        return fn

    def passed(name, fn, calls, names):
        """no tag is passed over without reason"""
        O = origin.Origin(fn)
        info = esp.info(fn)
        t, v, k = L.off[("nostr_event", "tags")][0], L.off[("nostr_tag", "values")][0], L.off[("nostr_tag", "count")][0]
        E = ("arg", 0)
        null = {frozenset({(E, (t, v, "[]"))})} | {frozenset({(E, (t, v, "[]", q))}) for q in (0, 8)}

        def skip(x, z):
            x = light.conv(x)
            if isinstance(x, Inst) and x.op == "icmp" and isinstance(x.ops[1], Const) and O.value(x.ops[0]) == {(E, (t, k, "[]"))}:
                p = x.pred if not z else NOT[x.pred]
                return p == "ult" and x.ops[1].v <= 2 or p == "ule" and x.ops[1].v <= 1
            if isinstance(x, Inst) and x.op == "call" and x.cname == "strcmp":
                return not z and any(origin.text(o) in names for o in x.ops) and any(O.value(o) == {(E, (t, v, "[]", 0))} for o in x.ops)
            return z and frozenset(O.value(x)) in null
        n = 0
        for h in info.headers:
            body = walk.loop_body(info, h)
            if any(i.id in calls for b in body for i in b.insts):
                n += 1
                bad = rounds(fn, h, body, dict.fromkeys(calls, 1), skip)
                rep.obl(bad is None, "%s:each" % name, loc(fn, h.insts[0]) if bad else cfg, None if bad is None else "%s: a tag is passed over [%s configuration]" % (name, cfg), bad)
        if not n:
            raise Broken("%s (%s): no loop over the tags" % (name, cfg))
        toend(rep, cfg, fn, O, (E, L.off[("nostr_event", "tags_count")][:1]))

    def relay(c, f, a):
        s = c.slot(a[1])
        if s is None or s[1] != 1:
            return "an entry's address is not the second string of its tag"
        V = s[0]
        if c.compared(f, V, 0, "r") != 0:
            return 'an entry is taken from a tag that is not an "r" tag'
        rd, wr = a[2], a[3]
        r, w = c.compared(f, V, 2, "read"), c.compared(f, V, 2, "write")
        tested = lambda t, word: t and t[0] == "icmp" and t[1] == "ne" and t[3] == Z and t[2][0] == "strcmp" and any(y == S(word) and c.text_of(x) == (V, 2) for x, y in ((t[2][1], t[2][2]), (t[2][2], t[2][1])))
        for t, word, mine, other in ((rd, "write", w, r), (wr, "read", r, w)):
            if tested(unres(t), word):
                continue
            want = Z if mine == 0 else ("c", 1) if mine == 1 or other == 0 or c.absent(f, V, 2) else None
            if want is None:
                return "an entry is taken over without its marker having been looked at"
            if t != want:
                return "an entry's use does not agree with its marker"
        return None
    fn = drive("nostr_relay_list_from_event", {"nostr_relay_list_add": relay})
    passed("nostr_relay_list_from_event", fn, {i.id for i in fn.insts() if i.op == "call" and i.cname == "nostr_relay_list_add"}, ("r",))

    def setter(word):
        def s(c, f, a):
            x = c.slot(a[1])
            if x is None or x[1] != 1:
                return 'the "%s" of the list is not the second string of its tag' % word
            if c.compared(f, x[0], 0, word) != 0:
                return 'the "%s" of the list is taken from another tag' % word
        return s
    names = {"nostr_list_set_d_tag": "d", "nostr_list_set_title": "title", "nostr_list_set_description": "description", "nostr_list_set_image": "image"}
    fn = P.get("nostr_list_from_event")
    j = p20.Job(rep, cfg, P, "nostr_list_from_event")
    for i in fn.insts():
        if i.op == "call" and i.cname == "nostr_list_create":
            good = j.o.value(i.ops[1]) == {(("arg", 0), L.off[("nostr_event", "kind")][:1])} and j.o.exact(i.ops[1])
            rep.obl(good, "nostr_list_from_event:kind", loc(fn, i) if not good else cfg, None if good else "nostr_list_from_event: the list does not get the event's kind [%s configuration]" % cfg)
    X = ("arg", 2)
    at = L.off[("nostr_list", "items")][0]
    E_, t, v = ("arg", 0), L.off[("nostr_event", "tags")][0], L.off[("nostr_tag", "values")][0]
    io = {x: L.off[("nostr_list_item", x)][0] for x in ("tag_type", "value", "relay_hint", "petname", "is_private")}
    stores = {}

    def opt(k, what):
        def h(c, f, val):
            if val == Z:
                for V in {c.slot(x)[0] for x in f.sub if c.slot(x)} or ():
                    if c.absent(f, V, k):
                        return None
                return "%s of a tag is dropped although it is there" % what
        return h

    def open_(c, f, val):
        if val != Z:
            return "an entry of a public tag counts as private"
        for V in {c.slot(x)[0] for x in f.sub if c.slot(x)}:
            for w in names.values():
                if c.compared(f, V, 0, w) == 0:
                    return 'a "%s" tag becomes an entry of the list' % w
    marks = set()
    for q, (f, what) in enumerate((("tag_type", "the type"), ("value", "the value"), ("relay_hint", "the relay"), ("petname", "the name"))):
        place = (X, (0, at, io[f], "[]"))
        for i, kind, val, ln, ix in j.w.get(place, []):
            if j.trivial(place, i, kind, val):
                stores[i.id] = opt(q, what)
                continue
            got = p20.srcs(j.o, val)
            if got - {p20.EMPTY} != {(E_, (t, v, "[]", 8 * q))}:
                j.bad(f, i, "%s of an entry is not string %d of its tag" % (what, q + 1))
            if q >= 2:
                stores[i.id] = opt(q, what)
            if q == 1:
                marks.add(i.id)
        if not any(not j.trivial(place, x[0], x[1], x[2]) for x in j.w.get(place, [])):
            j.bad(f, j.f.blocks[0].insts[0], "%s of an entry is never filled" % what)
        j.ok(f)
    for i, kind, val, ln, ix in j.w.get((X, (0, at, io["is_private"], "[]")), []):
        stores[i.id] = open_
    drive("nostr_list_from_event", {n: setter(w) for n, w in names.items()}, stores)
    passed("nostr_list_from_event", fn, marks | {i.id for i in fn.insts() if i.op == "call" and i.cname in names}, ())


def check(rep, tier):
    rep.expl = ("At every nostr_event_add_tag of a builder the tag's strings and their number were compared with the protocol's layout for that tag, in terms of the builder's own arguments; at every success return every tag, the kind and "
                "the content that had been asked for had been added. Every entry of a list becomes one tag and every tag of an event one entry, with each string in its place and private entries held back.")
    rep.assume = ["an event's kind is not changed by nostr_event_set_content and nostr_event_add_tag"]
    for cfg in CONFIGS:
        P, L = prog.prog(cfg), layout.layout(cfg)
        for name, job in jobs(L).items():
            build(rep, cfg, P, L, name, job)
        relaylist(rep, cfg, P)
        adders(rep, cfg, P, L)
        taken(rep, cfg, P, L)

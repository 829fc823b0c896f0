"""P30: the relay connection sends what it was asked to send and hands every incoming message to whoever it is for."""
import re
import prog, layout, gate, esp, terms, light, walk, origin
from front import Broken, CONFIGS
from ir import Inst, Const
import props.p38 as p38
loc = p38.loc

TECHNIQUE = "path-sensitive dataflow over LLVM IR with symbolic terms: the text and length given to lws_write, the list of subscriptions, and the arguments of every callback are compared with the message they are for; path analysis of the dispatch loop"
A, S, Z = p38.A, p38.S, p38.Z
STR, Text = p38.STR, p38.Text


def nonneg(f, t):
    return any(b[0] == "c" and gate.sgn(b[1], 32) >= {"sge": 0, "eq": 0, "sgt": -1}.get(p, 1 << 40) for p, b in f.sub.get(t, ())) 


class Client(gate.GateClient):
    def __init__(self, P, fn, models, cap=24):
        gate.GateClient.__init__(self, P, fn, gate.succ_zero, None, None, cap, ())
        self.tcap = 24
        self.nullsplit = True
        self.models = models
        self.promote = {}
        self.faults = {}
        self.init = self.init.with_(u=frozenset())

    def join_u(self, x, y):
        return x & y

    def fault(self, st, i, key, why):
        self.faults.setdefault((i, key), (st, why))

    def did(self, st, x):
        st.ts = st.ts.with_(u=st.ts.u | {x})

    def base(self, E, st, t):
        """the bases that hold a pointer with this value"""
        return [b for b in {b for (b, o) in st.ts.C} if self.vterm(E, st, b) == t]

    def field(self, E, st, t, off, size=8):
        for b in self.base(E, st, t):
            if (b, off) in st.ts.C:
                return self.cont(E, st, b, off, size)
        return ("mem", t, off, size)


def fresh(t, t0):
    """the same place, whatever was written elsewhere in between"""
    return t == t0 or t and t0 and t[0] == "mem" == t0[0] and t[:4] == t0[:4]


def run(P, fn, models, cap=24):
    c = Client(P, fn, models, cap)
    E = esp.Engine(fn, c, P.fx, 200000)
    c.E = E
    E.run()
    return c, E


class Rel(object):
    """what the private records of the connection look like, from the functions that fill them"""
    pass


def sender(rep, cfg, P, R, name, pieces, extra=None, after=None):
    fn = P.get(name)
    writes = []

    def write(C, E, st, i, a):
        f = gate.Facts(C, E, st)
        b, o = E.ptr(st, i.ops[1])
        n = C.vterm(E, st, i.ops[2])
        cont = C.cont(E, st, b, o, None) if o is not None else None
        writes.append(i)
        if C.vterm(E, st, i.ops[0]) != ("mem", R.ctx, R.wsi, 8):
            C.fault(st, i, "connection", "the message is written to another connection")
        text = cont[1] if cont and cont[0] == "copy" else cont
        if cont and cont[0] == "copy" and not length(cont[2], text) and not (cont[2][0] == "add" and cont[2][2] == ("c", 1) and length(cont[2][1], text)):
            text = None
        if text is None or not fits(C, text, pieces):
            C.fault(st, i, "text", "the message written is not the one asked for")
        elif not length(n, text):
            C.fault(st, i, "length", "the number of bytes written is not the length of the message")
        if C.vterm(E, st, i.ops[3]) != Z:
            C.fault(st, i, "type", "the message is not sent as text")
        if extra:
            extra(C, E, st, f, i)
        C.did(st, ("sent", i.id))
        t = ("ret", "lws_write", i.id)
        C.generic_writes(E, st, i, t)
        return t

    def fits(C, t, pieces):
        if t[0] != "fmt":
            return False
        q = []
        for x in t[2:]:
            q.append(x)
        want = [p(C) if callable(p) else p for p in pieces]
        got, args = [], list(q)
        for x in re.split(r"(%(?:hh|h|ll|l|z|j)?[a-zA-Z])", t[1][1]):
            if x and x[0] == "%":
                got.append(("%", args.pop(0)) if args else None)
            elif x:
                got.append(x)
        # neighbouring constant pieces may be split differently
        if len(got) != len(want):
            return False
        for g, w in zip(got, want):
            if isinstance(w, str):
                if g != w:
                    return False
            elif not (g and g[0] == "%" and w(g[1]) if callable(w) else g == ("%", w)):
                return False
        return True

    def length(n, text):
        """n is the length of the text: counted, or what the function that printed it says"""
        return n == ("strlen", text) or n and n[0] == "ret" and n[1] in ("sprintf", "snprintf") and ("fmt",) + n[-len(text[1:]):] == text
    c, E = run(P, fn, {"lws_write": ((), write)})
    rep.fns.add(name)
    rep.count("engine_steps", E.steps)
    if not c.good or not writes:
        raise Broken("%s (%s): no path writes a message and succeeds" % (name, cfg))
    for st, i, v in c.good:
        f = gate.Facts(c, E, st)
        sent = [x[1] for x in st.ts.u if x[0] == "sent"]
        if not sent:
            c.fault(st, i, "unsent", "success is reported without a message having been written")
        elif not any(t[0] == "ret" and t[1] == "lws_write" and nonneg(f, t) for t in f.sub):
            c.fault(st, i, "failed", "success is reported although writing the message failed")
        if after:
            after(c, E, st, f, i)
    for (i, k), (st, why) in c.faults.items():
        rep.obl(False, "%s:%s" % (name, k), loc(fn, i), "%s: %s [%s configuration]" % (name, why, cfg), E.trail_lines(st))
    for k in ("connection", "text", "length", "type", "unsent", "failed"):
        if not any(key == k for i, key in c.faults):
            rep.obl(True, "%s:%s" % (name, k), cfg)
    return c, E, fn


def roles(cfg, P, L):
    """offsets of the connection's members, by what is put into them"""
    R = Rel()
    h = L.off[("nostr_relay", "ws_handle")][0]
    R.ctx = ("mem", A(0), h, 8)
    R.relay = {k: L.off[("nostr_relay", k)][:2] for k in ("state", "url", "ws_handle", "message_callback", "message_user_data")}
    fn = P.get("nostr_relay_set_message_callback")
    c, E = run(P, fn, {})
    R.mcb = R.mud = None
    for st, i, v in c.good:
        for (b, o), (z, t) in st.ts.C.items():
            if c.vterm(E, st, b) == R.ctx:
                if t == A(1):
                    R.mcb = o
                if t == A(2):
                    R.mud = o
    if R.mcb is None or R.mud is None:
        raise Broken("nostr_relay_set_message_callback (%s): does not reach the open connection" % cfg)
    fn = P.get("nostr_relay_connect")
    R.scb = R.sud = R.wsi = None

    def via(C, E, st, i, a):
        t = ("ret", i.cname, i.id)
        C.generic_writes(E, st, i, t)
        return t
    c, E = run(P, fn, {"lws_client_connect_via_info": ((), via)})
    for st, i, v in c.good:
        for (b, o), (z, t) in st.ts.C.items():
            q = c.vterm(E, st, b)
            if q and q[0] == "ret" and q[1] in ("calloc", "malloc"):
                if t == A(1):
                    R.scb = o
                if t == A(2):
                    R.sud = o
                if t and t[:2] == ("ret", "lws_client_connect_via_info"):
                    R.wsi = o
    if None in (R.scb, R.sud, R.wsi):
        raise Broken("nostr_relay_connect (%s): the connection's callback, its data or its socket is not kept" % cfg)
    fn = P.get("nostr_subscribe")
    R.head = R.id = R.cb = R.ud = R.next = None

    def write(C, E, st, i, a):
        for (b, o), (z, t) in st.ts.C.items():
            if C.vterm(E, st, b) == R.ctx and t and t[0] == "ret" and t[1] in ("malloc", "calloc"):
                R.head = o
                for (b2, o2), (z2, t2) in st.ts.C.items():
                    if C.vterm(E, st, b2) == t:
                        if t2 == A(3):
                            R.cb = o2
                        if t2 == A(4):
                            R.ud = o2
                        if t2 and t2[0] == "ret" and t2[1] in ("strdup", "strndup", "malloc"):
                            R.id = o2
                        if t2 == ("mem", R.ctx, o, 8):
                            R.next = o2
        t = ("ret", i.cname, i.id)
        C.generic_writes(E, st, i, t)
        return t
    run(P, fn, {"lws_write": ((), write)})
    return R


def sending(rep, cfg, P, R):
    def event_text(C):
        def ok(t):
            if not (t and t[0] == "mem" and t[2] == 0 and t[1] and t[1][0] == "?"):
                return False
            i = C.E.fn.inst(t[1][1]) if hasattr(C.E.fn, "inst") else next((x for x in C.fn.insts() if x.id == t[1][1]), None)
            return i is not None and i.cname == "nostr_event_to_json" and i.ops[0] is C.fn.args[1]
        return ok

    def json_ok(C, E, st, f, i):
        if not any(t[0] == "ret" and t[1] == "nostr_event_to_json" and A(1) in t and f.zero(t) for t in f.sub):
            C.fault(st, i, "json", "the event is sent although writing it as JSON failed")
    sender(rep, cfg, P, R, "nostr_relay_send_event", ['["EVENT",', event_text, "]"], json_ok)

    def entered(C, E, st, f, i):
        head = C.field(E, st, R.ctx, R.head)
        if not (head and head[0] == "ret" and head[1] in ("malloc", "calloc")):
            C.fault(st, i, "entry", "the request is sent before the subscription is in the list, so an answer can find nobody")
            return
        g = lambda o: C.field(E, st, head, o)
        ident = g(R.id)
        copied = ident and (ident[0] == "ret" and ident[1] in ("strdup",) and ident[3] == A(1) or any(b is not None and C.cont(E, st, b, 0, None) in (("mem", A(1), 0, None), ("copy", ("mem", A(1), 0, None))) for b in C.base(E, st, ident)))
        if not copied:
            C.fault(st, i, "entry-id", "the subscription entered in the list has another id than the one asked for")
        if g(R.cb) != A(3) or g(R.ud) != A(4):
            C.fault(st, i, "entry-callback", "the subscription entered in the list has another callback or other user data than given")
        if not fresh(g(R.next), ("mem", R.ctx, R.head, 8)):
            C.fault(st, i, "entry-next", "entering the subscription loses the others")

    def stays(C, E, st, f, i):
        head = C.field(E, st, R.ctx, R.head)
        if not (head and head[0] == "ret"):
            C.fault(st, i, "kept", "success is reported although the subscription is not in the list")
    if None in (R.head, R.id, R.cb, R.ud, R.next):
        rep.obl(False, "nostr_subscribe:entry", loc(P.get("nostr_subscribe"), P.get("nostr_subscribe").blocks[0].insts[0]), "nostr_subscribe: when the request is sent the list does not hold the subscription with its id, callback, user data and successor [%s configuration]" % cfg)
        return False
    sender(rep, cfg, P, R, "nostr_subscribe", ['["REQ","', ("mem", A(1), 0, None), '",', ("mem", A(2), 0, None), "]"], entered, stays)
    c, E, fn = sender(rep, cfg, P, R, "nostr_relay_unsubscribe", ['["CLOSE","', ("mem", A(1), 0, None), '"]'])
    removal(rep, cfg, P, R, fn, lambda C, t: t[:4] == ("mem", A(1), 0, None))
    O = origin.Origin(fn)
    at = {i.id for i in fn.insts() if i.op == "call" and i.cname == "lws_write"}
    marks = {i.id: 1 for i in fn.insts() if i.op == "call" and i.cname == "free" and is_entry(O, R, i.ops[0])}
    bad = light.Paths(fn, marks, at=at, settles=lambda v, z: z and is_entry(O, R, v)).run(None)
    rep.obl(bad is None and bool(marks), "nostr_relay_unsubscribe:removed", loc(fn, fn.blocks[0].insts[0]) if bad or not marks else cfg, None if bad is None and marks else "nostr_relay_unsubscribe: the relay is told to close a subscription that may still be in the list [%s configuration]" % cfg, bad)
    # publish
    fn = P.get("nostr_publish_event")
    calls = [i for i in fn.insts() if i.op == "call" and i.cname == "nostr_relay_send_event"]
    if calls:
        ok = all(i.ops[0] is fn.args[0] and i.ops[1] is fn.args[1] for i in calls) and all(light.conv(b.insts[-1].ops[0]) in calls or isinstance(b.insts[-1].ops[0], Const) and b.insts[-1].ops[0].v for b in fn.blocks if b.insts[-1].op == "ret")
        rep.obl(ok, "nostr_publish_event:send", loc(fn, calls[0]) if not ok else cfg, None if ok else "nostr_publish_event: does not send the event given, or not report how that went [%s configuration]" % cfg)
        rep.fns.add("nostr_publish_event")
    else:
        sender(rep, cfg, P, R, "nostr_publish_event", ['["EVENT",', event_text, "]"], json_ok)
    return True


def path(O, v):
    v = light.conv(v)
    got = O.value(v) if isinstance(v, Inst) else set()
    return {p for r, p in got if r[0] not in ("null", "const")}


def is_entry(O, R, v, root=None):
    """v is an entry of the connection's list of subscriptions"""
    got = path(O, v)

    def head(p):
        while p[-1:] == (R.next,):
            p = p[:-1]
        return p
    return bool(got) and all(head(p)[-2:] == (R.relay["ws_handle"][0], R.head) for p in got)


def is_id(O, R, v):
    got = path(O, v)
    return bool(got) and all(p[-3:] == (R.relay["ws_handle"][0], R.head, R.id) for p in got)


def cut(t):
    """a place without the mark of when it was read"""
    return t[:4] if t and t[0] == "mem" else t


def same(a, b):
    return a == b or cut(a) == cut(b)


def steps(v, p, R):
    """v is the entry after p"""
    v = light.conv(v)
    g = light.conv(v.ops[0]) if isinstance(v, Inst) and v.op == "load" else None
    return isinstance(g, Inst) and g.op == "gep" and g.gep[0] == R.next and not g.gep[1] and light.conv(g.ops[0]) is p


def walked(rep, cfg, O, R, fn, h, body, p):
    """p, which a loop over the subscriptions moves along, begins at the first and always moves to the next"""
    first = [x for x, b in p.inc if b not in body]
    back = [light.conv(x) for x, b in p.inc if b in body]
    why = None
    link = any(isinstance(x, Inst) and x.op == "gep" and x.gep[0] == R.next for x in back)
    if link:        # the place where the entry is entered
        for x in back:
            e = light.conv(x.ops[0]) if isinstance(x, Inst) and x.op == "gep" and x.gep[0] == R.next and not x.gep[1] else None
            if x is not p and not (isinstance(e, Inst) and e.op == "load" and light.conv(e.ops[0]) is p):
                why = "the search for a subscription leaves some out"
        if any({(tuple(q) + (o,))[-2:] for r, q, o, _ in O.addr(x)} != {(R.relay["ws_handle"][0], R.head)} for x in first):
            why = "the search for a subscription does not begin at the first"
    else:
        if any(x is not p and not steps(x, p, R) for x in back):
            why = "the search for a subscription leaves some out"
        for x in first:
            x = light.conv(x)
            g = light.conv(x.ops[0]) if isinstance(x, Inst) and x.op == "load" else None
            if not (isinstance(g, Inst) and g.op == "gep" and g.gep[0] == R.head):
                why = "the search for a subscription does not begin at the first"
    rep.obl(why is None, "%s:search" % fn.name, loc(fn, h.insts[-1]) if why else cfg, why and "%s: %s [%s configuration]" % (fn.name, why, cfg))


def searches(rep, cfg, R, fn):
    """every loop that compares ids of subscriptions"""
    O, info = origin.Origin(fn), esp.info(fn)
    for h in info.headers:
        body = set(walk.loop_body(info, h))
        ids = [x for i in fn.insts() if i.bb in body and i.op == "call" and i.cname == "strcmp" for x in i.ops if is_id(O, R, x)]
        if not ids or any(h2 is not h and h2 in body and any(x.bb in walk.loop_body(info, h2) for x in map(light.conv, ids)) for h2 in info.headers):
            continue
        used = set()
        for x in map(light.conv, ids):
            while isinstance(x, Inst) and x.op in ("load", "gep"):
                x = light.conv(x.ops[0])
            if isinstance(x, Inst) and x.op == "phi" and x.bb is h:
                used.add(x)
        for p in used:
            walked(rep, cfg, O, R, fn, h, body, p)
        if not used:
            rep.obl(False, "%s:search" % fn.name, loc(fn, h.insts[-1]), "%s: the search for a subscription does not move along the list [%s configuration]" % (fn.name, cfg))


def removal(rep, cfg, P, R, fn, named):
    """an entry is released only after its id was found to be the one asked for and it was taken out of the list"""
    n = [0]
    O = origin.Origin(fn)

    def matched(C, f, X):
        for t in f.heads("strcmp"):
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if x[0] == "mem" and x[2] == 0 and x[1] and x[1][0] == "mem" and x[1][2] == R.id and same(x[1][1], X) and f.zero(t) and named(C, y):
                    return True
        return False

    def free(C, E, st, i, a):
        f = gate.Facts(C, E, st)
        X = C.vterm(E, st, i.ops[0])
        ident, entry = is_id(O, R, i.ops[0]), is_entry(O, R, i.ops[0])
        if ident and X and X[0] == "mem":
            X = X[1]
        if ident or entry:
            n[0] += 1
            if ("match", cut(X)) not in st.ts.u and not matched(C, f, X):
                C.fault(st, i, "which", "a subscription is removed whose id was not found to be the one named")
            elif ("out", cut(X)) not in st.ts.u and ("out", name(E, st, i.ops[0])) not in st.ts.u and entry:
                C.fault(st, i, "linked", "a subscription is released without having been taken out of the list")
            C.did(st, ("match", cut(X)))
        C.generic_writes(E, st, i, ("ret", "free", i.id))
        return ("ret", "free", i.id)

    def follows(q, p):
        return any(isinstance(x, Const) for x, b in q.inc) and \
            all(isinstance(x, Const) and x.kind == "null" or light.conv(x) is p and steps(dict((b, y) for y, b in p.inc)[b], p, R) for x, b in q.inc)

    def found_null(q, b):
        """block b is only reached where q was found to be null"""
        while len(b.preds) == 1:
            c, t = b.preds[0], b.preds[0].insts[-1]
            v = t.ops[0] if t.op == "br" and t.ops else None
            if isinstance(v, Inst) and v.op == "icmp" and v.pred in ("eq", "ne") and any(light.conv(x) is q for x in v.ops) and any(isinstance(x, Const) and x.kind == "null" for x in v.ops):
                return (t.succs[0] is b) == (v.pred == "eq")
            b = c
        return False

    def name(E, st, v):
        v = light.conv(v)
        v = E.res(st, v) if isinstance(v, Inst) else v
        return ("v", v.id) if isinstance(v, Inst) else None

    def behind(E, st, i, val):
        """i writes into the entry that comes before the one whose next val is: the loop keeps the entry it has left"""
        g, n = light.conv(i.ops[1]), light.conv(val)
        if isinstance(g, Inst) and g.op == "gep" and g.gep[0] == R.head and isinstance(n, Inst) and n.op == "load":
            e = light.conv(n.ops[0])
            e = light.conv(e.ops[0]) if isinstance(e, Inst) and e.op == "gep" and e.gep[0] == R.next and not e.gep[1] else None
            return isinstance(e, Inst) and e.op == "phi" and any(q is not e and q.op == "phi" and follows(q, e) and found_null(q, i.bb) for q in e.bb.insts)
        n = light.conv(n.ops[0]) if isinstance(n, Inst) and n.op == "load" else None
        if not all(isinstance(x, Inst) and x.op == "gep" and x.gep[0] == R.next and not x.gep[1] for x in (g, n)):
            return False
        q, p = light.conv(g.ops[0]), light.conv(n.ops[0])
        return isinstance(q, Inst) and isinstance(p, Inst) and q.op == p.op == "phi" and q.bb is p.bb and follows(q, p)

    class C2(Client):
        def on_store(self, E, st, i, base, off, size, val):
            t = self.vterm(E, st, val)
            e = light.conv(val)
            e = light.conv(e.ops[0]) if isinstance(e, Inst) and e.op == "load" else None
            if t and t[0] != "mem" and isinstance(e, Inst) and e.op == "gep" and e.gep[0] == R.next and not e.gep[1]:
                t = ("mem", self.vterm(E, st, e.ops[0]), R.next, 8)
            if t and t[0] == "mem" and t[2] == R.next and size == 8 and off is not None:
                old = self.cont(E, st, base, off, 8)
                if same(old, t[1]) or behind(E, st, i, val):
                    self.did(st, ("out", cut(t[1])))
                    n = light.conv(val)
                    n = light.conv(n.ops[0]) if isinstance(n, Inst) and n.op == "load" else None
                    if isinstance(n, Inst) and n.op == "gep":
                        self.did(st, ("out", name(E, st, n.ops[0])))
                f = gate.Facts(self, E, st)
                if matched(self, f, t[1]):
                    self.did(st, ("match", cut(t[1])))
            return gate.GateClient.on_store(self, E, st, i, base, off, size, val)
    c = C2(P, fn, {"free": ((), free)})
    E = esp.Engine(fn, c, P.fx, 200000)
    c.E = E
    E.run()
    for (i, k), (st, why) in c.faults.items():
        rep.obl(False, "%s:%s" % (fn.name, k), loc(fn, i), "%s: %s [%s configuration]" % (fn.name, why, cfg), E.trail_lines(st))
    for k in ("which", "linked"):
        if not any(key == k for i, key in c.faults):
            rep.obl(n[0] > 0, "%s:%s" % (fn.name, k), cfg if n[0] else loc(fn, fn.blocks[0].insts[0]), None if n[0] else "%s: no subscription is ever removed [%s configuration]" % (fn.name, cfg))


# ---- what comes in
NOT = p38.NOT
STRING = 32         # cJSON.valuestring


def receiver(P, cfg):
    got = [f for f in P.fn.values() if any(i.op == "call" and i.cname == "cJSON_Parse" for i in f.insts()) and any(i.op == "call" and i.cname == "lws_get_opaque_user_data" for i in f.insts())]
    if len(got) != 1:
        raise Broken("%s: the function that receives messages was not found" % cfg)
    return got[0]


def byid(fn, n):
    return next((x for x in fn.insts() if x.id == n), None)


def parsed(fn, t):
    """the cJSON_Parse a value is the result of"""
    if t and t[0] == "ret" and t[1] in ("cJSON_Parse", "cJSON_ParseWithLength"):
        return t[2]
    if t and t[0] == "v":
        i = light.conv(byid(fn, t[1]))
        if isinstance(i, Inst) and i.op == "call" and i.cname in ("cJSON_Parse", "cJSON_ParseWithLength"):
            return i.id
    return None


def item(fn, t):
    """(message, position) of an element of a received message"""
    if t and t[0] == "cJSON_GetArrayItem" and t[2][0] == "c":
        return parsed(fn, t[1]), t[2][1]
    if t and t[0] == "v":
        i = light.conv(byid(fn, t[1]))
        if isinstance(i, Inst) and i.op == "call" and i.cname == "cJSON_GetArrayItem" and isinstance(i.ops[1], Const):
            j = light.conv(i.ops[0])
            return (j.id if isinstance(j, Inst) and j.cname in ("cJSON_Parse", "cJSON_ParseWithLength") else None), i.ops[1].v
    return None


def place(fn, t):
    """a value that is only known by the instruction that made it, read back from how it was made"""
    n = 0
    while t and t[0] == "v" and n < 8:
        i, n = byid(fn, t[1]), n + 1
        j = light.conv(i)
        if not isinstance(j, Inst):
            return t
        if j.op in ("phi", "select"):       # "there is one": the other branch gives nothing
            xs = {x for x in map(light.conv, [x for x, b in j.inc] if j.op == "phi" else j.ops[1:]) if isinstance(x, Inst)}
            if len(xs) != 1 or xs == {j}:
                return t
            t = ("v", min(xs, key=lambda x: x.id).id)
            continue
        if j.op == "load":
            g = light.conv(j.ops[0])
            if isinstance(g, Inst) and g.op == "gep" and not g.gep[1]:
                return ("mem", place(fn, ("v", light.conv(g.ops[0]).id)) if isinstance(light.conv(g.ops[0]), Inst) else None, g.gep[0], j.size)
            return ("mem", place(fn, ("v", g.id)), 0, j.size) if isinstance(g, Inst) else t
        if j.op == "call" and j.cname == "cJSON_GetArrayItem":
            return t
        if j.op == "call":
            return ("ret", j.cname, j.id) + tuple(("v", x.id) if isinstance(x, Inst) else None for x in map(light.conv, j.ops))
        return t
    return t


def printed_from(t):
    return t[3] if t and t[0] == "ret" and t[1] in ("cJSON_Print", "cJSON_PrintUnformatted") and len(t) > 3 else None


def receiving(rep, cfg, P, R):
    fn = receiver(P, cfg)
    rep.fns.add(fn.name)
    O = origin.Origin(fn)
    kinds = {}

    def names(y):
        """the element of which message a text is"""
        w = place(fn, y[1]) if y[0] == "mem" and y[2] == 0 else None
        return item(fn, w[1]) if w and w[0] == "mem" and w[2] == STRING else None

    def callee(C, E, st, i, ar):
        f = gate.Facts(C, E, st)
        cal = place(fn, C.vterm(E, st, i.callee))
        a = [place(fn, C.vterm(E, st, o)) for o in i.ops]
        t = ("ret", "callback", i.id)
        why = None
        rel = lambda t: t and t[0] == "ret" and t[1] == "lws_get_opaque_user_data"
        conn = lambda t: t and t[0] == "mem" and t[2] == R.ctx[2] and rel(t[1])
        if cal and cal[0] == "mem" and conn(cal[1]) and cal[2] == R.scb:
            kinds[i.id] = "state"
            now = C.field(E, st, a[0], R.relay["state"][0], R.relay["state"][1])
            if not rel(a[0]) or now != a[1]:
                why = "the state told is not the state the relay is in"
            elif not (a[2] and a[2][0] == "mem" and conn(a[2][1]) and a[2][2] == R.sud):
                why = "the state callback does not get the user data it was given with"
        elif cal and cal[0] == "mem" and conn(cal[1]) and cal[2] == R.mcb:
            kinds[i.id] = "message"
            w = a[0][1] if a[0] and a[0][0] == "mem" and a[0][2] == STRING else None
            it = item(fn, w)
            if not it or it[0] is None or it[1] != 0:
                why = "the type told is not the first element of the message"
            elif parsed(fn, printed_from(a[1])) != it[0]:
                why = "the text handed over is not the message received"
            elif not (a[2] and a[2][0] == "mem" and conn(a[2][1]) and a[2][2] == R.mud):
                why = "the message callback does not get the user data it was given with"
        elif cal and cal[0] == "mem" and cal[2] == R.cb and not conn(cal[1]):
            kinds[i.id] = "event"
            X = cal[1]
            src = a[0]
            j = byid(fn, src[1]) if src and src[0] == "?" else None
            ok = None
            if j is not None and j.cname == "nostr_event_from_json":
                for t2 in f.sub:
                    if t2[0] == "ret" and t2[1] == "nostr_event_from_json" and t2[2] == j.id and f.zero(t2):
                        ok = item(fn, printed_from(t2[3]))
            if not ok or ok[0] is None or ok[1] != 2:
                why = "the event handed over is not the third element of the message, read successfully"
            else:
                hit = False
                for t2 in f.heads("strcmp"):
                    for x, y in ((t2[1], t2[2]), (t2[2], t2[1])):
                        if x[0] == "mem" and x[2] == 0 and x[1] and x[1][0] == "mem" and x[1][2] == R.id and same(x[1][1], X) and f.zero(t2) and \
                                names(y) == (ok[0], 1):
                            hit = True
                if not hit:
                    why = "the event is handed to a subscription whose id was not found to be the one the message names"
                elif not (a[1] and a[1][0] == "mem" and a[1][2] == R.ud and same(a[1][1], X)):
                    why = "the event callback does not get the user data of its own subscription"
        else:
            kinds[i.id] = "other"
            why = "something other than the caller's callbacks is called"
        if why:
            C.fault(st, i, kinds[i.id], why)
        C.generic_writes(E, st, i, t)
        return t
    c, E = run(P, fn, {None: ((), callee)})
    rep.count("engine_steps", E.steps)
    for (i, k), (st, why) in c.faults.items():
        rep.obl(False, "receive:%s" % k, loc(fn, i), "%s: %s [%s configuration]" % (fn.name, why, cfg), E.trail_lines(st))
    for k in ("state", "message", "event"):
        if k not in kinds.values():
            rep.obl(False, "receive:%s" % k, loc(fn, fn.blocks[0].insts[0]), "%s: no %s callback is ever called [%s configuration]" % (fn.name, k, cfg))
        elif not any(x == k for i, x in c.faults):
            rep.obl(True, "receive:%s" % k, cfg)
    # dispatch
    parse = [i for i in fn.insts() if i.op == "call" and i.cname in ("cJSON_Parse", "cJSON_ParseWithLength")]
    info = esp.info(fn)
    hs = [h for h in info.headers if all(i.bb in walk.loop_body(info, h) for i in parse)]
    if not hs:
        rep.obl(False, "receive:loop", loc(fn, parse[0] if parse else fn.blocks[0].insts[0]), "%s: only the first of several messages received together is read [%s configuration]" % (fn.name, cfg))
        return
    h = max(hs, key=lambda x: len(walk.loop_body(info, x)))
    body = set(walk.loop_body(info, h))
    calls = lambda k: {i.id for i in fn.insts() if i.op == "call" and i.id in kinds and kinds[i.id] == k}

    def at_item(v, k):
        v = light.conv(v)
        return isinstance(v, Inst) and v.op == "call" and v.cname == "cJSON_GetArrayItem" and isinstance(v.ops[1], Const) and v.ops[1].v == k

    def typed(v, word):
        v = light.conv(v)
        if not (isinstance(v, Inst) and v.op == "call" and v.cname == "strcmp"):
            return False
        return any(origin.text(x) == word for x in v.ops) and any({p[-2:] for r, p in O.value(x)} == {(("at", 0), STRING)} for x in v.ops if origin.text(x) is None)

    def few(v, z, most):
        if not (isinstance(v, Inst) and v.op == "icmp" and isinstance(v.ops[1], Const)):
            return False
        x = light.conv(v.ops[0])
        if not (isinstance(x, Inst) and x.op == "call" and x.cname == "cJSON_GetArraySize"):
            return False
        p = NOT[v.pred] if z else v.pred
        return p == "slt" and v.ops[1].s <= most or p == "sle" and v.ops[1].s < most

    def broken(v, z, most):
        x = light.conv(v)
        if few(v, z, most):
            return True
        if not z or not isinstance(x, Inst) or x.op != "call":
            return False
        return x.cname in ("cJSON_Parse", "cJSON_ParseWithLength", "cJSON_IsArray", "cJSON_Print", "cJSON_PrintUnformatted") or x.cname == "cJSON_IsString" and at_item(x.ops[0], 0)

    def member(v, off):
        got = path(O, v)
        return bool(got) and all(p[-2:] == (R.ctx[2], off) for p in got)

    def lookup(v, z):
        x = light.conv(v)
        return z and (isinstance(x, Inst) and x.op == "call" and (x.cname == "cJSON_IsString" and at_item(x.ops[0], 1) or at_item(x, 1)) or is_entry(O, R, v))

    def other(v, z, word):
        """the message is of another type"""
        return typed(v, word) and not z or z and any(typed(v, w) for w in ("EVENT", "OK", "EOSE", "CLOSED", "NOTICE", "AUTH", "COUNT") if w != word)

    def to_message(v, z):
        return broken(v, z, 2) or z and typed(v, "EVENT") or z and member(v, R.mcb)

    def to_event(v, z):
        x = light.conv(v)
        if broken(v, z, 3) or lookup(v, z) or other(v, z, "EVENT"):
            return True
        if isinstance(x, Inst) and x.op == "call":
            if z and (at_item(x, 2) or x.cname == "cJSON_IsObject" and at_item(x.ops[0], 2)) or not z and x.cname == "nostr_event_from_json":
                return True
        got = path(O, v)
        return z and bool(got) and all(p[-3:] == (R.ctx[2], R.head, R.cb) for p in got)

    def to_closed(v, z):
        return broken(v, z, 3) or lookup(v, z) or other(v, z, "CLOSED")
    gone = {i.id for i in fn.insts() if i.op == "call" and i.cname == "free" and is_entry(O, R, i.ops[0])}

    def every(key, marks, settles, text):
        bad = light.Paths(fn, dict.fromkeys(marks, 1), start=h, within=body - {h}, settles=settles, ends={h}).run(None)
        rep.obl(bad is None, "receive:%s" % key, loc(fn, h.insts[-1]) if bad else cfg, None if bad is None else "%s: %s [%s configuration]" % (fn.name, text, cfg), bad)

    def only(key, at, word, text):
        bad = light.Paths(fn, {}, start=h, within=body - {h}, at=at, settles=lambda v, z: z and typed(v, word), ends=set()).run(None)
        rep.obl(bad is None, "receive:%s" % key, loc(fn, h.insts[-1]) if bad else cfg, None if bad is None else "%s: %s [%s configuration]" % (fn.name, text, cfg), bad)
    every("every-message", calls("message"), to_message, "a message that is not an event does not reach the message callback")
    every("every-event", calls("event"), to_event, "an event of a subscription does not reach its callback")
    every("every-closed", gone, to_closed, "a subscription the relay closed stays in the list")
    only("only-event", calls("event"), "EVENT", "something other than an EVENT message reaches an event callback")
    only("only-closed", gone, "CLOSED", "a subscription is removed by something other than a CLOSED message")
    removal(rep, cfg, P, R, fn, lambda C, y: (names(y) or (None, None))[1] == 1)
    # the buffer
    copies = [i for i in fn.insts() if i.op == "call" and (i.cname or "").startswith(("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")) and light.conv(i.ops[1]) is fn.args[3]]
    rb = pos = None
    why, where = None, fn.blocks[0].insts[0]
    if len(copies) != 1:
        why = "what was received is not put into the buffer once"
    else:
        where = copies[0]
        g = light.conv(where.ops[0])
        if light.conv(where.ops[2]) is not fn.args[4]:
            why = "not exactly the bytes received are put into the buffer"
        elif not (isinstance(g, Inst) and g.op == "gep" and g.gep[0] == 0 and len(g.gep[1]) == 1 and g.gep[1][0][1] == 1):
            why = "what was received is not put behind what was there"
        else:
            rb, pos = path(O, g.ops[0]), path(O, g.gep[1][0][0])
            if not (len(rb) == 1 and len(pos) == 1 and min(rb)[-2:-1] == (R.ctx[2],) and min(pos)[-2:-1] == (R.ctx[2],)):
                why = "what was received is not put behind what was there"
            else:
                rb, pos = min(rb)[-1], min(pos)[-1]
    rep.obl(why is None, "receive:append", loc(fn, where) if why else cfg, why and "%s: %s [%s configuration]" % (fn.name, why, cfg))
    if why:
        return
    first = next(i for i in h.insts if i.op != "phi")
    bad = light.Paths(fn, {copies[0].id: 1}, at={first.id}, within=set(fn.blocks) - (body - {h}), ends=set()).run(None)
    rep.obl(bad is None, "receive:appended", loc(fn, first) if bad else cfg, None if bad is None else "%s: messages are looked for before what was received is in the buffer [%s configuration]" % (fn.name, cfg), bad)
    start = light.conv(parse[0].ops[0])
    zero, moved = set(), set()

    def cursor(v):
        """v is where the next message begins: what cJSON_Parse is given"""
        v = light.conv(v)
        return v is start or isinstance(v, Inst) and v.op == "phi" and len(v.inc) == 1 and cursor(v.inc[0][0])

    def left(v, k=0, seen=()):
        """v is the length of what has not been used, plus k"""
        v = light.conv(v)
        if not isinstance(v, Inst):
            return False
        if v.op == "add" and isinstance(v.ops[1], Const):
            return left(v.ops[0], k - v.ops[1].s, seen)
        if v.op in ("phi", "select") and v not in seen:
            xs = [light.conv(x) for x in ([x for x, b in v.inc] if v.op == "phi" else v.ops[1:])]
            return any(isinstance(x, Inst) for x in xs) and all(left(x, k, seen + (v,)) or isinstance(x, Const) and x.v == 0 for x in xs)
        return v.op == "call" and v.cname == "strlen" and k == 0 and cursor(v.ops[0])
    for i in fn.insts():
        if i.op == "store" and {p[-2:] for r, p, o, x in O.addr(i.ops[1])} == {(R.ctx[2], pos)} or i.op == "store" and {tuple(p) + (o,) for r, p, o, x in O.addr(i.ops[1])} and {(tuple(p) + (o,))[-2:] for r, p, o, x in O.addr(i.ops[1])} == {(R.ctx[2], pos)}:
            v = light.conv(i.ops[0])
            bad = None
            if isinstance(v, Const) and not v.v:
                zero.add(i)
            elif isinstance(v, Inst) and v.op == "add" and any(light.conv(o) is fn.args[4] for o in v.ops) and any(path(O, o) and {p[-2:] for p in path(O, o)} == {(R.ctx[2], pos)} for o in v.ops):
                moved.add("grown")
            elif left(v):
                moved.add("left")
            else:
                bad = "the fill of the buffer is set to something else than what is in it"
            rep.obl(bad is None, "receive:fill", loc(fn, i) if bad else cfg, bad and "%s: %s [%s configuration]" % (fn.name, bad, cfg))
    mv = [i for i in fn.insts() if i.op == "call" and (i.cname or "").startswith(("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")) and i is not copies[0]]
    for i in mv:
        good = cursor(i.ops[1]) and {p[-2:] for p in path(O, i.ops[0])} == {(R.ctx[2], rb)} and (left(i.ops[2], 1) or left(i.ops[2])) and "move" in i.cname
        rep.obl(good, "receive:keep", loc(fn, i) if not good else cfg, None if good else "%s: what is kept in the buffer is not exactly the unused rest [%s configuration]" % (fn.name, cfg))
    good = moved == {"grown", "left"} and len(mv) == 1
    rep.obl(good, "receive:rest", loc(fn, where) if not good else cfg, None if good else "%s: an incomplete message is not kept for the next part [%s configuration]" % (fn.name, cfg))

    def opening(v, z, want):
        if not (isinstance(v, Inst) and v.op == "icmp" and isinstance(v.ops[1], Const)):
            return False
        x = light.conv(v.ops[0])
        return isinstance(x, Inst) and x.op == "load" and x.size == 1 and v.ops[1].v == 91 and cursor(x.ops[0]) and ((v.pred == "eq") != z) == want

    def empty(v, z):
        x = light.conv(v)
        if opening(v, z, False):
            return True
        return z and isinstance(x, Inst) and (left(x) or x.op == "load" and x.size == 1 and cursor(x.ops[0]))
    rest = set(fn.blocks) - {h}
    bad = light.Paths(fn, {}, start=h, within=rest, ends=set(), at={i.id for i in mv}, settles=lambda v, z: opening(v, z, True)).run(None)
    rep.obl(bad is None, "receive:stuck", loc(fn, mv[0]) if bad else cfg, None if bad is None else "%s: text that begins no message is kept, so nothing received after it is ever handed over [%s configuration]" % (fn.name, cfg), bad)
    after = {i.id for i in zero if i.bb in info.reach(h)} if hasattr(info, "reach") else {i.id for i in zero if i.bb in reach(h)}
    bad = light.Paths(fn, {}, start=h, within=rest, ends=set(), at=after, settles=empty).run(None) if after else None
    rep.obl(bad is None, "receive:lost", loc(fn, h.insts[-1]) if bad else cfg, None if bad is None else "%s: an incomplete message is thrown away [%s configuration]" % (fn.name, cfg), bad)

    def large(v, z):
        if not (isinstance(v, Inst) and v.op == "icmp"):
            return False
        p, x, y = (NOT[v.pred] if z else v.pred), v.ops[0], v.ops[1]
        if isinstance(x, Const):
            x, y, p = y, x, {"ult": "ugt", "ule": "uge"}.get(p, "")
        return isinstance(y, Const) and p in ("ugt", "uge") and y.v >= 1 << 16
    before = {i.id for i in zero} - after
    if before:
        bad = light.Paths(fn, {}, within=set(fn.blocks) - body, ends=set(), at=before, settles=large).run(None)
        rep.obl(bad is None, "receive:limit", loc(fn, where) if bad else cfg, None if bad is None else "%s: the buffer is emptied although it has not grown too large [%s configuration]" % (fn.name, cfg), bad)


def reach(h):
    seen, todo = set(), list(h.succs)
    while todo:
        b = todo.pop()
        if b not in seen:
            seen.add(b)
            todo += b.succs
    return seen


# ---- the connection
def connecting(rep, cfg, P, R):
    fn = P.get("nostr_relay_set_message_callback")
    c, E = run(P, fn, {})
    rep.fns.add(fn.name)
    why = None
    for st, i, v in c.good:
        f = gate.Facts(c, E, st)
        for o, t in ((R.relay["message_callback"][0], A(1)), (R.relay["message_user_data"][0], A(2))):
            if c.field(E, st, A(0), o) != t:
                why = (st, i, "the callback or its user data is not kept with the relay")
        if not f.zero(R.ctx) and not f.zero(c.cont(E, st, fn.args[0], R.ctx[2], 8)):
            for o, t in ((R.mcb, A(1)), (R.mud, A(2))):
                if c.field(E, st, R.ctx, o) != t:
                    why = (st, i, "the callback or its user data does not reach the open connection")
    rep.obl(why is None and bool(c.good), "nostr_relay_set_message_callback:kept", loc(fn, why[1]) if why else cfg, why and "%s: %s [%s configuration]" % (fn.name, why[2], cfg), E.trail_lines(why[0]) if why else None)
    fn = P.get("nostr_relay_connect")
    rep.fns.add(fn.name)
    at = offsets(cfg)
    seen = [0]

    def via(C, E, st, i, a):
        f = gate.Facts(C, E, st)
        b, o = E.ptr(st, i.ops[0])
        g = lambda k: C.cont(E, st, b, o + at[k][0], at[k][1])

        def alike(x, y):
            """x is y, worked out with a distance that is chosen once"""
            if x and y and x[0] == "gepv" and y[0] == "gep" and x[1] == y[1] and len(x[3]) == 1 and x[3][0][1] == 1 and x[3][0][0][0] == "v":
                j = light.conv(byid(fn, x[3][0][0][1]))
                return isinstance(j, Inst) and j.op in ("phi", "select") and y[2] - x[2] in [c.s for c in ([c for c, _ in j.inc] if j.op == "phi" else j.ops[1:]) if isinstance(c, Const)]
            return x == y
        seen[0] += 1
        scheme = None
        for t in list(f.heads("strncmp")) + list(f.heads("strncasecmp")):
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if y[0] == "s" and f.zero(t) and t[3] == ("c", len(y[1])):
                    scheme = y[1]
        tls = g("ssl_connection")
        adr = g("address")
        if scheme is None:
            C.fault(st, i, "scheme", "a connection is opened without the scheme of the address having been recognised")
        elif scheme == "wss://" and tls != ("c", 1):
            C.fault(st, i, "tls", "a wss:// address is not contacted over TLS with the server's certificate checked")
        elif scheme == "ws://" and tls != Z or scheme not in ("ws://", "wss://"):
            C.fault(st, i, "tls", "a ws:// address is not contacted as one")
        elif not (adr and adr[0] == "gep" and adr[2] == len(scheme)):
            C.fault(st, i, "address", "the host contacted is not the one in the address")
        elif not alike(g("host"), adr):
            C.fault(st, i, "host", "the host named to the server is not the one in the address")
        t = ("ret", i.cname, i.id)
        C.generic_writes(E, st, i, t)
        return t

    def start(C, E, st, i, a):
        t = ("ret", i.cname, i.id)
        ctx = C.field(E, st, A(0), R.ctx[2])
        if ctx and ctx[0] == "ret":
            C.did(st, ("ctx", ctx, tuple(C.field(E, st, ctx, o) for o in (R.scb, R.sud, R.mcb, R.mud))))
        C.generic_writes(E, st, i, t)
        return t
    c, E = run(P, fn, {"lws_client_connect_via_info": ((), via), "pthread_create": ((), start)})
    rep.count("engine_steps", E.steps)
    want = (A(1), A(2), ("mem", A(0), R.relay["message_callback"][0], 8), ("mem", A(0), R.relay["message_user_data"][0], 8))
    for st, i, v in c.good:
        got = [x for x in st.ts.u if x[0] == "ctx"]
        if not got:
            c.fault(st, i, "connection", "success is reported without the connection being kept and served")
        elif any(not same(x, y) for x, y in zip(got[0][2], want)):
            c.fault(st, i, "callbacks", "the connection does not carry the callbacks and user data it was given")
    for (i, k), (st, why) in c.faults.items():
        rep.obl(False, "nostr_relay_connect:%s" % k, loc(fn, i), "nostr_relay_connect: %s [%s configuration]" % (why, cfg), E.trail_lines(st))
    if not seen[0] or not c.good:
        raise Broken("nostr_relay_connect (%s): no connection is opened" % cfg)
    for k in ("scheme", "tls", "address", "host", "connection", "callbacks"):
        if not any(x == k for i, x in c.faults):
            rep.obl(True, "nostr_relay_connect:%s" % k, cfg)


_off = {}


def offsets(cfg):
    """where the members of the websocket library's connection request are"""
    if not _off:
        import front, os
        names = ("ssl_connection", "address", "host", "port")
        p = os.path.join(front.scratch(), "lws-%s.c" % cfg)
        open(p, "w").write("#include <stddef.h>\n#include <libwebsockets.h>\n#define S struct lws_client_connect_info\nunsigned long vt_o[] = {%s};\n" % ", ".join("offsetof(S, %s), sizeof(((S*)0)->%s)" % (n, n) for n in names))
        r = front.run(["clang-18", "-w", "-S", "-emit-llvm", "-o", "-", p])
        v = [int(x) for x in re.findall(r"i64 (\d+)", r.stdout[r.stdout.index("@vt_o"):].split("\n")[0])]
        _off.update({n: (v[2 * k], v[2 * k + 1]) for k, n in enumerate(names)})
    return _off


def check(rep, tier):
    rep.expl = ("every path to lws_write in the four sending functions and to every callback in the service callback, and every way through one round of the dispatch loop; "
                "rule: text, length and connection of what is written, entry before the request, arguments of each callback against the message and the subscription, nothing left out, nothing lost from the buffer")
    rep.assume = ["cJSON reads and prints as documented and has valuestring where its public header puts it",
                  "libwebsockets calls the service callback with the bytes that arrived, in order; where one message ends (find_json_array_end) is not judged",
                  "a relay does not send NUL bytes inside a text message: the text kept for later is what strlen counts"]
    for cfg in CONFIGS:
        P, L = prog.prog(cfg), layout.layout(cfg)
        R = roles(cfg, P, L)
        sending(rep, cfg, P, R)
        receiving(rep, cfg, P, R)
        for fn in (receiver(P, cfg), P.get("nostr_relay_unsubscribe")):
            searches(rep, cfg, R, fn)
        connecting(rep, cfg, P, R)

"""Configuration: only valid settings come into force, and the limits they set are honoured."""
import esp, gate, prog, layout, light, origin
from ir import Arg, Inst, Const
from front import Broken
from spec import *

TECHNIQUE = "path-sensitive gate dataflow over LLVM IR with symbolic buffer provenance of the settings in force"
A0 = ("arg", 0)
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
NOT = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
# field: (signed, lowest, highest, default, environment variable)
F = {
    "nip44_min_plaintext_size": (0, 1, 65535, 1, "NOSTR_NIP44_MIN_SIZE"),
    "nip44_max_plaintext_size": (0, 0, 65535, 65535, "NOSTR_NIP44_MAX_SIZE"),
    "max_sessions": (0, 1, 10000, 100, "NOSTR_MAX_SESSIONS"),
    "session_timeout_secs": (0, 60, 86400, 3600, "NOSTR_SESSION_TIMEOUT"),
    "max_permissions": (0, 1, 1000, 32, "NOSTR_MAX_PERMISSIONS"),
    "max_content_size": (0, 1024, 1048576, 65536, "NOSTR_MAX_CONTENT_SIZE"),
    "max_tags": (0, 1, 1000, 100, "NOSTR_MAX_TAGS"),
    "max_tag_values": (0, 1, 1000, 50, "NOSTR_MAX_TAG_VALUES"),
    "relay_connect_timeout_ms": (0, 1000, 300000, 30000, "NOSTR_RELAY_CONNECT_TIMEOUT"),
    "relay_response_timeout_ms": (0, 1000, 60000, 10000, "NOSTR_RELAY_RESPONSE_TIMEOUT"),
    "encryption_default_nip": (1, (4, 44), None, 44, "NOSTR_ENCRYPTION_DEFAULT"),
    "secure_memory_lock": (1, 0, 1, 0, "NOSTR_SECURE_MEMORY_LOCK"),
    "debug_mode": (1, 0, 1, 0, "NOSTR_DEBUG"),
}


def span(f, t, signed):
    """(lowest, highest, excluded) values of a 32-bit field on this path"""
    lo, hi = (-(1 << 31), (1 << 31) - 1) if signed else (0, (1 << 32) - 1)
    out = set()
    for p, b in f.sub.get(t, ()):
        if b[0] != "c":
            continue
        k = b[1] & 0xffffffff
        if signed or p[0] == "s":
            k = gate.sgn(k, 32)
        if p == "eq":
            lo, hi = max(lo, k), min(hi, k)
        elif p == "ne":
            out.add(k)
        elif (p[0] == "s") == bool(signed):
            if p[1:] in ("gt", "ge"):
                lo = max(lo, k + (p[1:] == "gt"))
            else:
                hi = min(hi, k - (p[1:] == "lt"))
        elif signed and p in ("ult", "ule") and 0 <= k:
            lo, hi = max(lo, 0), min(hi, k - (p == "ult"))
        elif signed and p in ("ugt", "uge"):
            out |= set(range(0, k + (p == "ugt"))) if k < 4096 else set()
    while lo in out and lo <= hi:
        lo += 1
    while hi in out and lo <= hi:
        hi -= 1
    return lo, hi, out


def within(f, t, spec):
    lo, hi, out = span(f, t, spec[0])
    if isinstance(spec[1], tuple):
        return lo == hi and lo in spec[1]
    return lo >= spec[1] and hi <= spec[2]


def outside(f, t, spec):
    lo, hi, out = span(f, t, spec[0])
    want = spec[1] if isinstance(spec[1], tuple) else None
    if want:
        return all(x in out or x < lo or x > hi for x in want)
    return lo > hi or hi < spec[1] or lo > spec[2] or spec[2] - spec[1] < 4096 and all(x in out or x < lo or x > hi for x in range(spec[1], spec[2] + 1))


def ordered(f, a, b):
    """a <= b"""
    return f.has("ule", a, b) or f.has("ult", a, b) or f.has("eq", a, b) or span(f, a, 0)[1] <= span(f, b, 0)[0]


def validate(rep, cfg, L):
    M = lambda n: fld(L, "nostr_config", n)
    lo, hi = M("nip44_min_plaintext_size"), M("nip44_max_plaintext_size")
    conds = [(n, "settings are accepted with %s outside its range" % n, lambda f, n=n, s=s: within(f, M(n), s)) for n, s in F.items()]
    conds.append(("min-max", "settings are accepted with a minimum plaintext size above the maximum", lambda f: ordered(f, lo, hi)))
    judge(rep, cfg, "nostr_config_validate", conds)
    judge(rep, cfg, "nostr_config_validate", [("refused", "settings are refused although every one of them is within its range",
          lambda f: f.zero(A0) or any(outside(f, M(n), s) for n, s in F.items()) or f.has("ult", hi, lo) or f.has("ugt", lo, hi))], succ=gate.succ_nonzero)


def defaults(rep, cfg, L):
    conds = []
    for n, s in F.items():
        o, z = L.off[("nostr_config", n)][:2]
        conds.append((n, "the default of %s is not %d" % (n, s[3]), lambda f, o=o, z=z, k=s[3]: f.content(0, o, z) == ("c", k)))
    judge(rep, cfg, "nostr_config_get_defaults", conds)


class Env(gate.GateClient):
    """every value stored in the settings: the old one, or the number the right variable holds"""
    def on_store(self, E, st, i, base, off, size, val):
        if isinstance(base, Arg) and base.idx == 0:
            self.judge_store(E, st, i, off, size, val)
            # the settings are independent of each other: start afresh for the next one
            st.env, st.con, st.rel, st.mem = {}, {}, frozenset(), {}
            st.ts = st.ts.with_(L={}, C={}, F=frozenset(), ep=0)
            return None
        return gate.GateClient.on_store(self, E, st, i, base, off, size, val)

    def judge_store(self, E, st, i, off, size, val):
        name = self.fields.get((off, size))
        if name is None:
            self.faults.setdefault((i, "where"), (st, "a value is stored at an unknown place of the settings"))
            return
        self.seen.add(name)
        sg, env = F[name][0], F[name][4]
        t = self.vterm(E, st, val)
        if t == ("mem", A0, off, size) :
            self.kept.add(name)
            return
        x = t
        while x[0] in ("trunc", "and"):
            x = x[2] if x[0] == "trunc" else x[1]
        f = gate.Facts(self, E, st)
        if x[0] not in ("strtoul", "strtol", "strtoull", "strtoll") or x[1][0] != "mem" or x[1][1][:2] != ("ret", "getenv") or x[2] != ("c", 10):
            self.faults.setdefault((i, "what"), (st, "%s is set to something other than the decimal number in an environment variable" % name))
            return
        g = x[1][1]
        if g[3] != ("s", env):
            self.faults.setdefault((i, "which"), (st, "%s is read from %s, not from %s" % (name, g[3][1] if g[3][0] == "s" else "another variable", env)))
            return
        self.read.add(name)
        k = lambda v: gate.sgn(v) if sg else v
        lo, hi = (-(1 << 31), (1 << 31) - 1) if sg else (0, (1 << 32) - 1)
        a = b = False
        for p, c in f.sub.get(x, ()):
            if c[0] == "c" and (p[0] == "s") == bool(sg):
                v = k(c[1])
                if p[1:] in ("lt", "le") and v - (p[1:] == "lt") <= hi:
                    a = True
                if p[1:] in ("gt", "ge") and v + (p[1:] == "gt") >= lo:
                    b = True
        if not a or sg and not b:
            self.faults.setdefault((i, "range"), (st, "%s takes the low bits of a number in %s that does not fit" % (name, env)))
        ends = [y for y in f.sub if y[0] == "?"]
        # the end pointer strtoul left: differs from the text's start, and the character there is the terminator
        moved = any(f.has("ne", y, g) for y in ends) or any(f.nonzero(y) for y in [("mem", g, 0, 1)])
        done = any(y[0] in ("mem", "ld") and y[-1] == 1 and y[1][0] in ("?", "gep") and f.zero(y) for y in f.sub)
        if not moved:
            self.faults.setdefault((i, "empty"), (st, "%s is set to 0 by a variable %s without any digits" % (name, env)))
        if not done:
            self.faults.setdefault((i, "tail"), (st, "%s is set from a variable %s with other text behind the number" % (name, env)))


def environment(rep, cfg, P, L):
    fn = P.get("nostr_config_load_env")
    c = Env(P, fn, gate.succ_zero, None, lambda p, a, b: True, 16, ())
    c.promote, c.tcap = {}, 16
    c.fields = {L.off[("nostr_config", n)][:2]: n for n in F}
    c.faults, c.seen, c.kept, c.read = {}, set(), set(), set()
    E = esp.Engine(fn, c, P.fx, 60000)
    c.E = E
    E.run()
    rep.fns.add(fn.name)
    rep.count("engine_steps", E.steps)
    for (i, key), (st, why) in c.faults.items():
        rep.obl(False, "%s:%s:%s" % (fn.name, key, why.split()[0]), loc(fn, i), why + " [%s configuration]" % cfg, E.trail_lines(st))
    for n in F:
        k = "%s:%s" % (fn.name, n)
        if n in c.read:
            rep.obl(True, k, cfg)
        elif not c.faults:
            rep.obl(False, k, loc(fn, fn.blocks[0].insts[0]), "%s cannot be set with %s [%s configuration]" % (n, F[n][4], cfg))
        if n in c.read and n not in c.kept:
            rep.obl(False, k + "-kept", loc(fn, fn.blocks[0].insts[0]), "%s is not left as it was when %s is absent or unusable [%s configuration]" % (n, F[n][4], cfg))


def glob(P, name):
    G = P.m.globals
    return next((g for g in (G.values() if isinstance(G, dict) else G) if g.name == name), None)


class Calls(gate.GateClient):
    pass


def install(rep, cfg, P, L):
    size = L.size["nostr_config"]
    G, I, K, U = (glob(P, n) for n in ("g_config", "g_config_initialized", "g_config_callback", "g_config_callback_user_data"))
    if not (G and I and K and U):
        raise Broken("the settings in force (g_config and its companions) are gone (%s)" % cfg)
    gi = ("mem", ("g", I.name), 0, I.size)
    told = []

    def mdl(C, E, st, i, a):
        return ("nostr_config_validate",) + a
    models = {"nostr_config_validate": ((("b", size),), mdl)}

    def tell(C, E, st, i, a):
        cal = i.callee
        told.append((C.vterm(E, st, cal) if cal is not None and not getattr(cal, "is_fn", False) else None,
                     [C.content(E, st, i.ops[0], size), C.content(E, st, i.ops[1], size), C.vterm(E, st, i.ops[2])] if len(i.ops) >= 3 else None, i, gate.Facts(C, E, st).at(G, 0, size)))
        t = ("ret", "callback", i.id)
        C.generic_writes(E, st, i, t)
        return t
    models[None] = ((), tell)
    every = lambda E, st, v: [st]
    inter = lambda p, a, b: any(t and (t[0] == "nostr_config_validate" or t == gi or t == A0) for t in (a, b))
    now = ("mem", ("g", G.name), 0, size)

    def valid(f):
        on = f.at(I, 0, I.size)
        if on == gi or on[:4] == gi[:4] and f.nonzero(gi):
            return True
        if on == ("c", 0):
            return True
        c = f.at(G, 0, size)
        return f.zero(("nostr_config_validate", c))
    def once(f):
        c, on = f.at(G, 0, size), f.at(I, 0, I.size)
        return not f.nonzero(gi) or c == now and on in (gi, ("c", 1)) or c[:4] == now[:4]
    judge(rep, cfg, "nostr_init_with_config", [
        ("valid", "settings come into force that were not found valid as they stand", valid),
        ("once", "a second initialisation changes the settings in force", once),
        ("given", "the caller's settings were given, but others come into force", lambda f: f.nonzero(gi) or f.at(I, 0, I.size) == gi or f.zero(A0) or f.at(G, 0, size)[:4] == ("mem", A0, 0, size)),
    ], succ=every, models=models, interest=inter)
    told.clear()
    judge(rep, cfg, "nostr_config_update", [
        ("valid", "an update succeeds without the new settings having been found valid", lambda f: f.zero(("nostr_config_validate", ("mem", A0, 0, size)))),
        ("initialised", "an update succeeds before any settings came into force", lambda f: f.nonzero(gi)),
        ("takes-effect", "after an update the settings in force are not the caller's", lambda f: f.at(G, 0, size)[:4] == ("mem", A0, 0, size)),
    ], models=models, interest=inter)
    fn = P.get("nostr_config_update")
    tt = list(told)
    for what, pos, want in (("old", 0, now), ("new", 1, ("mem", A0, 0, size))):
        bad = [x for x in tt if not x[1] or x[1][pos][:4] != want[:4]]
        ok = bool(tt) and not bad
        rep.obl(ok, "nostr_config_update:tells-%s" % what, cfg if ok else loc(fn, bad[0][2] if bad else fn.blocks[0].insts[0]),
                None if ok else "the change callback is not given the %s settings [%s configuration]" % (what, cfg))
    bad = [x for x in tt if not x[1] or x[1][2] != ("mem", ("g", U.name), 0, 8)]
    rep.obl(bool(tt) and not bad, "nostr_config_update:tells-data", cfg if not bad else loc(fn, bad[0][2]), None if tt and not bad else "the change callback is not given its own user data [%s configuration]" % cfg)
    judge(rep, cfg, "nostr_config_update", [
        ("unchanged", "a refused update changes the settings in force", lambda f: f.at(G, 0, size) == now and f.at(I, 0, I.size) == gi)], succ=gate.succ_nonzero, models=models, interest=inter)
    judge(rep, cfg, "nostr_config_get_current", [
        ("initialised", "settings are handed out before any came into force", lambda f: f.nonzero(gi)),
        ("copy", "the settings handed out are not those in force", lambda f: f.at(f.rv, 0, size)[:4] == now),
    ], succ=gate.succ_nonzero, models=models, interest=inter)
    if gate.run(P, "nostr_config_get_current", gate.succ_zero).good:
        judge(rep, cfg, "nostr_config_get_current", [("absent", "no settings are handed out although some are in force", lambda f: f.zero(gi))], succ=gate.succ_zero, models=models, interest=inter)
    judge(rep, cfg, "nostr_config_set_callback", [
        ("stored", "the change callback or its user data is not the caller's", lambda f: f.at(K, 0, 8) == A0 and f.at(U, 0, 8) == ("arg", 1))], models=models)
    # no one else writes the settings in force
    own = {"nostr_init_with_config", "nostr_config_update", "nostr_config_set_callback"}
    for name, g in sorted(P.fn.items()):
        if not g.blocks or name in own:
            continue
        for i in g.insts():
            dst = i.ops[1] if i.op == "store" else i.ops[0] if i.op == "call" and (i.cname or "").startswith(("llvm.mem", "mem")) and i.ops else None
            if dst is not None:
                b = dst
                while getattr(b, "op", None) in ("gep", "bitcast"):
                    b = b.ops[0]
                if b in (G, I, K, U):
                    rep.obl(False, "writer:%s" % name, loc(g, i), "the settings in force are changed outside initialisation and update [%s configuration]" % cfg)
    rep.count("functions_scanned_for_writers", len(P.fn))


def limits(rep, cfg, P, L):
    """at a place where an event grows, the amount was found within the configured limit, or nothing is configured"""
    def places(fn, O, what, counted, strict, at, key, why):
        o = L.off[("nostr_config", what)][0]
        lim = {(("call", "nostr_config_get_current"), (o,))}
        cur = {(("call", "nostr_config_get_current"), ())}

        def settles(v, z):
            v = light.conv(v)
            if not isinstance(v, Inst):
                return False
            if v.op == "icmp":
                a, b = v.ops
                p = v.pred if not z else NOT[v.pred]
                if isinstance(light.conv(a), Const) or isinstance(light.conv(b), Const):
                    return False
                x, y = (O.value(light.conv(q)) for q in (a, b))
                if not all(isinstance(light.conv(q), Inst) and light.conv(q).op in ("load", "call", "phi") for q in (a, b)):
                    return False
                if any(light.conv(q).cname == "strnlen" and isinstance(light.conv(q).ops[1], Const) and light.conv(q).ops[1].v <= F[what][2] for q in (a, b) if light.conv(q).op == "call"):
                    return False
                if x == lim:
                    x, y, p = y, x, SWAP[p]
                return y == lim and counted(x) and p in (("ult", "slt") if strict else ("ult", "slt", "ule", "sle", "eq"))
            return z and O.value(v) == cur
        pp = light.Paths(fn, {}, at=at, settles=settles)
        bad = pp.run(None)
        rep.fns.add(fn.name)
        rep.count("states", pp.done)
        ok = bad is None and pp.goods > 0
        rep.obl(ok, "%s:%s" % (fn.name, key), loc(fn, fn.blocks[0].insts[0]) if not ok else cfg, None if ok else why + " [%s configuration]" % cfg, bad)
    tc = L.off[("nostr_event", "tags_count")]
    fn = P.get("nostr_event_add_tag")
    O = origin.Origin(fn)
    at = [i.id for i in fn.insts() if i.op == "store" and any(x[0] == ("arg", 0) and x[1] == () and x[2] == tc[0] for x in O.addr(i.ops[1]))]
    if not at:
        raise Broken("nostr_event_add_tag no longer counts tags (%s)" % cfg)
    places(fn, O, "max_tags", lambda x: x == {(("arg", 0), (tc[0],))}, True, at, "max-tags", "a tag is added without the number of tags having been found below the configured maximum")
    fn = P.get("nostr_event_from_json")
    O = origin.Origin(fn)
    at = [i.id for i in fn.insts() if i.op == "call" and i.cname in ("strdup", "strndup", "memcpy", "strcpy") and any(x[0][:2] == ("item", "content") for q in i.ops for x in O.value(q) if x[0])]
    if not at:
        raise Broken("nostr_event_from_json no longer copies the content (%s)" % cfg)
    places(fn, O, "max_content_size", lambda x: len(x) == 1 and min(x)[0][:2] == ("item", "content") and min(x)[1][-1:] == ("len",), False, at, "max-content",
           "content is taken over without its length having been found within the configured maximum")


def check(rep, tier):
    rep.expl = ("All paths of the configuration functions were explored. Validation succeeds exactly when each of the 13 settings lies in its documented range; defaults are the documented ones; each "
                "environment variable sets its own setting, and only to a decimal number that fills the whole variable and fits; settings come into force only after having been found valid as they stand, "
                "are replaced only by a valid update, and are handed out as they are; adding a tag respects the configured maximum.")
    rep.assume = ["strtol and strtoul behave as specified by C"]
    for cfg in CONFIGS:
        P, L = prog.prog(cfg), layout.layout(cfg)
        for n in F:
            if ("nostr_config", n) not in L.off:
                raise Broken("nostr_config.%s is gone" % n)
        validate(rep, cfg, L)
        defaults(rep, cfg, L)
        environment(rep, cfg, P, L)
        install(rep, cfg, P, L)
        limits(rep, cfg, P, L)

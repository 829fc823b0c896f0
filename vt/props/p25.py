"""NIP-01 kind classes and which of two replaceable events wins."""
import gate, prog, layout, esp
from esp import mk
from ir import Const
from spec import *

TECHNIQUE = "path-sensitive dataflow over LLVM IR: value ranges of the kind and comparison facts in every state reaching a return"

LO, HI = -(1 << 31), (1 << 31) - 1
CLASSES = {"NOSTR_KIND_EPHEMERAL": [(20000, 29999)], "NOSTR_KIND_ADDRESSABLE": [(30000, 39999)], "NOSTR_KIND_REPLACEABLE": [(0, 0), (3, 3), (10000, 19999)]}
CLASSES["NOSTR_KIND_REGULAR"] = [(LO, -1), (1, 2), (4, 9999), (40000, HI)]


def within(E, st, v, ivs):
    """is the value confined to the intervals in this state?"""
    out, at = [], LO
    for lo, hi in sorted(ivs):
        if at < lo:
            out.append((at, lo - 1))
        at = hi + 1
    if at <= HI:
        out.append((at, HI))
    for lo, hi in out:
        for s in E.acmp(st.copy(), "sge", v, mk(lo & 0xffffffff, 32)):
            if E.acmp(s, "sle", v, mk(hi & 0xffffffff, 32)):
                return False
    return True


def check(rep, tier):
    rep.expl = ("All paths of the kind classifier: the range of kinds reaching each answer lies inside that class (the four classes partition the kinds). The four class predicates follow it. "
                "All paths of the replaceable comparison: the sign returned is backed by the comparison of creation times, or by equal creation times and the 32-byte comparison of the ids, the lower id winning.")
    for cfg in CONFIGS:
        L, P = layout.layout(cfg), prog.prog(cfg)
        f = P.get("nostr_kind_get_type")
        kind = f.args[0]

        def attempt():
            c = gate.GateClient(P, f, lambda E, st, v: [st])
            E = c.E = esp.Engine(f, c, P.fx, 60000)
            E.run()
            bad = []
            for st, i, v in c.good:
                k = E.ev(st, v)
                cls = [n for n in CLASSES if L.enums[n] == k]
                if not cls or not within(E, st, kind, CLASSES[cls[0]]):
                    bad.append((st, i, cls))
            return not bad, (c, bad)
        c, bad = esp.refine(attempt)
        rep.fns.add(f.name)
        rep.need("returns of the kind classifier (%s)" % cfg, len(c.good), 4)
        for n in CLASSES:
            b = [x for x in bad if x[2] == [n] or not x[2]]
            rep.obl(not b, "nostr_kind_get_type:%s" % n, loc(f, b[0][1]) if b else cfg, "a kind outside %s is classed as %s [%s]" % (CLASSES[n], n, cfg), c.E.trail_lines(b[0][0]) if b else None)
        for n, p in (("REGULAR", "regular"), ("REPLACEABLE", "replaceable"), ("EPHEMERAL", "ephemeral"), ("ADDRESSABLE", "addressable")):
            fn = "nostr_kind_is_" + p
            g = P.get(fn)
            code = L.enums["NOSTR_KIND_" + n]
            other = [iv for m, ivs in CLASSES.items() if m != "NOSTR_KIND_" + n for iv in ivs]

            def fact(x, want, ivs):
                t = ("nostr_kind_get_type", ("arg", 0))
                return x.has("eq" if want else "ne", t, ("c", code)) or within(x.E, x.st, g.args[0], ivs) or \
                    not want and x.any(lambda p2, a, b: p2 == "eq" and a == t and b[0] == "c" and b[1] != code)
            judge(rep, cfg, fn, [("yes", "a kind of another class is reported %s" % p, lambda x: fact(x, True, CLASSES["NOSTR_KIND_" + n]))], succ=gate.succ_nonzero)
            judge(rep, cfg, fn, [("no", "a %s kind is not reported as such" % p, lambda x: fact(x, False, other))], succ=gate.succ_zero)
        # which replaceable event wins
        A, B = fld(L, "nostr_event", "created_at", 0), fld(L, "nostr_event", "created_at", 1)
        io, isz = L.off[("nostr_event", "id")][:2]

        def idc(x, sign):
            """sign of the id comparison a - b"""
            for t in x.heads("memcmp"):
                if t[3:] != (("c", isz),):
                    continue
                for s, (u, v) in ((1, (0, 1)), (-1, (1, 0))):
                    if t[1:3] == (("mem", ("arg", u), io, isz), ("mem", ("arg", v), io, isz)):
                        w = s * sign
                        if sign == 0 and (x.zero(t) or x.has("sle", t, ("c", 0)) and x.has("sge", t, ("c", 0))):
                            return True
                        if sign and x.any(lambda p, a, b: a == t and b[0] == "c" and (
                                (p == "sgt" and gate.sgn(b[1], 32) >= 0 or p == "sge" and gate.sgn(b[1], 32) >= 1) if w > 0 else
                                (p == "slt" and gate.sgn(b[1], 32) <= 0 or p == "sle" and gate.sgn(b[1], 32) <= -1))):
                            return True
            return False

        def eqt(x):
            return x.has("eq", A, B) or x.has("sle", A, B) and x.has("sge", A, B) or x.has("sle", A, B) and x.has("sle", B, A)

        def newer(x, a, b):
            return x.has("sgt", a, b) or x.has("slt", b, a) or x.has("sge", a, b) and x.has("ne", a, b)

        def null(x):
            return x.zero(("arg", 0)) or x.zero(("arg", 1)) or x.has("eq", ("arg", 0), ("arg", 1))

        def deleg(x):
            return any(t[1:3] == (("arg", 0), ("arg", 1)) for t in x.heads("nostr_event_compare_replaceable")) or repr(x.val).startswith("('nostr_event_compare_replaceable', ('arg', 0), ('arg', 1)")
        for fn in ("nostr_event_compare_replaceable", "nostr_event_compare_addressable"):
            d = fn.endswith("addressable")
            judge(rep, cfg, fn, [("first", "the first event wins although it is neither newer nor equally old with the lower id",
                                  lambda x: d and deleg(x) or newer(x, A, B) or eqt(x) and idc(x, -1))],
                  succ=lambda E, st, v: E.acmp(st, "sgt", v, mk(0, 32)))
            judge(rep, cfg, fn, [("second", "the second event wins although it is neither newer nor equally old with the lower id",
                                  lambda x: d and deleg(x) or newer(x, B, A) or eqt(x) and idc(x, 1))],
                  succ=lambda E, st, v: E.acmp(st, "slt", v, mk(0, 32)))
            judge(rep, cfg, fn, [("tie", "two events tie although they differ in age or id", lambda x: d and deleg(x) or null(x) or eqt(x) and idc(x, 0) or
                                  x.has("ne", A, B) and eqt(x))])

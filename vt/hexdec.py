"""Hex text: every decoded byte comes from two hex digits, and callers insist on the full length.

Digit rule: where a byte is assembled as hi*16+lo from characters, each nibble must be (character - K) with the
character known, at that point, to lie in the digit class K belongs to (48: '0'..'9', 55: 'A'..'F', 87: 'a'..'f'),
and both nibbles must be known to be 0..15 when they are combined.
Caller rule: on the paths where a decoder failed or produced fewer bytes than the destination holds, the caller
does not report success."""
import esp, prog, layout, re
from esp import BaseClient, mk, s_of
from ir import Inst, Const
from num import SCAN, NEngine

CLASS = {48: (48, 57), 55: (65, 70), 87: (97, 102)}
DECODERS = {"nostr_hex_decode": "count", "nostr_hex_to_bytes": "err"}


def linear(v, d=0):
    """(root, k) with v = root + k through width changes, else None"""
    k = 0
    while isinstance(v, Inst) and d < 20:
        d += 1
        if v.op in ("zext", "sext", "freeze", "trunc"):
            v = v.ops[0]
        elif v.op in ("add", "sub") and isinstance(v.ops[1], Const):
            k += v.ops[1].s if v.op == "add" else -v.ops[1].s
            v = v.ops[0]
        else:
            break
    return v, k


def leaves(v, seen, out):
    if isinstance(v, Inst):
        if v in seen:
            return
        seen.add(v)
        if v.op in ("phi", "select"):
            for o in (v.ops if v.op == "phi" else v.ops[1:]):
                leaves(o, seen, out)
            return
        if v.op in ("zext", "sext", "trunc", "freeze"):
            leaves(v.ops[0], seen, out)
            return
        if v.op == "and" and isinstance(v.ops[1], Const):
            out.append((v, v))
            return
    out.append((v, v))


def nibble_parts(i):
    """(hi, lo) if i assembles hi*16 + lo from characters"""
    if i.op not in ("or", "add") or len(i.ops) != 2:
        return None
    for a, b in (i.ops, i.ops[::-1]):
        while isinstance(a, Inst) and a.op in ("zext", "sext", "trunc"):
            a = a.ops[0]
        if isinstance(a, Inst) and isinstance(a.ops[1] if len(a.ops) == 2 else None, Const):
            if (a.op == "shl" and a.ops[1].v == 4) or (a.op == "mul" and a.ops[1].v == 16):
                return a.ops[0], b
    return None


class Hex(BaseClient):
    init = False            # text length known to be even
    cap = 12

    def on_fact(self, E, st, pred, a, b):
        if pred == "eq":
            for x, y in ((E.res(st, a), E.res(st, b)), (E.res(st, b), E.res(st, a))):
                while isinstance(x, Inst) and x.op in ("zext", "sext", "trunc"):
                    x = E.res(st, x.ops[0])
                if isinstance(x, Inst) and ((x.op in ("urem", "srem") and E.ev(st, x.ops[1]) == 2) or (x.op == "and" and E.ev(st, x.ops[1]) == 1)) and E.ev(st, y) == 0:
                    st.ts = True
                elif isinstance(x, Inst) and x.op == "call" and x.cname in ("strlen", "strnlen") or hasattr(x, "ty") and hasattr(x, "idx") and not isinstance(x, Inst):
                    k = E.ev(st, y)
                    yy = E.res(st, y)
                    if (k is not None and k and k % 2 == 0) or (isinstance(yy, Inst) and (yy.op == "mul" and E.ev(st, yy.ops[1]) == 2 or yy.op == "shl" and E.ev(st, yy.ops[1]) == 1)):
                        st.ts = True
        return st

    def on_ret(self, E, st, i, val):
        if self.how is None or val is None or st.ts:
            return
        k = E.rng(st, val)
        if self.how == "count" and k[3] >= 0 or self.how == "err" and k[0] == 0:
            self.bad.setdefault((i, "odd"), "text with an odd number of digits may be accepted")

    def __init__(self, combos, leafs, how=None):
        self.how = how
        self.combos, self.leafs = combos, leafs
        self.targets = set(combos) | set(leafs)
        self.bad = {}
        self.seen = set()

    def visit(self, E, st, i):
        self.seen.add(i)
        if i in self.combos:
            for v, n in zip(self.combos[i], ("high", "low")):
                r = E.rng(st, v)
                if not (r[0] >= 0 and r[1] <= 15 or (r[2] >= 0 and r[3] <= 15)):
                    self.bad.setdefault((i, n), "the %s digit may lie outside 0..15 (%d..%d)" % (n, r[2], r[3]))
        if i in self.leafs:
            root, k = linear(i)
            r = E.rng(st, root)
            lo, hi = (r[2], r[3])
            c = CLASS.get(-k)
            if c is None or lo < c[0] or hi > c[1]:
                self.bad.setdefault((i, "c"), "a character in %d..%d is read as the digit character-%d" % (lo, hi, -k))


class Caller(BaseClient):
    init = ("n", frozenset())
    cap = 10

    def __init__(self, P, site):
        self.P, self.site = P, site
        self.bad = {}

    def keep(self, st):
        return ({self.site} if st.ts[0] != "n" else set()) | {r for r, _ in st.ts[1] if isinstance(r, Inst)}

    def on_fact(self, E, st, pred, a, b):
        if pred == "eq":
            for x, y in ((E.res(st, a), E.res(st, b)), (E.res(st, b), E.res(st, a))):
                k = E.ev(st, y)
                if isinstance(x, Inst) and x.op == "call" and x.cname in ("strlen", "strnlen") and k is not None and len(st.ts[1]) < 6:
                    st.ts = (st.ts[0], st.ts[1] | {(E.res(st, x.ops[0]), k)})
        return st

    def on_phi(self, E, st, phis):
        if any(r in phis for r, _ in st.ts[1]):
            st.ts = (st.ts[0], frozenset(x for x in st.ts[1] if x[0] not in phis))

    def on_call(self, E, st, i):
        if i is not self.site:
            return None
        kb = None
        hexp, outp = E.res(st, i.ops[0]), None
        want = E.ev(st, i.ops[2] if i.cname == "nostr_hex_decode" else i.ops[3])
        exact = False
        if i.cname == "nostr_hex_decode":
            # the text was already required to have exactly 2*want characters on this path
            exact = want is not None and (hexp, 2 * want) in st.ts[1]
        else:
            n = E.ev(st, i.ops[1])
            exact = n is not None and want is not None and n == 2 * want
        E.clobber(st, i)
        out = []
        w = i.w
        if i.cname == "nostr_hex_decode":
            cases = [("f", "eq", (1 << w) - 1), ("o", "eq", want) if want is not None else ("o", "sge", 0)]
            for t, p, k in cases:
                for s in E.acmp(st.copy(), p, i, mk(k, w)):
                    s.ts = (t, st.ts[1])
                    out.append(s)
            if want is not None and not exact:
                for s in E.acmp(st.copy(), "slt", i, mk(want, w)):
                    for s2 in E.acmp(s, "sge", i, mk(0, w)):
                        s2.ts = ("s", st.ts[1])
                        out.append(s2)
        else:
            for s in E.acmp(st.copy(), "ne", i, mk(0, w)):
                s.ts = ("f", st.ts[1])
                out.append(s)
            for s in E.acmp(st.copy(), "eq", i, mk(0, w)):
                s.ts = ("o", st.ts[1])
                out.append(s)
                if not exact:
                    s2 = s.copy()
                    s2.ts = ("s", st.ts[1])
                    out.append(s2)
        return out

    def on_ret(self, E, st, i, val):
        t = st.ts[0]
        if t in ("f", "s") and val is not None:
            k = E.ev(st, val)
            if k == 0 or k is None:
                self.bad.setdefault(t, (i, E.trail_lines(st)))


def one(a):
    cfg, name = a
    P = prog.prog(cfg)
    f = P.fn[name]
    out, n = [], 0
    if not f.blocks:
        return name, 0, []
    for i in f.insts():
        if i.op == "call" and i.cname in SCAN:
            fmt = getattr(prog.base_off(i.ops[1])[0], "init_str", None)
            if fmt is None or re.search(rb"%[0-9]*h*[xX]", fmt):
                n += 1
                out.append(("lenient", i.cname, i.loc, "sscanf %x accepts blanks, signs and 0x prefixes in place of digits", []))
    combos, leafs = {}, set()
    for i in f.insts():
        p = nibble_parts(i)
        if p is None:
            continue
        ls = []
        for v in p:
            leaves(v, set(), ls)
        chars = [l for l, _ in ls if isinstance(l, Inst) and isinstance(linear(l)[0], Inst) and linear(l)[0].op == "load" and linear(l)[0].w == 8 and linear(l)[1]]
        if not chars:
            continue
        combos[i] = p
        leafs |= set(chars)
    if combos:
        c = esp.explore(lambda: Hex(combos, leafs, DECODERS.get(name)), f, P.fx, eng=NEngine)
        n += len(combos) + len(leafs) + (name in DECODERS)
        for (i, k), why in c.bad.items():
            out.append(("digit", i.op, i.loc, why, []))
    p = layout.layout(cfg).protos.get(name)
    if p is not None and p[0] in ("nostr_error_t", "nostr_relay_error_t"):
        for i in f.insts():
            if i.op == "call" and i.cname in DECODERS:
                n += 1
                c = esp.explore(lambda: Caller(P, i), f, P.fx)
                for t, (j, tr) in c.bad.items():
                    out.append(("caller", i.cname, i.loc, "success is reported at %s:%s although the hex text was %s" % (j.file, j.line, "malformed" if t == "f" else "shorter than the value"), tr))
    return name, n, out


def run(cfg):
    import multiprocessing
    P = prog.prog(cfg)
    layout.layout(cfg)
    names = sorted(P.fn, key=lambda n: -sum(1 for _ in P.fn[n].insts()))
    with multiprocessing.get_context("fork").Pool(8) as pool:
        return pool.map(one, [(cfg, n) for n in names], chunksize=1)

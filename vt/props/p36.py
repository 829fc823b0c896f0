"""Text checks accept exactly their language."""
import gate, prog, layout, charset, esp, origin
from ir import Inst, Const, Arg
from filt import lin
from walk import tests, loop_body
from front import Broken
from spec import *

TECHNIQUE = "value-set dataflow over LLVM IR (all 256 values of the scanned byte through each scanning loop), loop-coverage analysis and path-sensitive gates on the lengths"
R = lambda *p: frozenset(x for a, b in p for x in range(a, b + 1))
LOWHEX = R((48, 57), (97, 102))
HEX = R((48, 57), (65, 70), (97, 102))
DIGIT = R((48, 57))
PRINT = R((32, 126))
ALNUM = R((48, 57), (65, 90), (97, 122))
LOCAL = ALNUM | {45, 46, 95}
DOMAIN = ALNUM | {45, 46}
A0 = ("arg", 0)
NAMES = {LOWHEX: "lower-case hex digits", HEX: "hex digits", DIGIT: "decimal digits", PRINT: "printable ASCII characters", LOCAL: "letters, digits, '-', '_' and '.'", DOMAIN: "letters, digits, '-' and '.'"}


def chars(s):
    out = []
    for x in sorted(s):
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    q = lambda x: "'%c'" % x if 33 <= x <= 126 else "0x%02x" % x
    return ", ".join(q(a) if a == b else "%s..%s" % (q(a), q(b)) for a, b in out)


def desc(v, n=0):
    """where a pointer or a length comes from"""
    if isinstance(v, Arg):
        return "arg%d" % v.idx
    if isinstance(v, Const):
        return str(v.s) if v.kind == "int" else v.kind
    if not isinstance(v, Inst) or n > 8:
        return "?"
    if v.op in ("ptrtoint", "inttoptr", "bitcast", "zext", "sext", "trunc", "freeze"):
        return desc(v.ops[0], n + 1)
    if v.op == "gep" and v.gep:
        s = desc(v.ops[0], n + 1) + ("+%d" % v.gep[0] if v.gep[0] else "")
        for x, sc in v.gep[1]:
            s += "+%s" % desc(x, n + 1) + ("*%d" % sc if sc != 1 else "")
        return s
    if v.op == "call" and v.cname in ("strchr", "memchr", "strlen", "strnlen"):
        return "%s(%s)" % (v.cname, ",".join(desc(x, n + 1) for x in v.ops[:2 if v.cname != "strlen" else 1]))
    if v.op == "sub":
        return "(%s-%s)" % (desc(v.ops[0], n + 1), desc(v.ops[1], n + 1))
    if v.op == "add" and isinstance(v.ops[1], Const):
        return "%s+%d" % (desc(v.ops[0], n + 1), v.ops[1].s)
    return "?"


# function -> (success, [(key, what, class, also refused in some positions, root, length lo, hi, ends)])
AT = "strchr(arg0,64)"
C1 = "strchr(arg0,58)"
C2 = "strchr(%s+1,58)" % C1
T = {
    "nostr_validate_hex64": (gate.succ_nonzero, [("text", "the text", LOWHEX, (), "arg0", 64, 64, ())]),
    "nostr_validate_hex_prefix": (gate.succ_nonzero, [("text", "the text", LOWHEX, (), "arg0", 1, 64, ())]),
    "nostr_validate_subscription_id": (gate.succ_nonzero, [("text", "the identifier", PRINT, (), "arg0", 1, 64, ())]),
    "nostr_validate_address": (gate.succ_nonzero, [("kind", "the kind part", DIGIT, (), "arg0", None, None, (C1, "(%s-arg0)" % C1)),
                                                  ("key", "the key part", LOWHEX, (), C1 + "+1", None, None, (C2, "(%s-%s+1)" % (C2, C1), "64"))]),
    "nostr_nip05_parse": (gate.succ_zero, [("name", "the name", LOCAL, (), "arg0", None, None, (AT, "(%s-arg0)" % AT)),
                                           ("domain", "the domain", DOMAIN, (46,), AT + "+1", None, None, ())]),
    "nostr_repost_create": (gate.succ_zero, [("event", "the event id", HEX, (), "arg1", 64, 64, ()), ("author", "the author key", HEX, (), "arg2", 64, 64, ())]),
    "nostr_reaction_create": (gate.succ_zero, [("event", "the event id", HEX, (), "arg2", 64, 64, ()), ("author", "the author key", HEX, (), "arg3", 64, 64, ())]),
    "nostr_list_add_pubkey": (gate.succ_zero, [("key", "the public key", HEX, (), "arg1", 64, 64, ())]),
    "nostr_list_add_event": (gate.succ_zero, [("event", "the event id", HEX, (), "arg1", 64, 64, ())]),
}


def limits(f, t):
    """what the path knows about the unsigned value t: (lo, hi)"""
    lo, hi = 0, None
    out = set()
    for p, b in f.sub.get(t, ()):
        if b[0] != "c":
            continue
        k = b[1]
        if p == "eq":
            lo, hi = max(lo, k), k if hi is None else min(hi, k)
        elif p in ("ugt", "uge"):
            lo = max(lo, k + (p == "ugt"))
        elif p in ("ult", "ule"):
            k -= p == "ult"
            hi = k if hi is None else min(hi, k)
        elif p == "ne":
            out.add(k)
    while lo in out:
        lo += 1
    return lo, hi, out


def disjoint(f, t, a, b):
    lo, hi, out = limits(f, t)
    return lo > b or hi is not None and hi < a or a == b and a in out


def byte_of(t, root):
    """a byte of the text at root"""
    if t[0] in ("sub", "add", "and", "trunc", "or", "xor"):
        return any(isinstance(x, tuple) and byte_of(x, root) for x in t[1:])
    return t[0] in ("mem", "ld", "at") and t[-1] == 1 and repr(root) in repr(t)


def slen(root):
    return ("strlen", ("mem",) + ((root[1], root[2], None) if root[0] == "gep" else (root, 0, None)))


def stops(fn, body, phi, allowed, live):
    """ways out of the loop that neither depend on the character nor on an allowed end of the text, nor lead to failure"""
    dep = set()
    todo = [i for b in body for i in b.insts if i.op == "load" and i.w == 8]
    users = {}
    for i in fn.insts():
        for o in i.ops:
            if isinstance(o, Inst):
                users.setdefault(o, []).append(i)
        if i.op == "phi":
            for v, b in i.inc:
                if isinstance(v, Inst):
                    users.setdefault(v, []).append(i)
    while todo:
        x = todo.pop()
        if x in dep:
            continue
        dep.add(x)
        todo += users.get(x, ())
    bad = []
    for b in body:
        leaves = [s for s in b.succs if s not in body and (b, s) in live]
        if not leaves:
            continue
        t = b.insts[-1]
        ts = list(tests(b, body))
        for i, lv in ts:
            if i in dep:
                continue
            x, y, p = i.ops[0], i.ops[1], i.pred
            (rx, kx), (ry, ky) = lin(x), lin(y)
            if ry is phi:
                (rx, kx), (ry, ky), p = (ry, ky), (rx, kx), esp.SWAP[p]
            if rx is phi and p in ("eq", "ne", "ugt", "sgt", "sge") and isinstance(ry, Const) and allowed == {"0"}:
                z = ry.s + ky - kx
                if z == 0 and (p == "sge") != charset.down(body, phi) or z == -1 and p == "sgt" and not charset.down(body, phi):
                    continue
            if rx is phi:
                k = ky - kx + (1 if p in ("ule", "ugt", "sle", "sgt") else 0)
                if isinstance(ry, Const) and ry.kind == "int":
                    # lin() may fold the constant itself
                    d, k = str(ry.s + ky - kx + (1 if p in ("ule", "ugt", "sle", "sgt") else 0)), 0
                else:
                    d = desc(ry)
                if d in allowed and k == 0:
                    continue
                if d in allowed and k > 0:
                    continue
                if set(lv) & set(leaves):
                    bad.append((i, "the scan ends before the end of the text (at %s%s)" % (d, "%+d" % k if k else "")))
            elif set(lv) & set(leaves):
                bad.append((i, "the scan can stop for a reason that has nothing to do with the text"))
        if not ts and t.op == "br" and len(b.succs) == 2 and t.ops and t.ops[0] not in dep:
            bad.append((t, "the scan can stop for a reason that has nothing to do with the text"))
    return bad


def scans(rep, P, cfg, fname):
    fn = P.get(fname)
    succ, texts = T[fname]
    good = (lambda r: r != 0) if succ is gate.succ_nonzero else (lambda r: r == 0)
    gl = list(P.m.globals.values()) if isinstance(P.m.globals, dict) else list(P.m.globals)
    found = []
    for h, body, lds, root, phi, init, step in charset.scanners(fn):
        r = root if phi.w else (init[0] if len(init) == 1 else None)
        acc, rej, skip, live = set(), set(), False, set()
        for v in range(256):
            o, s, x, e = charset.outcomes(fn, set(lds), body, v, good, gl)
            if True in o or None in o:
                acc.add(v)
            if x:
                rej.add(v)
            skip |= s
            live |= e
        rep.count("byte_values", 256)
        if acc and (len(acc) < 255 or rej):
            found.append((h, body, lds, desc(r), phi, init, step, frozenset(acc), frozenset(rej), skip, live))
    used = set()
    for key, what, cls, some, root, lo, hi, ends in texts:
        k = "%s:%s-chars" % (fname, key)
        mine = [x for x in found if x[3] == root]
        if not mine:
            rep.obl(False, k, loc(fn, fn.blocks[0].insts[-1]), "the characters of %s are not checked [%s configuration]" % (what, cfg))
            continue
        both = frozenset(range(256))
        for x in mine:
            both &= x[7] | {0}
            used.add(id(x))
        bad = None
        h, body, lds, d, phi, init, step, acc, rej, skip, live = min(mine, key=lambda x: len(x[7]))
        at = lds[0]
        over, under = (both - {0}) - cls, cls - both
        if over:
            bad = (at, "%s is accepted with %s in it, not only %s" % (what, chars(over), NAMES[cls]))
        elif under:
            bad = (at, "%s is refused because of %s" % (what, chars(under)))
        for x in mine:
            if key == "domain":
                o = charset.outcomes(fn, set(x[2]), x[1], 97, good, gl, always=True)[0]
                if (True in o or None in o) and not bad:
                    bad = (at, "a domain without any dot is accepted")
            wrong = (x[8] & cls) - set(some)
            if wrong and not bad:
                bad = (at, "%s is sometimes refused because of %s" % (what, chars(wrong)))
        if not bad:
            if skip:
                bad = (at, "a character of %s can be passed over unchecked" % what)
            elif phi.w and step < 0 and not (charset.down(body, phi) and all(desc(v) in ({"strlen(%s)" % root} | ({str(lo)} if lo is not None and lo == hi else set())) for v in init)
                                             or not charset.down(body, phi) and all(isinstance(v, Const) and lo is not None and v.s == lo - 1 == hi - 1 for v in init)):
                bad = (at, "the check of %s does not begin at the last character" % what)
            elif phi.w and step > 0 and not all(isinstance(v, Const) and v.s == 0 for v in init):
                bad = (at, "the check of %s does not begin at the first character" % what)
            elif abs(step) != 1:
                bad = (at, "the check of %s moves on by %d characters" % (what, step))
            else:
                allowed = {"strlen(%s)" % root} | set(ends) | ({str(lo)} if lo is not None and lo == hi else set())
                if not phi.w:
                    allowed |= {"%s+strlen(%s)" % (root, root)} | ({"%s+%d" % (root, lo)} if lo is not None and lo == hi else set())
                if step < 0:
                    allowed = {"0"}
                if True:
                    for i, why in stops(fn, body, phi, allowed, live):
                        bad = (i, "%s: %s" % (what, why))
        rep.obl(bad is None, k, loc(fn, bad[0]) if bad else cfg, (bad[1] + " [%s configuration]" % cfg) if bad else None)
    rep.count("scanning_loops", len(found))
    rep.fns.add(fname)


def lengths(rep, cfg, fname):
    succ, texts = T[fname]
    fix = [(k, w, r, lo, hi) for k, w, c, s, r, lo, hi, e in texts if lo is not None]
    if not fix:
        return
    conds = []
    for k, w, r, lo, hi in fix:
        t = slen(("arg", int(r[3:])))
        def ok(f, t=t, lo=lo, hi=hi):
            a, b, out = limits(f, t)
            return a >= lo and b is not None and b <= hi
        conds.append((k + "-length", "%s is accepted without its length having been found to be %s" % (w, lo if lo == hi else "%d to %d" % (lo, hi)), ok))
    judge(rep, cfg, fname, conds, succ=succ, interest=only("strlen"))
    if succ is gate.succ_nonzero:
        k, w, r, lo, hi = fix[0]
        A = ("arg", 0)
        why = lambda f: f.zero(A) or disjoint(f, slen(A), lo, hi) or any(byte_of(t, A) for t in f.sub)
        judge(rep, cfg, fname, [("refused", "%s is refused although it is there, has a permitted length and no character was looked at" % w, why)], succ=gate.succ_zero)


def address(rep, cfg):
    c1 = ("strchr", A0, ("c", 58))
    k0 = ("gep", c1, 1)
    c2 = ("strchr", k0, ("c", 58))
    def keylen(f, yes):
        return any((p in ("eq",) if yes else p in ("ne", "ugt", "ult", "sgt", "slt")) and b == ("c", 64) and a[0] == "sub" and repr(c2) in repr(a) for p, a, b in both(f)) or \
            any((p == "eq" if yes else p == "ne") and {a, b} == {c2, ("gep", c1, 65)} for p, a, b in f.F)
    inter = only("strchr", "sub", "mem", "arg", "gep")
    judge(rep, cfg, "nostr_validate_address", [
        ("colons", "an address is accepted without its two colons having been found", lambda f: f.nonzero(c1) and f.nonzero(c2)),
        ("kind-there", "an address is accepted without a kind in front of the first colon", lambda f: f.has("ne", c1, A0) or f.any(lambda p, a, b: p == "ne" and b == ("c", 0) and a[0] == "sub" and a[1] == c1)
         or f.any(lambda p, a, b: p in ("ugt",) and {a, b} == {c1, A0}) or f.has("ne", ("mem", A0, 0, 1), ("c", 58))),
        ("key-length", "an address is accepted without the key part having been found to be 64 characters long", lambda f: keylen(f, True)),
    ], succ=gate.succ_nonzero, interest=inter)
    def why(f):
        return f.zero(A0) or f.zero(("mem", A0, 0, 1)) or f.zero(c1) or f.has("eq", c1, A0) or f.zero(c2) or keylen(f, False) or \
            any(byte_of(t, A0) or byte_of(t, c1) for t in f.sub if t != ("mem", A0, 0, 1)) or any(b[0] == "c" and b[1] != 0 for p, b in f.sub.get(("mem", A0, 0, 1), ()))
    judge(rep, cfg, "nostr_validate_address", [("refused", "an address is refused although none of its parts was found wrong", why)], succ=gate.succ_zero)


def both(f):
    for p, a, b in f.F:
        yield p, a, b
        yield gate.SW[p], b, a


def timestamp(rep, cfg):
    S = [("add", ("arg", 1), ("nostr_timestamp_now",)), ("add", ("nostr_timestamp_now",), ("arg", 1))]
    D = ("sub", A0, ("nostr_timestamp_now",))
    judge(rep, cfg, "nostr_validate_timestamp", [("bound", "a timestamp is accepted without having been found at most the allowed seconds ahead of the clock",
          lambda f: any(f.has("sle", A0, s) for s in S) or f.has("sle", D, ("arg", 1)))], succ=gate.succ_nonzero)
    judge(rep, cfg, "nostr_validate_timestamp", [("refused", "a timestamp is refused that was not found beyond the allowed future",
          lambda f: any(f.has("sgt", A0, s) for s in S) or f.has("sgt", D, ("arg", 1)))], succ=gate.succ_zero)


def nip05(rep, cfg):
    at = ("strchr", A0, ("c", 64))
    d0 = ("gep", at, 1)
    dl = ("strlen", ("mem", at, 1, None))
    nl = ("sub", at, A0)
    def rng(t, lo, hi):
        def ok(f):
            a, b, out = limits(f, t)
            return a >= lo and b is not None and b <= hi
        return ok
    def last(t):
        if t[0] != "ld" or t[-1] != 1 or t[1][0] != "gepv":
            return False
        g = t[1]
        if g[1] == at:
            g = (g[0], ("gep", at, 1), g[2] - 1, g[3])
        if g[1] != d0 or len(g[3]) != 1 or g[3][0][1] != 1:
            return False
        x, k = g[3][0][0], g[2]
        if x[0] == "sub" and x[2][0] == "c":
            x, k = x[1], k - x[2][1]
        elif x[0] == "add":
            c = next((y for y in x[1:] if y[0] == "c"), None)
            if c:
                x, k = next(y for y in x[1:] if y is not c), k + gate.sgn(c[1])
        return x == dl and k == -1
    judge(rep, cfg, "nostr_nip05_parse", [
        ("at", "an identifier without an '@' is accepted", lambda f: f.nonzero(at)),
        ("name-length", "an identifier is accepted whose name was not found to be 1 to 64 characters long", lambda f: rng(nl, 0, 64)(f) and (limits(f, nl)[0] >= 1 or f.has("ne", at, A0) or f.has("ugt", at, A0))),
        ("domain-length", "an identifier is accepted whose domain was not found to be 1 to 256 characters long", rng(dl, 1, 256)),
        ("name-fits", "a name is handed out that was not found to fit the caller's buffer", lambda f: f.has("ult", nl, ("arg", 2)) or f.has("ugt", ("arg", 2), nl)),
        ("domain-fits", "a domain is handed out that was not found to fit the caller's buffer", lambda f: f.has("ult", dl, ("arg", 4)) or f.has("ugt", ("arg", 4), dl)),
        ("dot-first", "a domain that begins with a dot is accepted", lambda f: f.has("ne", ("mem", at, 1, 1), ("c", 46)) or any(p in ("sgt", "sge", "ugt", "uge") and b[0] == "c" and b[1] >= 46 for p, b in f.sub.get(("mem", at, 1, 1), ()))),
        ("dot-last", "a domain that ends with a dot is accepted", lambda f: f.any(lambda p, a, b: p == "ne" and b == ("c", 46) and last(a))),
    ], interest=lambda p, a, b: any(t and (t[0] in ("strchr", "strlen", "sub", "ld") or t == ("mem", at, 1, 1)) for t in (a, b)))


VAL = ("nostr_validate_hex_prefix", "nostr_validate_hex64")
LISTS = (("ids", VAL[0]), ("authors", VAL[0]), ("e_tags", VAL[1]), ("p_tags", VAL[1]))


def filters(rep, P, L, cfg):
    """a filter is accepted only if each entry of its four hex lists passed that list's check; refused only for such an entry or the search text"""
    fn = P.get("nostr_filter_validate")
    gl = list(P.m.globals.values()) if isinstance(P.m.globals, dict) else list(P.m.globals)
    og = origin.Origin(fn)
    info = esp.info(fn)
    rep.fns.add(fn.name)
    calls = {}
    for i in fn.insts():
        if i.op == "call" and i.cname in VAL:
            for r, path in og.value(i.ops[0]):
                if r == ("arg", 0) and path and path[0] != "[]":
                    calls.setdefault(path[0], []).append(i)
    good = lambda r: r == 0
    for fld, want in LISTS:
        off = L.off[("nostr_filter_t", fld)][0]
        k = "nostr_filter_validate:%s" % fld
        cs = calls.get(off, [])
        if not cs:
            rep.obl(False, k, loc(fn, fn.blocks[0].insts[0]), "the entries of the filter's list %s are not checked [%s configuration]" % (fld, cfg))
            continue
        bad = None
        for i in cs:
            if i.cname != want:
                bad = (i, "the entries of the filter's list %s are checked with %s, not %s" % (fld, i.cname, want))
                continue
            hs = [h for h in info.headers if i.bb in loop_body(info, h)]
            body = loop_body(info, hs[0]) if hs else {i.bb}
            o, skip, rej, e = charset.outcomes(fn, {i}, body, 0, good, gl)
            if True in o or None in o:
                bad = (i, "a filter is accepted although an entry of its list %s did not pass its check" % fld)
            o, skip, rej, e = charset.outcomes(fn, {i}, body, 1, good, gl)
            if not (True in o or None in o):
                bad = (i, "a filter is refused although an entry of its list %s passed its check" % fld)
            elif skip:
                bad = (i, "an entry of the filter's list %s can be passed over unchecked" % fld)
        rep.obl(bad is None, k, loc(fn, bad[0]) if bad else cfg, (bad[1] + " [%s configuration]" % cfg) if bad else None)
    eo, es = L.off[("nostr_validation_result_t", "error_code")][:2]
    vo, vs = L.off[("nostr_validation_result_t", "valid")][:2]
    fs = L.off[("nostr_filter_t", "search")][0]
    inter = lambda p, a, b: any(t and (t[0] in VAL or t[0] == "ret" and t[1] in VAL or t[0] == "strlen" or t[0] == "arg") for t in (a, b))
    big = lambda f: any(limits(f, t)[0] > 1 for t in f.heads("strlen"))
    judge(rep, cfg, fn.name, [
        ("record", "a filter is accepted while the result record does not say valid without error", lambda f: f.content(1, eo, es) == ("c", 0) and f.content(1, vo, vs) == ("c", 1)),
        ("search", "a filter is accepted whose search text was not found to be at most 65536 bytes long", lambda f: f.zero(("mem", A0, fs, 8)) or any(limits(f, t)[1] is not None and limits(f, t)[1] <= 65536 for t in f.heads("strlen")))],
        interest=lambda p, a, b: inter(p, a, b) or ("mem", A0, fs, 8) in (a, b))
    judge(rep, cfg, fn.name, [
        ("refused", "a filter is refused although all arguments were there, no entry failed its check and the search text was not found too long",
         lambda f: f.zero(A0) or f.zero(("arg", 1)) or big(f) or any(f.zero(t) for t in f.heads("ret", *VAL) if t[0] in VAL or t[1] in VAL)),
        ("refused-record", "a filter is refused while the result record says valid, or gives another error than the one returned",
         lambda f: f.zero(("arg", 1)) or f.content(1, vo, vs) == ("c", 0) and f.content(1, eo, es) == f.val)],
        succ=gate.succ_nonzero, interest=inter)


def letters(rep, P, cfg):
    """nostr_tag_is_indexable: one ASCII letter"""
    fn = P.get("nostr_tag_is_indexable")
    rep.fns.add(fn.name)
    gl = list(P.m.globals.values()) if isinstance(P.m.globals, dict) else list(P.m.globals)
    good = lambda r: r != 0
    for pos, want, what in ((0, R((65, 90), (97, 122)), "first"), (1, frozenset([0]), "second")):
        lds = {i for i in fn.insts() if i.op == "load" and i.w == 8 and desc(i.ops[0]) == "arg0" + ("+%d" % pos if pos else "")}
        acc = set()
        for v in range(256):
            o = charset.outcomes(fn, lds, (), v, good, gl)[0]
            if True in o or None in o:
                acc.add(v)
        rep.count("byte_values", 256)
        at = next(iter(lds)) if lds else fn.blocks[0].insts[-1]
        n = any(i.op == "call" and i.cname == "strlen" for i in fn.insts())
        ok = acc == want or pos == 1 and not lds and n
        rep.obl(ok, "%s:%s" % (fn.name, what), cfg if ok else loc(fn, at),
                None if ok else "a tag name counts as indexable with its %s byte in {%s}, which is not exactly {%s} [%s configuration]" % (what, chars(acc) if lds else "anything", chars(want), cfg))
    judge(rep, cfg, fn.name, [("one", "a tag name of other than one character counts as indexable", lambda f: f.zero(("mem", A0, 1, 1)) or f.eqc(slen(A0), 1))], succ=gate.succ_nonzero)


def check(rep, tier):
    rep.expl = ("Every scanning loop of the listed text checks was analysed: each of the 256 values of the byte under examination was followed through the function's branches, "
                "giving the exact set of characters let through and refused; the loop was required to start at the first character, to move by one and to end only at the end of the text. "
                "All paths to acceptance were required to have established the length (and the separators of addresses and identifiers), all refusals to rest on the text.")
    rep.assume = ["character classification (isxdigit and the like) follows the C locale"]
    for cfg in CONFIGS:
        P = prog.prog(cfg)
        for fname in sorted(T):
            if fname not in P.fn:
                raise Broken("%s is gone (%s)" % (fname, cfg))
            scans(rep, P, cfg, fname)
            lengths(rep, cfg, fname)
        address(rep, cfg)
        timestamp(rep, cfg)
        filters(rep, P, layout.layout(cfg), cfg)
        letters(rep, P, cfg)
        nip05(rep, cfg)

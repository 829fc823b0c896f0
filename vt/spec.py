"""Gate specifications: conditions that must hold in every state reaching a success return."""
import esp, gate, prog, terms, layout
from front import Broken

CONFIGS = ("openssl", "mbedtls")


def where(fn, i):
    return "%s:%s (%s)" % (fn.src_file if hasattr(fn, "src_file") else "", getattr(i, "line", 0) or 0, fn.name)


def loc(fn, i):
    f = getattr(fn, "file", None) or ""
    return "%s:%s in %s" % (f, getattr(i, "line", None) or "?", fn.name)


def judge(rep, cfg, fname, conds, succ=gate.succ_zero, models=None, interest=None, limit=60000, pure=(), cap=6, promote=None, tcap=8):
    """conds: [(key, text, predicate(Facts, client, engine, state))]"""
    P = prog.prog(cfg)
    proven = set()

    def attempt():
        c = gate.run(P, fname, succ, models, interest, cap, limit, pure, promote, tcap)
        bad = {}
        for key, text, pred in conds:
            if key in proven:
                continue
            for st, i, v in c.good:
                f = gate.Facts(c, c.E, st)
                f.val = None if v is None else c.vterm(c.E, st, v)
                f.rv = v
                if not pred(f):
                    bad[key] = (st, i)
                    break
            else:
                if c.good:
                    proven.add(key)
        return not bad, (c, bad)
    c, bad = esp.refine(attempt)
    rep.fns.add(fname)
    rep.count("states_at_return", c.nret)
    rep.count("success_states", len(c.good))
    rep.count("engine_steps", c.steps)
    if not c.good:
        # every path fails: the operation is unusable, and no gate can be read off it
        raise Broken("%s (%s): no path reaches a success return" % (fname, cfg))
    for key, text, pred in conds:
        k = "%s:%s" % (fname, key)
        if key in bad:
            rep.obl(False, k, loc(c.fn, bad[key][1]), text + " [%s configuration]" % cfg, c.E.trail_lines(bad[key][0]))
        else:
            rep.obl(True, k, cfg)
    return c


def evid_model(L):
    """nostr_event_compute_id(e): e.id becomes a function of the other fields of e"""
    flds = [("pubkey", None), ("created_at", None), ("kind", None), ("tags", None), ("tags_count", None), ("content", None)]
    fo = [L.off[("nostr_event", f)][:2] for f, _ in flds]
    ido = L.off[("nostr_event", "id")][:2]

    def mdl(C, E, st, i, a):
        b, o = E.ptr(st, i.ops[0])
        if o is None:
            t = ("nostr_event_compute_id", ("?", i.id))
            C.generic_writes(E, st, i, t)
            return t
        ev = ("evid",) + tuple(C.cont(E, st, b, o + x, n) for x, n in fo)
        t = ("nostr_event_compute_id", ev)
        C.generic_writes(E, st, i, t)
        C.wr(E, st, b, o + ido[0], ido[1], ev)
        return t
    return {"nostr_event_compute_id": (("p",), mdl)}


def evid_of(L, argi):
    flds = ("pubkey", "created_at", "kind", "tags", "tags_count", "content")
    return ("evid",) + tuple(("mem", ("arg", argi)) + tuple(L.off[("nostr_event", f)][:2]) for f in flds)


def fld(L, rec, f, argi=0, add=0, size=None):
    o, n = L.off[(rec, f)][:2]
    return ("mem", ("arg", argi), o + add, n if size is None else size)


def only(*names):
    """interest filter: keep facts whose terms mention one of the named functions at their head (or as a direct argument)"""
    ns = set(names)
    def inter(p, a, b):
        for t in (a, b):
            if t and (t[0] in ns or t[0] == "ret" and t[1] in ns):
                return True
        return False
    return inter


def unsub(t):
    """content of a prefix of an object is named after the object"""
    while t and t[0] == "sub" and t[2] == 0:
        t = t[1]
    return t


def narrow(k):
    """a call named after its first k arguments only (facts about it survive joins of states that differ in the others)"""
    def mdl(C, E, st, i, a):
        t = ("ret", i.cname, i.id) + tuple(C.vterm(E, st, o) for o in i.ops[:k])
        C.generic_writes(E, st, i, t)
        return t
    return ((), mdl)


# ---- Bech32: a data part whose checksum was found correct is called ('ck', hrp, length)
def _vc(C, E, st, i, a):
    t = ("bech32_verify_checksum",) + a + (C.note_ptr(E, st, i.ops[1]),)
    C.generic_writes(E, st, i, t)
    return t


def _vcp(C, E, st, t, pred, b):
    if b == ("c", 0) and pred in ("ne", "ugt", "sgt") or pred == "eq" and b[0] == "c" and b[1] != 0:
        C.rename(E, st, t[4], t[2], ("ck", t[1], t[3]))


BECH_MODELS = {"bech32_verify_checksum": (("s", ("bl", 2), "n"), _vc)}
BECH_PROMOTE = {"bech32_verify_checksum": _vcp}


def less6(a, b):
    """a == b - 6"""
    return a == ("sub", b, ("c", 6)) or a[0] == "add" and ("c", (1 << 64) - 6) in a and b in a or \
        (a[0] == "c" and b[0] == "c" and a[1] == b[1] - 6) or \
        (a[0] == "sub" and b[0] == "sub" and a[1] == b[1] and a[2][0] == b[2][0] == "c" and a[2][1] == b[2][1] + 6)


def good_bits(t, hrp):
    """t is the 5-to-8 bit regrouping, without padding, of exactly the checksummed data part minus its checksum"""
    t = unsub(t)
    return t[0] in ("bits", "bech32_convert_bits") and t[1][0] == "ck" and hrp(t[1][1]) and less6(t[2], t[1][2]) and t[-3:] == (("c", 5), ("c", 8), ("c", 0))

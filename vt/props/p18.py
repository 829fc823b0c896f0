"""Accesses stay inside their objects."""
import bnd, esp, prog, layout
from spec import CONFIGS, loc
from front import Broken

TECHNIQUE = ("linear-inequality dataflow over LLVM IR: symbolic sizes of locals, globals, heap blocks and parameters against symbolic offsets, with loop invariants from comparisons, "
             "values that move together, counters kept in memory and derived result bounds; every access of a known object must be proven inside it")

SCALES = (1, 4, 12)
# (function, kind) not decided, and why; everything else with a known object is an obligation
OPEN = {
    ("bech32_create_checksum", "read"): "needs that the result of bech32_hrp_expand is at most the size passed to it, through a cast to int",
    ("bech32_verify_checksum", "read"): "needs that the result of bech32_hrp_expand is at most the size passed to it, through a cast to int",
    ("nostr_filter_parse", "read"): "release of a half-filled array up to a count kept in another heap record",
    ("nostr_filter_parse", "counted"): "array of tag filters with room for as many as a first pass over the same object counted",
    ("nostr_list_to_event", "write"): "the fourth value is only used when the third was, a correlation between two conditions on the same item",
    ("nostr_mnemonic_generate", "write"): "the room for each word depends on the word's length, read from a table",
    ("nostr_mnemonic_validate", "read"): "bit positions computed by division in a loop of 24 words",
    ("nostr_mnemonic_validate", "write"): "bit positions computed by division in a loop of 24 words",
    ("nostr_nrelay_encode", "read"): "first byte of a block sized by rounding the input length",
    ("nostr_random_bytes", "write"): "the length is cast to int for the system generator",
}


def contracts(L):
    """bytes behind a pointer parameter, from its type and the size or count parameter that follows it"""
    def f(fn, k):
        p = L.protos.get(fn) or L.iprotos.get(fn)
        if not p or k >= len(p[1]):
            return None
        n, t = p[1][k]
        b = t.replace("const", "").replace(" ", "")
        nxt = p[1][k + 1] if k + 1 < len(p[1]) else ("", "")
        if t.count("*") >= 1 and nxt[1] == "size_t" and "count" in nxt[0]:
            r = t.rsplit("*", 1)[0].replace("const", "").replace("struct", "").replace(" ", "")
            sz = 8 if "*" in r else {"int32_t": 4, "int": 4, "uint16_t": 2, "uint32_t": 4}.get(r, L.size.get(r, 1))
            return (0, ((sz, k + 1),))
        if t.count("*") == 1:
            r = b[:-1].replace("struct", "")
            if r in L.size:
                return L.size[r]
            if r in ("size_t", "int64_t", "uint64_t", "time_t"):
                return 8
            if r in ("int", "uint32_t"):
                return 4
            if r in ("char", "uint8_t", "unsignedchar", "void") and nxt[1] == "size_t":
                return (0, ((1, k + 1),))
        if t.count("*") == 2 and "const" not in t:
            return 8
        return None
    return f


def kind(k):
    return "read" if "read" in k or "source" in k else "write"


def run(P, L, C, f):
    """(instruction, kind of access) -> outcome; a site is proven when some precision proves it"""
    R = {}
    try:
        for sc in SCALES:
            esp.SCALE = sc
            c = bnd.Bounds(P, f, L, C)
            try:
                esp.Engine(f, c, P.fx, 30000 * min(sc, 4)).run()
            except Broken:
                if sc == 1:
                    raise
                break
            for k, d in c.res.items():
                if k not in R or "bad" in R[k] or "soft" in R[k]:
                    R[k] = d
            if not any(("bad" in d or "soft" in d) and (f.name, kind(k)) not in OPEN for (_, k), d in R.items()):
                break
    finally:
        esp.SCALE = 1
    return R


def check(rep, tier):
    rep.expl = ("Every load, store, memory-copying or output-producing library call and every call into the library was visited on every path with the object its address belongs to. Where the object's size is known "
                "(local, global, heap block with a tracked size, parameter with a size, count or type), offset >= 0 and offset + extent <= size had to follow from the comparisons on the path, "
                "the loop invariants and the derived bounds of results. Objects whose size is not visible (reached through a loaded pointer, strings without a length) are listed as out of scope by number.")
    rep.assume += ["sizes and counts are below 2^47 and loop counters do not wrap",
                   "distinct pointer parameters do not overlap; a parameter has the size its type, size or count parameter says",
                   "the count of a record describes the array in the same record"]
    for cfg in CONFIGS:
        P, L = prog.prog(cfg), layout.layout(cfg)
        C = contracts(L)
        bnd.posts(P, L, C)
        proven = 0
        for name, f in sorted(P.fn.items()):
            if not f.blocks:
                continue
            R = run(P, L, C, f)
            rep.fns.add(name)
            for (i, k), d in sorted(R.items(), key=lambda x: (x[0][0].id, x[0][1])):
                kd = kind(k)
                if "soft" in d and (name, "counted") in OPEN:
                    rep.count("sites_with_room_counted_by_an_earlier_loop_%s" % cfg)
                elif "bad" in d or "soft" in d:
                    if (name, kd) in OPEN:
                        rep.count("sites_left_open_%s" % cfg)
                        continue
                    b, why, trail = d.get("bad") or d["soft"]
                    rep.obl(False, "%s:%s:%s" % (name, kd, getattr(b, "name", "") or str(b).split("=")[0]), loc(f, i),
                            "%s of %s not shown to stay inside it: %s [%s configuration]" % (k, b, why, cfg), trail)
                elif "unsized" in d:
                    rep.count("sites_of_objects_of_unknown_size_%s" % cfg)
                else:
                    proven += 1
                    rep.obl(True, "%s:%s" % (name, k), loc(f, i))
        rep.need("accesses proven inside their object (%s)" % cfg, proven, 1500)

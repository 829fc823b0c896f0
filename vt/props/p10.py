"""Releasing a record releases everything it owns."""
import re
import prog, layout, light, walk, esp, origin
from ir import Inst, Const, Arg
from front import Broken
from spec import CONFIGS, loc
from origin import Origin
from props.p20 import strip, plain, absent, counter, positions, fresh

TECHNIQUE = "ownership analysis over access paths in LLVM IR: for each record the places that own memory are listed from its layout; a path-sensitive pass shows that its release function releases each of them (every entry of each list) on every path, and every store of a pointer into such a place is memory of its own that does not overwrite memory still held"

A = ("arg", 0)
FREES = ("free", "nostr_free")
# release function: (record, freed itself, type constant or None, owned places)
F5 = ["ids", "ids[ids_count]", "authors", "authors[authors_count]", "kinds", "e_tags", "e_tags[e_tags_count]", "p_tags", "p_tags[p_tags_count]", "search",
      "generic_tags", "generic_tags[generic_tags_count].values", "generic_tags[generic_tags_count].values[values_count]"]
ROWS = [
    ("nostr_event_destroy", "nostr_event", True, None, ["content", "tags", "tag_arena", "tag_arena>memory"]),
    ("nostr_filter_free", "nostr_filter_t", False, None, F5),
    ("nostr_client_msg_free", "nostr_client_msg_t", False, ("type", "NOSTR_CLIENT_MSG_EVENT"), ["data.event.event"]),
    ("nostr_client_msg_free", "nostr_client_msg_t", False, ("type", "NOSTR_CLIENT_MSG_AUTH"), ["data.auth.event"]),
    ("nostr_client_msg_free", "nostr_client_msg_t", False, ("type", "NOSTR_CLIENT_MSG_REQ"), ["data.req.filters", "data.req.filters[filters_count]"]),
    ("nostr_client_msg_free", "nostr_client_msg_t", False, ("type", "NOSTR_CLIENT_MSG_COUNT"), ["data.count.filters", "data.count.filters[filters_count]"]),
    ("nostr_deletion_free", "nostr_deletion_request_t", False, None, ["event_ids", "event_ids[event_ids_count]", "addresses", "addresses[addresses_count]", "reason"]),
    ("nostr_list_free", "nostr_list", True, None, ["d_tag", "title", "description", "image", "items"] + ["items[item_count]." + x for x in ("tag_type", "value", "relay_hint", "petname")]),
    ("nostr_relay_list_free", "nostr_relay_list", True, None, ["relays", "relays[count].url"]),
    ("nostr_relay_info_free", "nostr_relay_info_t", False, None, ["supported_nips", "retention", "retention[retention_count].kinds", "relay_countries", "language_tags", "tags", "fees.admission",
     "fees.admission[admission_count].unit", "fees.subscription", "fees.subscription[subscription_count].unit", "fees.publication", "fees.publication[publication_count].unit", "fees.publication[publication_count].kinds"]),
    ("nostr_delegation_free", "nostr_delegation", False, None, ["conditions", "parsed_conditions.kinds"]),
    ("nostr_nprofile_free", "nostr_nprofile", False, None, ["relays[relay_count]"]),
    ("nostr_nevent_free", "nostr_nevent", False, None, ["relays[relay_count]"]),
    ("nostr_naddr_free", "nostr_naddr", False, None, ["relays[relay_count]"]),
    ("nostr_uri_free", "nostr_uri", False, ("type", "NOSTR_URI_NPROFILE"), ["data.nprofile"]),
    ("nostr_uri_free", "nostr_uri", False, ("type", "NOSTR_URI_NEVENT"), ["data.nevent"]),
    ("nostr_uri_free", "nostr_uri", False, ("type", "NOSTR_URI_NADDR"), ["data.naddr"]),
    ("nostr_relay_destroy", "nostr_relay", True, None, ["url", "ws_handle"]),
    ("nostr_relay_list_free_urls", None, True, None, [1]),
    ("nostr_nip05_free_relays", None, True, None, [1]),
    ("nostr_free_strings", None, True, None, [1]),
]
REL = {"nostr_event": "nostr_event_destroy", "nostr_filter_t": "nostr_filter_free", "nostr_nprofile": "nostr_nprofile_free", "nostr_nevent": "nostr_nevent_free", "nostr_naddr": "nostr_naddr_free"}


class Place(object):
    """an owned place: root, path, the count place of each list on the way, the type found there, the places holding the way to it"""
    def __init__(self, L, rec, spec, root=A, prefix=()):
        self.spec, self.counts, self.holders = spec, [], []
        path, cur, ix, ty = tuple(prefix), rec, False, ""
        comps = re.split(r"\]\.|>|\]$", spec)
        for n, comp in enumerate(x for x in comps if x):
            f, _, cnt = comp.partition("[")
            o = L.f(cur, f)[0]
            ty = dict(L.flat(cur))[f]
            own = path + ((o, "[]") if ix else (o,))
            ix = False
            if n:
                self.holders.append((root, path))
            if cnt:
                co = L.f(cur, f.rpartition(".")[0] + "." + cnt if "." in f else cnt)[0]
                self.counts.append((root, path + ((co, "[]") if own[-1] == "[]" else (co,))))
                if ty.endswith("]"):
                    path = own + ("[]",)
                else:
                    self.holders.append((root, own))
                    path, ix = own, True
            else:
                path = own
            cur = re.sub(r"^const\s+|\s*\*.*$", "", ty)
            self.ptr = ty.count("*")
            self.ty = cur
        if ix:
            path = path + (0, "[]")
        self.place = (root, path)
        self.holders = [h for h in self.holders if h != self.place]
        self.embedded = None
        if ix and self.ptr == 1 or not ix and "*" not in ty:
            self.embedded = self.ty                 # a record in place, released through its own release function


def exactly(j, v, place):
    return (("arg", v.idx), ()) == place if isinstance(v, Arg) else plain(j.o, v) == place


class Job(object):
    def __init__(self, rep, cfg, P, fn):
        self.rep, self.cfg, self.P, self.fn = rep, cfg, P, fn
        self.f = P.get(fn)
        self.o = Origin(self.f)
        self.info = esp.info(self.f)
        rep.fns.add(fn)
        self.loops = {h: walk.loop_body(self.info, h) for h in self.info.headers}

    def calls(self):
        return [i for b in self.f.blocks for i in b.insts if i.op == "call" and i.cname]

    def nest(self, b):
        return sorted([h for h, body in self.loops.items() if b in body], key=lambda h: -len(self.loops[h]))


def releases(j, pl):
    """the calls that release what is at a place"""
    out = []
    for c in j.calls():
        if c.cname in FREES and c.ops and not pl.embedded and plain(j.o, c.ops[0]) == pl.place:
            out.append((c, [strip(x) for x in positions(j.o, c.ops[0])]))
        elif c.cname == REL.get(pl.ty) and not pl.embedded and plain(j.o, c.ops[0]) == pl.place:
            out.append((c, []))
        elif pl.embedded and c.cname == REL.get(pl.embedded):
            for r, p, off, ix in j.o.addr(c.ops[0]):
                if (r, p + j.o.step(off, ix)) == pl.place:
                    out.append((c, [strip(x) for x in ix]))
        elif pl.spec == "ws_handle" and c.cname == "nostr_relay_disconnect" and c.ops[0] is j.f.args[0]:
            out.append((c, []))
    return out


def scan(j, h, count, pos):
    """the loop at h takes each position below count once; returns its guard"""
    t = h.insts[-1]
    if t.op != "br" or not t.ops:
        return None
    c = t.ops[0]
    if not isinstance(c, Inst) or c.op != "icmp":
        return None
    body = j.loops[h]
    inside = [s for s in t.succs if s in body]
    if len(inside) != 1:
        return None
    a, b = strip(c.ops[0]), strip(c.ops[1])
    p = c.pred
    if inside[0] is not t.succs[0]:
        p = {"uge": "ult", "sge": "slt", "eq": "ne", "ule": "ugt", "sle": "sgt"}.get(p)
    if a is not pos and b is pos:
        a, b, p = b, a, {"ult": "ugt", "ugt": "ult", "ne": "ne", "slt": "sgt", "sgt": "slt"}.get(p)
    if counter(pos) and a is pos and p in ("ult", "ne", "slt") and exactly(j, b, count) and all(not isinstance(x, Const) or x.v == 0 for x, q in pos.inc) and any(isinstance(x, Const) for x, q in pos.inc):
        step = [x for x, q in pos.inc if isinstance(x, Inst)]
        return t if len(step) == 1 else None
    # counting down from count
    d = a if isinstance(a, Inst) and a.op == "phi" else None
    if d is not None and isinstance(b, Const) and b.v == 0 and p in ("ugt", "ne", "sgt"):
        init = [x for x, q in d.inc if q not in body]
        nxt = [x for x, q in d.inc if q in body]
        down = lambda x: isinstance(x, Inst) and (x.op == "add" and isinstance(x.ops[1], Const) and x.ops[1].s == -1 or x.op == "sub" and isinstance(x.ops[1], Const) and x.ops[1].v == 1) and strip(x.ops[0]) is d
        if init and all(exactly(j, strip(x), count) for x in init) and nxt and all(down(x) for x in nxt) and down(pos):
            return t
    # a moving pointer with its own counter
    if isinstance(pos, Inst) and pos.op == "phi" and not counter(pos):
        nxt = [x for x, q in pos.inc if q in body]
        if nxt and all(isinstance(x, Inst) and x.op == "gep" and x.ops[0] is pos for x in nxt):
            e = b if a is pos else a if b is pos else None
            if p in ("ult", "ne", "ugt") and isinstance(e, Inst) and e.op == "gep" and not e.gep[0] and len(e.gep[1]) == 1 and exactly(j, strip(e.gep[1][0][0]), count):
                init = [x for x, q in pos.inc if q not in body]
                if all(j.o.value(x) == j.o.value(e.ops[0]) and not (isinstance(x, Inst) and x.op == "gep") for x in init) and all(x.gep[0] == e.gep[1][0][1] and not x.gep[1] for x in nxt):
                    return t
            cs = [x for x in (a, b) if counter(x)]
            if cs:
                return scan(j, h, count, cs[0])
    return None


def whole(j, pl, acts, rep_key, what):
    """acts: [(instruction, positions)]: on every path the place (each entry of a list) has been through one of them"""
    if not acts:
        return j.f.blocks[0].insts[0], "%s is never released" % what, []
    n = len(pl.counts)
    marks = {c.id: 1 for c, p in acts}
    null = {pl.place} | set(pl.holders) | set(pl.counts) | {(A, ())}
    about = absent(null)
    nothing = lambda v: about(j.o, v) or isinstance(v, Inst) and v.op == "gep"          # an address inside a record is not null
    if n == 0:
        w = light.Paths(j.f, marks, nothing, const=j.const)
        bad = w.run(None)
        j.rep.count("paths", w.done)
        return (acts[0][0], "%s may be left unreleased" % what, bad) if bad else None
    err = None
    for c, pos in acts:
        nest = j.nest(c.bb)
        err = None
        if len(nest) < n or len(pos) < n:
            err = (c, "%s: not every entry of the list is released" % what, [])
            continue
        nest = nest[-n:]
        ps = pos[:n][::-1]                  # outermost first
        guards = []
        for h, cnt, x in zip(nest, pl.counts, ps):
            g = scan(j, h, cnt, x)
            if g is None:
                err = (c, "%s: the loop that releases the entries does not take each of them" % what, [])
                break
            guards.append(g)
        if err:
            continue
        cur = {c.id: 1}
        for h, g in list(zip(nest, guards))[::-1]:
            body = j.loops[h]
            for b in body:
                if b is not h and any(s not in body for s in b.succs):
                    err = (b.insts[-1], "%s: the loop that releases the entries may stop early" % what, [])
            if err:
                break
            first = [s for s in g.succs if s in body][0]
            w = light.Paths(j.f, cur, nothing, const=j.const, start=first, within=body - {h})
            bad = w.run(None)
            if bad:
                err = (c, "%s: an entry of the list may be left unreleased" % what, bad)
                break
            cur = {g.id: 1}
        if err:
            continue
        w = light.Paths(j.f, cur, nothing, const=j.const)
        bad = w.run(None)
        j.rep.count("paths", w.done)
        if bad:
            err = (c, "%s may be left unreleased" % what, bad)
            continue
        return None
    return err


WIPE = ("secure_wipe", "nostr_secure_wipe", "explicit_bzero", "OPENSSL_cleanse", "mbedtls_platform_zeroize")


def zeroed(j, v):
    """a local record that is all zero"""
    v = strip(v)
    if not isinstance(v, Inst) or v.op != "alloca" or j.o.slots.get(v.id):
        return False
    ms = [c for c in j.calls() if c.cname.startswith("llvm.mem") and strip(c.ops[0]) is v]
    return len(ms) == 1 and ms[0].cname.startswith("llvm.memset") and isinstance(ms[0].ops[1], Const) and ms[0].ops[1].v == 0


def clears(j, pl, whole_size):
    """what leaves the place without its pointer: clearing the record, or storing null"""
    out = []
    top = pl.place[1][0]
    for c in j.calls():
        n = c.cname
        if n.startswith("llvm.memset") and isinstance(c.ops[1], Const) and c.ops[1].v == 0 or n in WIPE or n.startswith("llvm.memcpy") and zeroed(j, c.ops[1]):
            ln = c.ops[1] if n in WIPE else c.ops[2]
            for r, p, off, ix in j.o.addr(c.ops[0]):
                if r == A and p == () and not ix and isinstance(ln, Const) and off <= top < off + ln.v:
                    out.append((c, None))
    for i, ws, kind, v, ln in j.o.writes:
        if kind == "store" and isinstance(v, Const):
            for r, p, ix in ws:
                if (r, p) == pl.place and not (ix and any(isinstance(x, Const) for x in ix)):
                    out.append((i, [strip(x) for x in ix]))
    return out


def release(rep, cfg, P, L):
    n = 0
    for fn, rec, itself, cond, places in ROWS:
        j = Job(rep, cfg, P, fn)
        j.const = None
        if cond:
            o_ = L.f(rec, cond[0])[0]
            k = L.enums[cond[1]]
            j.const = lambda v, o_=o_, k=k, j=j: k if isinstance(v, Inst) and v.op == "load" and plain(j.o, v) == (A, (o_,)) else None
        key = fn + (":" + cond[1] if cond else "")
        pls = []
        for s in places:
            if s == 1:
                e = Place.__new__(Place)
                e.spec, e.counts, e.holders, e.place, e.embedded, e.ty = "entries", [(("arg", 1), ())], [(A, ())], (A, (0, "[]")), None, "char"
                pls.append(e)
            else:
                pls.append(Place(L, rec, s))
        for pl in pls:
            what = "the %s of a %s" % (pl.spec, rec or "list of strings")
            w = whole(j, pl, releases(j, pl), key, what)
            rep.obl(not w, "%s:%s" % (key, pl.spec), loc(j.f, w[0]) if w else cfg, "%s: %s [%s configuration]" % (fn, w[1], cfg) if w else "", w[2] if w else [])
            n += 1
        if itself:
            acts = [c for c in j.calls() if c.cname in FREES and strip(c.ops[0]) is j.f.args[0]]
            w = light.Paths(j.f, {c.id: 1 for c in acts}, lambda v: isinstance(v, Arg) and v.idx == 0)
            bad = w.run(None)
            rep.obl(not bad, key + ":itself", loc(j.f, acts[0] if acts else j.f.blocks[0].insts[0]), "%s: the record itself may be left unreleased [%s configuration]" % (fn, cfg), bad or [])
            n += 1
        else:
            for pl in pls:
                if len(pl.place[1]) > 2 or len(pl.place[1]) == 2 and pl.place[1][1] == "[]" and rec not in ("nostr_nprofile", "nostr_nevent", "nostr_naddr") or "[" in pl.spec and pl.place[1][-1] == "[]" and len(pl.place[1]) > 2:
                    continue
                acts = clears(j, pl, None)
                if pl.place[1][-1] == "[]":
                    full = [a for a in acts if a[1] is None]
                    w = whole(j, pl, [a for a in acts if a[1] is not None], key, "the %s of a released %s" % (pl.spec, rec)) if not full else None
                    if w:
                        w = (w[0], w[1].replace("is never released", "is not cleared").replace("released", "cleared"), w[2])
                else:
                    pp = light.Paths(j.f, {a[0].id: 1 for a in acts}, lambda v, pl=pl: absent({pl.place, (A, ())})(j.o, v), const=j.const)
                    bad = pp.run(None)
                    w = (acts[0][0] if acts else j.f.blocks[0].insts[0], "the %s of a released %s may still point to released memory" % (pl.spec, rec), bad) if bad else None
                rep.obl(not w, "%s:%s cleared" % (key, pl.spec), loc(j.f, w[0]) if w else cfg, "%s: %s [%s configuration]" % (fn, w[1], cfg) if w else "", w[2] if w else [])
                n += 1
    return n


def targets(L, P):
    """(function, argument, prefix, record) for every record a library function is handed"""
    rows = {}
    for fn, rec, itself, cond, places in ROWS:
        if rec:
            rows.setdefault(rec, []).extend(p for p in places if p != "ws_handle")
    out = []
    for fn, (ret, ps) in sorted(list(L.protos.items()) + list(L.iprotos.items())):
        if fn not in P.fn:
            continue
        for k, (nm, ty) in enumerate(ps):
            t = re.sub(r"\b(const|struct)\b", "", ty)
            base = t.replace("*", "").strip()
            if base in rows and t.count("*") in (1, 2):
                out.append((fn, k, (0,) if t.count("*") == 2 else (), base, sorted(set(rows[base]))))
    return out


def held(j, pl, n):
    """instructions after which a place holds nothing any more"""
    root = pl.place[0]
    out = {}
    for c in j.calls():
        nm = c.cname
        if nm in FREES and any((r, p) == pl.place for r, p in j.o.value(c.ops[0])):
            out[c.id] = 1
        elif nm.startswith("llvm.memset") or nm in WIPE:
            for r, p, off, ix in j.o.addr(c.ops[0]):
                if r == root and p == pl.place[1][:n]:
                    out[c.id] = 1
        elif nm in RELEASERS:
            for r, p in j.o.value(c.ops[0]):
                if r == root and p == pl.place[1][:n]:
                    out[c.id] = 1
    return out


RELEASERS = {r[0] for r in ROWS} | {"nostr_relay_info_init"}


def grown(j, v, place, seen=()):
    """realloc of what is there already, or memory that takes over its contents"""
    v = strip(v)
    if not isinstance(v, Inst) or v in seen:
        return False
    if v.op == "call":
        return v.cname == "realloc" and any((r, p) == place for r, p in j.o.value(v.ops[0]))
    if v.op in ("phi", "select"):
        return all(grown(j, x, place, seen + (v,)) for x in ([x for x, b in v.inc] if v.op == "phi" else v.ops[1:]))
    return False


def later(j, i, place):
    """what the place held was taken out just before, and is released after"""
    b = i.bb
    k = b.insts.index(i)
    old = [x for x in b.insts[:k] if x.op == "load" and plain(j.o, x) == place and not any(y[0] in b.insts[b.insts.index(x):k] for y in j.w.get(place, []))]
    acts = {c.id: 1 for c in j.calls() if c.cname in FREES and strip(c.ops[0]) in old}
    return bool(acts) and light.Paths(j.f, acts, lambda v: v in old, start=b).run(None) is None


def stores(rep, cfg, P, L):
    n = 0
    jobs = {}
    for fn, k, pre, rec, specs in targets(L, P):
        if fn in RELEASERS:
            continue
        j = jobs.get(fn)
        if j is None:
            j = jobs[fn] = Job(rep, cfg, P, fn)
            j.const = None
            j.w = {}
            for i, ws, kind, v, ln in j.o.writes:
                for r, p, ix in ws:
                    j.w.setdefault((r, p), []).append((i, kind, v, ix))
        root = ("arg", k)
        pls = [Place(L, rec, s, root, pre) for s in specs]
        own = {pl.place: pl for pl in pls if not pl.embedded}
        made = bool(pre) and any(kind == "store" and j.o.allocs(v) for i, kind, v, ix in j.w.get((root, pre), []))
        for pl in pls:
            ws = [x for x in j.w.get(pl.place, []) if x[1] == "store"]
            if pl.embedded or not ws:
                continue
            what = "the %s of a %s" % (pl.spec, rec)
            w = None
            for i, kind, v, ix in ws:
                if not fresh(j.o, v):
                    w = (i, "%s is made to point to memory that is not its own" % what, [])
                    break
                for a in j.o.allocs(v):
                    both = [p for p in j.o.homes.get(a, ()) if p in own and p != pl.place]
                    if both:
                        w = (i, "%s and its %s are made to point to the same memory" % (what, own[both[0]].spec), [])
            if not w and not pl.counts and not made:
                marks = held(j, pl, len(pre))
                null = absent({pl.place})
                for i, kind, v, ix in ws:
                    if isinstance(v, Const):
                        marks[i.id] = 1
                for i, kind, v, ix in ws:
                    if not grown(j, v, pl.place) or isinstance(v, Const):
                        pp = light.Paths(j.f, {m: s for m, s in marks.items() if m != i.id}, lambda v: null(j.o, v), at=[i.id])
                        bad = pp.run(None)
                        rep.count("paths", pp.done)
                        if bad and later(j, i, pl.place):
                            bad = None
                        if bad:
                            w = (i, "%s is replaced without releasing what it held" % what, bad)
                            break
            rep.obl(not w, "%s:%s" % (fn, pl.spec), loc(j.f, w[0]) if w else cfg, "%s: %s [%s configuration]" % (fn, w[1], cfg) if w else "", w[2] if w else [])
            n += 1
    return n


def check(rep, tier):
    n = m = 0
    for cfg in CONFIGS:
        P, L = prog.prog(cfg), layout.layout(cfg)
        n += release(rep, cfg, P, L)
        m += stores(rep, cfg, P, L)
    rep.need("owned places released", n, 100)
    rep.need("owned places filled", m, 60)
    rep.expl = "For every release function, each place of the record that owns memory (from a table checked against the record's layout) was shown to be released, entry by entry for lists, on every path; and every store of a pointer into such a place, in every library function that is handed the record, was shown to store memory of its own, over nothing that is still held."
    rep.assume.append("the owned fields of each record are those of the table in vt/props/p10.py; strings of a tag live in the event's arena")

"""JSON members are used as a type only where they are known to be of that type.

ts: set of (item, type letter) facts; S string, N number, A array, O object, B boolean.
  item->valueint / valuedouble      needs N
  item->valuestring used as text    needs S (or a null check of the text itself)
  item->child, array size and items needs A (or O for child)
  any member read                   needs item to be non-null"""
import esp, prog, layout
from esp import BaseClient, mk
from ir import Inst, Const, Global

ISFN = {"cJSON_IsString": "S", "cJSON_IsNumber": "N", "cJSON_IsArray": "A", "cJSON_IsObject": "O", "cJSON_IsBool": "B", "cJSON_IsTrue": "B", "cJSON_IsFalse": "B", "cJSON_IsNull": "Z", "cJSON_IsRaw": "R"}
TYPE = {8: "N", 16: "S", 32: "A", 64: "O", 1: "B", 2: "B", 4: "Z"}
ARR = {"cJSON_GetArraySize": 0, "cJSON_GetArrayItem": 0}
MAYBE_NULL = {"cJSON_GetObjectItem", "cJSON_GetObjectItemCaseSensitive", "cJSON_GetArrayItem", "cJSON_Parse", "cJSON_ParseWithLength", "cJSON_ParseWithOpts", "cJSON_GetStringValue", "cJSON_DetachItemFromObject", "cJSON_DetachItemFromArray"}
NULL_OK = {"free", "cJSON_Delete", "cJSON_IsString", "cJSON_IsNumber", "cJSON_IsArray", "cJSON_IsObject", "cJSON_IsBool", "cJSON_IsTrue", "cJSON_IsFalse", "cJSON_IsNull", "cJSON_GetObjectItem",
           "cJSON_GetObjectItemCaseSensitive", "cJSON_GetArraySize", "cJSON_GetArrayItem", "cJSON_GetStringValue", "cJSON_CreateString", "cJSON_AddItemToObject", "cJSON_AddItemToArray", "cJSON_Print", "cJSON_PrintUnformatted", "cJSON_Duplicate"}


class JType(BaseClient):
    init = frozenset()
    cap = 8
    tcap = 8

    def join_ts(self, E, blk, a, b):
        return a & b

    def on_push(self, E, st, blk):
        """facts about items nothing refers to any more are dropped"""
        if not st.ts:
            return
        live = E.info.live[blk]
        lr = set()
        for v in live:
            lr.add(v)
            t = st.env.get(v)
            if isinstance(t, Inst):
                lr |= E.info.dep(t)
                lr.add(t)
            if isinstance(v, Inst):
                lr |= E.info.dep(v)
        for k, (sz, v) in st.mem.items():
            if isinstance(v, Inst) and isinstance(k[0], Inst) and k[0].op == "alloca":
                lr.add(v)
        if any(isinstance(r, Inst) and r not in lr for r, _ in st.ts):
            st.ts = frozenset(x for x in st.ts if not isinstance(x[0], Inst) or x[0] in lr)

    def __init__(self, P, fn):
        self.P, self.fn = P, fn
        self.bad = {}
        self.sites = set()
        self.texts = set()

    def keep(self, st):
        return {r for r, _ in st.ts if isinstance(r, Inst)}

    def v(self, E, st, i, why):
        self.bad.setdefault(i, (why, E.trail_lines(st)))

    def nonnull(self, E, st, r):
        if not isinstance(r, Inst):
            return not (isinstance(r, Const))
        if any(x is r for x, _ in st.ts):
            return True
        k = E.rng(st, r)
        return k[0] > 0 or 0 in k[4]

    def drop(self, st, i):
        if any(x is i for x, _ in st.ts):
            st.ts = frozenset(t for t in st.ts if t[0] is not i)

    def on_phi(self, E, st, phis):
        if any(x in phis for x, _ in st.ts):
            st.ts = frozenset(t for t in st.ts if t[0] not in phis)

    def on_call(self, E, st, i):
        n = i.cname or ""
        self.drop(st, i)
        if n in ISFN:
            self.sites.add(i)
            r = E.res(st, i.ops[0])
            E.clobber(st, i)
            out = []
            for s in E.acmp(st.copy(), "ne", i, mk(0, i.w)):
                if isinstance(r, Const) and r.kind == "null":
                    continue
                for z in (E.acmp(s, "ne", r, mk(0, 0)) if not isinstance(r, Const) else [s]):
                    z.ts = frozenset(x for x in z.ts if x[0] is not r or x[1] == ISFN[n]) | {(r, ISFN[n])}
                    out.append(z)
            out += E.acmp(st.copy(), "eq", i, mk(0, i.w))
            return out
        if n in ARR:
            self.sites.add(i)
            r = E.res(st, i.ops[0])
            if (r, "A") not in st.ts and not (isinstance(r, Inst) and r.op == "call" and r.cname == "cJSON_CreateArray"):
                self.v(E, st, i, "an item not known to be an array is read as one")
        elif n and not n.startswith("llvm.") and n not in NULL_OK and n not in self.P.fn:
            for a in i.ops:
                r = E.res(st, a)
                if isinstance(r, Inst) and self.tracked(r):
                    self.sites.add(i)
                    if not self.nonnull(E, st, r):
                        self.v(E, st, i, "%s is given a JSON value that may be absent or of another type" % n)
        elif n.startswith("llvm.mem"):
            for a in i.ops[:2]:
                b, _ = E.ptr(st, a)
                if isinstance(b, Inst) and self.tracked(b):
                    self.sites.add(i)
                    if not self.nonnull(E, st, b):
                        self.v(E, st, i, "a JSON value that may be absent or of another type is copied from")
        return None

    def tracked(self, r):
        return r in self.texts or (r.op == "call" and r.cname in MAYBE_NULL)

    def on_load(self, E, st, i, base, off):
        self.drop(st, i)
        p = i.ops[0]
        f = p.sf if isinstance(p, Inst) and p.op == "gep" else None
        if f and f[0] == "struct.cJSON":
            r = E.res(st, p.ops[0])
            self.sites.add(i)
            k = f[1]
            if not self.nonnull(E, st, r):
                self.v(E, st, i, "a member of an item that may be absent is read")
            if k in (5, 6) and (r, "N") not in st.ts and (r, "B") not in st.ts:
                self.v(E, st, i, "an item not known to be a number is read as one")
            elif k == 2 and (r, "A") not in st.ts and (r, "O") not in st.ts and not self.fresh(r):
                self.v(E, st, i, "the elements of an item not known to be an array or object are read")
            elif k == 4:
                self.texts.add(i)
                E.forget(st, i)
                if off is not None and st.mem.get((base, off)) is None:
                    st.mem[(base, off)] = (i.size, i)
                    if (r, "S") in st.ts:
                        z = E.acmp(st, "ne", i, mk(0, 0))
                        return z
                    return [st]
                m = st.mem.get((base, off)) if off is not None else None
                if m is not None and m[1] is not i:
                    st.env[i] = m[1]
                    if (r, "S") in st.ts:
                        return E.acmp(st, "ne", m[1], mk(0, 0))
                    return [st]
                if (r, "S") in st.ts:
                    return E.acmp(st, "ne", i, mk(0, 0))
                return [st]
            return None
        if isinstance(base, Inst) and self.tracked(base):
            self.sites.add(i)
            if not self.nonnull(E, st, base):
                self.v(E, st, i, "a JSON value that may be absent or of another type is dereferenced")
        return None

    def fresh(self, r):
        return isinstance(r, Inst) and r.op == "call" and r.cname in ("cJSON_CreateArray", "cJSON_CreateObject")

    def on_fact(self, E, st, pred, a, b):
        ra, rb = E.res(st, a), E.res(st, b)
        if pred == "eq" and isinstance(rb, Const) and isinstance(ra, Inst):
            x = ra
            if x.op == "and" and E.ev(st, x.ops[1]) == 255:
                x = E.res(st, x.ops[0])
            if isinstance(x, Inst) and x.op == "load" and isinstance(x.ops[0], Inst) and x.ops[0].sf == ("struct.cJSON", 3) and rb.v in TYPE:
                st.ts = st.ts | {(E.res(st, x.ops[0].ops[0]), TYPE[rb.v])}
        return st


# parsers in which a member of the wrong type must fail the whole parse (dropping it would widen what the text means)
STRICT = {"nostr_filter_parse"}


class Strict(BaseClient):
    """one member or element lookup: 'w' once it is known to be present with a type other than the one asked for"""
    init = "n"
    cap = 8

    def __init__(self, P, fn, site):
        self.P, self.fn, self.site = P, fn, site
        self.bad = []
        self.tests = 0

    def keep(self, st):
        return {self.site} if st.ts != "n" else ()

    def on_call(self, E, st, i):
        n = i.cname or ""
        if i is self.site:
            E.clobber(st, i)
            st.ts = "u"
            if n == "cJSON_GetArrayItem":
                return [st]
            out = []
            for s in E.acmp(st.copy(), "ne", i, mk(0, 0)):
                s.ts = "p"
                out.append(s)
            for s in E.acmp(st.copy(), "eq", i, mk(0, 0)):
                s.ts = "n"
                out.append(s)
            return out
        if n in ISFN and E.res(st, i.ops[0]) is self.site and st.ts in ("u", "p"):
            self.tests += 1
            E.clobber(st, i)
            out = []
            for s in E.acmp(st.copy(), "ne", i, mk(0, i.w)):
                s.ts = "n"
                out.append(s)
            for s in E.acmp(st.copy(), "eq", i, mk(0, i.w)):
                s.ts = "w"
                out.append(s)
            return out
        return None

    def on_ret(self, E, st, i, val):
        if st.ts in ("w", "p") and val is not None and E.rng(st, val)[0] == 0:
            self.bad.append((i, st.ts, E.trail_lines(st)))


def strict(P, f):
    out = []
    n = 0
    for i in f.insts():
        if i.op == "call" and i.cname in ("cJSON_GetObjectItem", "cJSON_GetObjectItemCaseSensitive", "cJSON_GetArrayItem"):
            n += 1
            c = esp.explore(lambda: Strict(P, f, i), f, P.fx)
            if c.bad:
                j, t, tr = c.bad[0]
                g = prog.base_off(i.ops[1])[0]
                key = getattr(g, "init_str", b"") or b""
                out.append((i.cname + ":" + key.decode("latin1").rstrip("\0"), i.loc, "the text is accepted at %s:%s although this member is present %s" % (j.file, j.line, "with another type" if t == "w" else "and its type was never tested"), tr))
    return n, out


def one(a):
    cfg, name = a
    P = prog.prog(cfg)
    f = P.fn[name]
    if not f.blocks or not any((i.op == "call" and (i.cname or "").startswith("cJSON_") and i.cname not in ("cJSON_Delete",)) for i in f.insts()):
        return name, 0, []
    c = esp.explore(lambda: JType(P, f), f, P.fx, 120000)
    ns, so = strict(P, f) if name in STRICT else (0, [])
    return name, len(c.sites) + ns, so + [(i.cname or i.op, i.loc, why, tr) for i, (why, tr) in c.bad.items()]


def run(cfg):
    import multiprocessing
    P = prog.prog(cfg)
    layout.layout(cfg)
    names = sorted(P.fn, key=lambda n: -sum(1 for _ in P.fn[n].insts()))
    with multiprocessing.get_context("fork").Pool(8) as pool:
        return pool.map(one, [(cfg, n) for n in names], chunksize=1)

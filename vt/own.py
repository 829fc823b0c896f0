"""Ownership of heap objects, one allocation (or release) site at a time.

Owner:  an object is born at a site, and from there on is live / owned by a container / handed over / released.
        Reported: lost while live (leak), released twice, used after release, dereferenced although the allocation failed.
Freed:  a pointer released at a site must not be released again, dereferenced, or left in an object that outlives the call.
"""
import esp, ext, prog
from esp import BaseClient, mk
from ir import Inst, Const, Arg, Global

# constructors of the public interface: function -> [(out-parameter, release function)]
OUT = {
    "nostr_event_create": [(0, "nostr_event_destroy")], "nostr_event_to_json": [(1, "free")], "nostr_event_from_json": [(1, "nostr_event_destroy")],
    "nostr_event_parse": [(2, "nostr_event_destroy")], "nostr_relay_create": [(0, "nostr_relay_destroy")],
    "nostr_zap_create_request": [(0, "nostr_event_destroy")], "nostr_zap_parse_receipt": [(2, "free"), (4, "nostr_event_destroy")],
    "nostr_nip05_parse_response": [(4, "nostr_nip05_free_relays")], "nostr_nip05_verify": [(4, "nostr_nip05_free_relays")],
    "nostr_relay_list_create": [(0, "nostr_relay_list_free")], "nostr_relay_list_to_event": [(1, "nostr_event_destroy")],
    "nostr_relay_list_from_event": [(1, "nostr_relay_list_free")], "nostr_relay_list_get_read_relays": [(1, "nostr_relay_list_free_urls")],
    "nostr_relay_list_get_write_relays": [(1, "nostr_relay_list_free_urls")],
    "nostr_list_create": [(0, "nostr_list_free")], "nostr_list_to_event": [(2, "nostr_event_destroy")], "nostr_list_from_event": [(2, "nostr_list_free")],
    "nostr_reaction_create": [(0, "nostr_event_destroy")], "nostr_repost_create": [(0, "nostr_event_destroy")],
    "nostr_event_serialize_canonical": [], 
}
# functions that consume argument k
DESTROY = {"nostr_event_destroy": 0, "nostr_relay_list_free": 0, "nostr_list_free": 0, "nostr_free_strings": 0, "nostr_nip05_free_relays": 0,
           "nostr_free": 0, "nostr_relay_destroy": 0, "nostr_relay_list_free_urls": 0}
DESTROY.update(ext.FREE)
# functions that adopt argument k when they succeed
ADOPT = {"cJSON_AddItemToArray": 1, "cJSON_AddItemToObject": 2, "lws_set_opaque_user_data": 1}
# external functions that tolerate a null pointer
NULLOK = lambda n: n.startswith("cJSON_") or n in ext.FREE or n in ("realloc", "OPENSSL_cleanse", "time", "pthread_create", "snprintf", "printf", "fprintf")


def mentions(v, i):
    """could pointer v, whatever it resolves to, be object i? (flow-insensitive)"""
    return i in prog.phi_bases(v)


def deps_load_bases(v, seen=None, d=0):
    """base objects v may have been loaded from (flow-insensitive)"""
    out = set()
    for b in prog.phi_bases(v):
        if isinstance(b, Inst) and b.op == "load" and d < 6:
            for x in prog.phi_bases(b.ops[0]):
                out.add(x)
                if isinstance(x, Inst) and x.op == "load":
                    out |= deps_load_bases(x, None, d + 1)
                    for y in prog.phi_bases(x.ops[0]):
                        out.add(y)
    return out


class Owner(BaseClient):
    cap = 6
    exit_cap = 300
    # ts: (status, holders)   status: n z l o:<base id> e f

    def __init__(self, P, fn, site, release):
        self.P, self.fn, self.site, self.release = P, fn, site, release
        self.init = ("n", frozenset())
        self.rep = []
        self.sw = {}
        self.born = 0
        self.rets = []

    def keep(self, st):
        return (self.site,)

    def report(self, E, st, i, kind, why):
        if kind == "leak" and ("A",) in st.ts[1]:
            kind, why = "unadopted", why + " after its container refused it"
        self.rep.append((kind, i, why, E.trail_lines(st)))

    def is_site(self, E, st, v):
        b, o = E.ptr(st, v)
        return b is self.site

    prev = frozenset()

    def pre_call(self, E, st, i):
        if i is self.site:
            self.prev = frozenset(("P",) + k for k, v in st.mem.items() if st.ts[0] == "e" and v[1] is i and isinstance(k[0], (Arg, Global)))

    # ---- birth
    def on_call(self, E, st, i):
        n = i.cname
        s, h = st.ts
        if i is self.site:
            if s == "l":
                self.report(E, st, i, "leak", "object lost when its site runs again")
            self.born += 1
            out = []
            prev = self.prev
            E.clobber(st, i)
            for pred in ("ne", "eq"):
                for x in E.acmp(st.copy(), pred, i, mk(0, 0)):
                    x.ts = (("l" if pred == "ne" else "z"), prev)
                    out.append(x)
            return out
        if n in ADOPT and n.startswith("cJSON_AddItem") and s != "l":
            par, item = E.ptr(st, i.ops[0])[0], E.ptr(st, i.ops[ADOPT[n]])[0]
            if s != "f" and (item is self.site and s == "z" or E.ev(st, item) == 0 or E.ev(st, par) == 0):
                E.clobber(st, i)
                return E.acmp(st, "eq", i, mk(0, i.w))
        if s in ("l", "f", "z", "e") or s[0] == "o":
            r = self.uses(E, st, i, n, s, h)
            if r is not None:
                return r
        return None

    def uses(self, E, st, i, n, s, h):
        for k, a in enumerate(i.ops):
            if getattr(a, "ty", "ptr") != "ptr" or isinstance(a, Const):
                continue
            b, off = E.ptr(st, a)
            hit = b is self.site
            if hit and s == "z":
                if n is not None and n not in self.P.fn and not n.startswith("llvm.") and not NULLOK(n):
                    self.report(E, st, i, "null", "null result of the allocation passed to %s" % n)
                elif n is not None and n.startswith("llvm.mem"):
                    if not (E.ev(st, i.ops[2]) == 0):
                        self.report(E, st, i, "null", "null result of the allocation used by a memory operation")
                continue
            consumes = DESTROY.get(n) == k or (n == "realloc" and k == 0)
            if consumes:
                if hit:
                    if s == "f":
                        self.report(E, st, i, "double", "released twice")
                        return []
                    if s in ("l", "e") or s[0] == "o":
                        if n == "realloc":
                            # released only when the reallocation succeeded
                            out = []
                            E.forget(st, i)
                            E.clobber(st, i)
                            for pred in ("ne", "eq"):
                                for x in E.acmp(st.copy(), pred, i, mk(0, 0)):
                                    if pred == "ne":
                                        x.ts = ("f", frozenset())
                                    out.append(x)
                            return out
                        if s == "l" and self.release not in (n, "nostr_free") and n != self.release and n in ext.FREE and not self.compat(n):
                            self.report(E, st, i, "mismatch", "released with %s, not %s" % (n, self.release))
                        E.clobber(st, i)
                        st.ts = ("f", frozenset())
                        return [st]
                else:
                    if s[0] == "o" and isinstance(b, Inst) and "o%d" % b.id == s:
                        # the container goes; a raw release leaves the object with whoever still knows it
                        st.ts = ("l", h) if n in ext.FREE and n != "cJSON_Delete" else ("e", frozenset())
                        s = st.ts[0]
                        continue
                    u = E.res(st, a)
                    if s == "l" or s[0] == "o":
                        if isinstance(b, (Inst,)) and (mentions(b, self.site) or self.via(b, h, s)):
                            st.ts = ("e", frozenset())
                            s = "e"
                continue
            if hit and s == "f":
                if not (n or "").startswith("llvm.lifetime"):
                    self.report(E, st, i, "uaf", "passed to %s after release" % (n or "a callback"))
                continue
            if n is None:
                if hit and s == "l":
                    pass       # callbacks borrow
                continue
            if ADOPT.get(n) == k and hit and s == "l" and n.startswith("cJSON_AddItem"):
                return self.adopt(E, st, i, n, h)
            if ADOPT.get(n) == k and hit and s == "l":
                st.ts = ("e", frozenset())
                s = st.ts[0]
                continue
            if hit and s == "l" and n not in self.P.fn and n not in ext.W and n not in ext.READONLY and not n.startswith("llvm.") and n not in DESTROY:
                st.ts = ("e", frozenset())        # handed to an unmodelled function
                s = "e"
            # container handed to the library: ownership goes with it only if it is adopted there
        return None

    def adopt(self, E, st, i, n, h):
        """appending to an array fails only on a null array; adding to an object may also run out of memory"""
        par = E.ptr(st, i.ops[0])[0]
        pz = E.ev(st, par) == 0
        nn = E.evcmp(st, "ne", par, mk(0, 0)) == 1
        E.clobber(st, i)
        out = []
        if not pz:
            for x in E.acmp(st.copy(), "ne", i, mk(0, i.w)):
                x.ts = ("e", frozenset())
                out.append(x)
        if pz or not (n == "cJSON_AddItemToArray" and nn):
            for x in E.acmp(st.copy(), "eq", i, mk(0, i.w)):
                x.ts = ("l", h | {("A",)})
                if n == "cJSON_AddItemToArray" and not pz:
                    out += E.acmp(x, "eq", par, mk(0, 0))
                else:
                    out.append(x)
        return out

    def compat(self, n):
        return {n, self.release} <= {"free", "cJSON_free", "nostr_free"}

    def lone(self, st, key):
        return not any(k != key and v[1] is self.site for k, v in st.mem.items())

    def swept(self, base):
        """does the function somewhere release pointers it loads, at a computed index, from that container?"""
        r = self.sw.get(base)
        if r is None:
            r = False
            for j in self.fn.insts():
                if j.op == "call" and j.cname in DESTROY and DESTROY[j.cname] < len(j.ops):
                    for b in prog.phi_bases(j.ops[DESTROY[j.cname]]):
                        if isinstance(b, Inst) and b.op == "load":
                            x, o = prog.base_off(b.ops[0])
                            if o is None and (x is base or base in prog.phi_bases(b.ops[0]) or isinstance(x, Inst) and x.op == "load" and self.stored_at(base, x)):
                                r = True
            self.sw[base] = r
        return r

    def stored_at(self, base, ld):
        b, o = prog.base_off(ld.ops[0])
        for j in self.fn.insts():
            if j.op == "store" and base in prog.phi_bases(j.ops[0]):
                if prog.base_off(j.ops[1]) == (b, o):
                    return True
        return False

    def via(self, b, h, s):
        """b was loaded from a place the object was stored in"""
        src = deps_load_bases(b)
        ids = {x.id for x in src if isinstance(x, Inst)}
        if ids & {x for x in h if isinstance(x, int)}:
            return True
        return s[0] == "o" and int(s[1:]) in ids

    def on_store(self, E, st, i, base, off, size, val):
        s, h = st.ts
        if base is self.site:
            if s == "f":
                self.report(E, st, i, "uaf", "written after release")
            elif s == "z":
                self.report(E, st, i, "null", "null result of the allocation dereferenced")
                return []
        if s in ("l", "e") and isinstance(base, (Arg, Global)) and off is not None and not isinstance(val, type(None)):
            m = st.mem.get((base, off))
            nb = E.ptr(st, val)[0] if not isinstance(val, Const) else None
            if s == "e" and m is not None and m[1] is self.site and nb is not self.site and self.lone(st, (base, off)):
                st.ts = ("l", h)        # the only place the caller could find it at is overwritten
                return None
            if s == "l" and ("P", base, off) in h and nb is self.site:
                self.report(E, st, i, "leak", "the object stored here by an earlier round is overwritten")
        if s != "l" and s[0] != "o":
            return None
        vb = E.ptr(st, val)[0] if not isinstance(val, Const) else None
        if vb is self.site:
            if isinstance(base, Inst) and base.op == "alloca":
                st.ts = (s, h | {base.id}) if s == "l" else st.ts
                if off is None and s == "l":
                    st.ts = ("o%d" % base.id, frozenset()) if False else ("e", frozenset())
            elif isinstance(base, Inst) and base.op == "call" and E.fx.is_alloc(base) and base is not self.site:
                st.ts = ("e", frozenset()) if self.swept(base) else ("o%d" % base.id, h)
            elif isinstance(base, Inst) and base.op == "phi":
                c = [x for x in prog.phi_bases(base) if isinstance(x, Inst) and x.op == "call"]
                st.ts = ("e", frozenset())
            elif base is self.site:
                pass
            else:
                st.ts = ("e", frozenset())
        elif s[0] == "o" and isinstance(vb, Inst) and "o%d" % vb.id == s and not (isinstance(base, Inst) and base.op == "alloca"):
            st.ts = ("e", frozenset())      # the container itself went elsewhere
        return None

    def on_load(self, E, st, i, base, off):
        s, h = st.ts
        if base is self.site:
            if s == "f":
                self.report(E, st, i, "uaf", "read after release")
            elif s == "z":
                self.report(E, st, i, "null", "null result of the allocation dereferenced")
                return []
        return None

    outs = ()

    def on_ret(self, E, st, i, val):
        s, h = st.ts
        k = E.ev(st, val) if val is not None else None
        if self.outs and k is not None and k != 0 and s in ("l", "e"):
            for (b, off), (sz, v) in st.mem.items():
                if v is self.site and isinstance(b, Arg) and b.idx in self.outs and off == 0:
                    self.report(E, st, i, "kept", "handed to the caller although the call fails")
        if s == "f":
            for (b, off), (sz, v) in st.mem.items():
                if v is self.site and b is not self.site and (isinstance(b, (Arg, Global)) or isinstance(b, Inst) and b.op == "load"):
                    self.report(E, st, i, "dangling", "left, released, in an object that outlives the call")
        self.rets.append((s, val, E.ev(st, val) if val is not None else None))
        if s == "z":
            self.zret = getattr(self, "zret", [])
            self.zret.append((i, E.ev(st, val) if val is not None else None, E.trail_lines(st)))
        if val is not None and not isinstance(val, Const):
            b = E.ptr(st, val)[0]
            if b is self.site:
                if s == "f":
                    self.report(E, st, i, "uaf", "returned after release")
                return
            if s[0] == "o" and isinstance(b, Inst) and "o%d" % b.id == s:
                return
            if isinstance(b, Inst) and mentions(b, self.site):
                return
        if s == "l":
            self.report(E, st, i, "leak", "never released on this path")
        elif s[0] == "o":
            # container alive and neither stored nor returned: reported for the container itself
            pass


class OutOwner(Owner):
    """object born in an out-parameter of a library constructor whose actual argument is a local variable"""
    def __init__(self, P, fn, site, release, argk):
        Owner.__init__(self, P, fn, site, release)
        self.argk = argk
        self.obj = None

    def on_call(self, E, st, i):
        s, h = st.ts
        if i is self.site:
            b, off = E.ptr(st, i.ops[self.argk])
            if s == "l":
                self.report(E, st, i, "leak", "object lost when its site runs again")
            if not (isinstance(b, Inst) and b.op == "alloca" and off is not None):
                E.clobber(st, i)
                st.ts = ("n", frozenset())
                return [st]
            self.born += 1
            E.clobber(st, i)
            out = []
            for x in E.acmp(st.copy(), "eq", i, mk(0, 32)):
                # success: the variable holds a fresh object, denoted by a pseudo value
                x.mem[(b, off)] = (8, self.token())
                E.setcon(x, self.token(), (1, (1 << 64) - 1, -(1 << 63), (1 << 63) - 1, frozenset((0,))))
                x.ts = ("l", frozenset((b.id,)))
                out.append(x)
            for x in E.acmp(st.copy(), "ne", i, mk(0, 32)):
                x.ts = ("n", frozenset())
                out.append(x)
            return out
        return Owner.on_call(self, E, st, i)

    def token(self):
        if self.obj is None:
            self.obj = token(self.site, self.argk)
        return self.obj

    def run(self, limit):
        call = self.site
        self.csite = call
        return call


class OutOwner2(OutOwner):
    # the pseudo value plays the role of the site for aliasing; the call is the birth
    def __init__(self, P, fn, call, release, argk):
        OutOwner.__init__(self, P, fn, call, release, argk)
        self.call = call
        self.tok = self.token()

    def keep(self, st):
        return (self.tok,)

    def on_call(self, E, st, i):
        if i is self.call:
            self.site = self.call
            r = OutOwner.on_call(self, E, st, i)
            self.site = self.tok
            return r
        self.site = self.tok
        return Owner.on_call(self, E, st, i)

    def on_store(self, *a):
        self.site = self.tok
        return Owner.on_store(self, *a)

    def on_load(self, *a):
        self.site = self.tok
        return Owner.on_load(self, *a)

    def on_ret(self, *a):
        self.site = self.tok
        return Owner.on_ret(self, *a)


def token(call, k):
    """a pseudo value denoting the object the call stores through argument k"""
    t = Inst()
    for a in Inst.__slots__:
        setattr(t, a, None)
    t.op, t.ops, t.w, t.ty, t.id, t.name, t.line, t.file = "token", [], 0, "ptr", -call.id - 1000 * (k + 1), "obj", call.line, call.file
    return t


class OutArg(BaseClient):
    """an object constructed directly into the caller's out-parameter must not be replaced without release, nor left behind on failure"""
    cap = 6
    exit_cap = 300

    def __init__(self, P, fn, call, k, rel, arg):
        self.P, self.fn, self.call, self.k, self.rel, self.arg = P, fn, call, k, rel, arg
        self.init = 0
        self.rep = []
        self.born = 0
        self.tok = token(call, k)
        self.slot = prog.base_off(call.ops[k])

    def keep(self, st):
        return (self.tok,)

    def on_call(self, E, st, i):
        if i is self.call:
            if st.ts:
                self.rep.append(("leak", i, "the object constructed here by an earlier round is overwritten", E.trail_lines(st)))
            self.born += 1
            E.clobber(st, i)
            out = []
            slot = E.ptr(st, i.ops[self.k])
            for pred in ("eq", "ne"):
                for x in E.acmp(st.copy(), pred, i, mk(0, 32)):
                    x.ts = 1 if pred == "eq" else 0
                    if slot == self.slot and slot[0] is self.arg and slot[1] is not None:
                        # success leaves a fresh object in the slot, failure leaves null (which P13 checks in the constructor)
                        x.mem[slot] = (8, self.tok if x.ts else mk(0, 0))
                        if x.ts:
                            E.setcon(x, self.tok, (1, (1 << 64) - 1, -(1 << 63), (1 << 63) - 1, frozenset((0,))))
                    out.append(x)
            return out
        if st.ts and i.cname in (self.rel, "nostr_free") and i.ops:
            b, _ = E.ptr(st, i.ops[0])
            if b is self.tok or isinstance(b, Inst) and b.op == "load" and E.ptr(st, b.ops[0]) == (self.arg, 0) or mentions_load(b, self.arg):
                st.ts = 0
        return None

    def on_store(self, E, st, i, base, off, size, val):
        o = self.slot[1]
        if st.ts == 1 and o is not None and base is self.arg and (off is None or off < o + 8 and off + (size or 8) > o):
            if off == o and E.ptr(st, val)[0] is not self.tok:
                self.rep.append(("leak", i, "the slot that holds the object is overwritten without a release", E.trail_lines(st)))
            st.ts = 2
        return None

    def on_load(self, E, st, i, base, off):
        if st.ts == 1 and base is self.arg and off is not None and off == self.slot[1]:
            st.mem[(base, off)] = (8, self.tok)       # the slot still refers to the object
        return None

    def on_ret(self, E, st, i, val):
        k = E.ev(st, val) if val is not None else None
        if st.ts and k not in (None, 0) and self.arg.idx in self.outs:
            self.rep.append(("kept", i, "handed to the caller although the call fails", E.trail_lines(st)))


def mentions_load(b, arg):
    return any(isinstance(x, Inst) and x.op == "load" and prog.base_off(x.ops[0])[0] is arg for x in prog.phi_bases(b))


# objects filled in place: function -> (parameter, release function, its parameter)
STRUCT = {"nostr_event_get_delegation": (1, "nostr_delegation_free"), "nostr_uri_parse": (1, "nostr_uri_free"), "nostr_nprofile_decode": (1, "nostr_nprofile_free"),
          "nostr_nevent_decode": (1, "nostr_nevent_free"), "nostr_naddr_decode": (1, "nostr_naddr_free"), "nostr_filter_parse": (2, "nostr_filter_free"),
          "nostr_filter_clone": (0, "nostr_filter_free"), "nostr_client_msg_parse": (2, "nostr_client_msg_free"), "nostr_deletion_parse": (1, "nostr_deletion_free"),
          "nostr_delegation_create": (None, "nostr_delegation_free")}


PARTS = {"nostr_uri_free": ("nostr_nprofile_free", "nostr_nevent_free", "nostr_naddr_free")}


class InPlace(BaseClient):
    """a local structure filled by a library call must be released on every path that leaves after the call succeeded"""
    cap = 6
    exit_cap = 300

    def __init__(self, P, fn, call, k, rel):
        self.P, self.fn, self.call, self.k, self.rel = P, fn, call, k, rel
        self.obj = prog.base_off(call.ops[k])[0]
        self.init = 0
        if call.cname == "nostr_uri_parse":
            import layout
            L = layout.layout(P.cfg)
            self.off = L.off[("nostr_uri", "type")][0] if ("nostr_uri", "type") in L.off else 0
            self.owning = {L.enums[x] for x in ("NOSTR_URI_NPROFILE", "NOSTR_URI_NEVENT", "NOSTR_URI_NADDR")}
        self.rep = []
        self.born = 0

    def on_call(self, E, st, i):
        if i is self.call:
            self.born += 1
            E.clobber(st, i)
            out = []
            for pred in ("eq", "ne"):
                for x in E.acmp(st.copy(), pred, i, mk(0, 32)):
                    x.ts = 1 if pred == "eq" else 0
                    out.append(x)
            return out
        if st.ts and any(E.ptr(st, a)[0] is self.obj for a in i.ops if not isinstance(a, Const)):
            if i.cname == self.rel or i.cname in PARTS.get(self.rel, ()):
                st.ts = 0
            elif (i.cname or "").startswith("llvm.memcpy") and E.ptr(st, i.ops[1])[0] is self.obj:
                st.ts = 0       # moved by copying the structure
        return None

    def on_fact(self, E, st, pred, a, b):
        if st.ts and self.call.cname == "nostr_uri_parse" and isinstance(a, Inst) and a.op == "load" and pred in ("eq", "ne"):
            if E.ptr(st, a.ops[0]) == (self.obj, self.off):
                k = E.ev(st, b)
                # a kind without owned parts, or none of the kinds this function handles
                if pred == "eq" and k is not None and k not in self.owning or pred == "ne" and k in self.owning:
                    st.ts = 2 if pred == "ne" else 0
                elif pred == "eq":
                    st.ts = 1
        return st

    def on_ret(self, E, st, i, val):
        if st.ts == 1:
            self.rep.append(("leak", i, "filled by %s and never released on this path" % self.call.cname, E.trail_lines(st)))


class Freed(BaseClient):
    cap = 6
    exit_cap = 300

    def __init__(self, P, fn, site):
        self.P, self.fn, self.site = P, fn, site
        self.k = DESTROY.get(site.cname, 0)
        self.init = (0, None)
        self.rep = []
        self.seen = 0

    def keep(self, st):
        return (st.ts[1],) if st.ts[1] is not None else ()

    def report(self, E, st, i, kind, why):
        self.rep.append((kind, i, why, E.trail_lines(st)))

    def on_call(self, E, st, i):
        n = i.cname
        f, r = st.ts
        if f:
            for k, a in enumerate(i.ops):
                if isinstance(a, Const) or getattr(a, "ty", "ptr") != "ptr":
                    continue
                b, off = E.ptr(st, a)
                if b is r:
                    if DESTROY.get(n) == k:
                        self.report(E, st, i, "double", "released twice")
                        return []
                    if not (n or "").startswith("llvm."):
                        self.report(E, st, i, "uaf", "passed to %s after release" % (n or "a callback"))
                    elif n.startswith("llvm.mem"):
                        self.report(E, st, i, "uaf", "accessed after release")
                elif DESTROY.get(n) == k:
                    for key in list(st.mem):
                        if key[0] is b:
                            del st.mem[key]
        if i is self.site:
            a = i.ops[self.k]
            b, off = E.ptr(st, a)
            E.clobber(st, i)
            if isinstance(b, Const) or E.ev(st, b) == 0 or not isinstance(b, (Inst, Arg)):
                return [st]
            if isinstance(b, Inst) and b.op == "call" and E.fx.is_alloc(b):
                return [st]       # allocation sites are tracked by Owner
            if f == 0:
                self.seen += 1
                st.ts = (1, b)
            return [st]
        return None

    def on_load(self, E, st, i, base, off):
        f, r = st.ts
        if f:
            if base is r:
                self.report(E, st, i, "uaf", "read after release")
                return []
            if i is r:
                st.ts = (0, None)
        return None

    def on_phi(self, E, st, phis):
        if st.ts[1] in phis:
            st.ts = (0, None)

    def on_store(self, E, st, i, base, off, size, val):
        f, r = st.ts
        if f and base is r:
            self.report(E, st, i, "uaf", "written after release")
            return []
        return None

    def on_ret(self, E, st, i, val):
        f, r = st.ts
        if not f:
            return
        if val is not None and not isinstance(val, Const) and E.ptr(st, val)[0] is r:
            self.report(E, st, i, "uaf", "returned after release")
        for (b, off), (sz, v) in st.mem.items():
            if v is r and b is not r and (isinstance(b, (Arg, Global)) or isinstance(b, Inst) and b.op == "load"):
                self.report(E, st, i, "dangling", "left in an object that outlives the call")


def sites(P, fn):
    """[(kind, client factory)]"""
    out = []
    for i in fn.insts():
        if i.op != "call":
            continue
        n = i.cname
        if n in ext.ALLOC or n == "realloc":
            out.append(("alloc", i, lambda i=i, n=n: Owner(P, fn, i, ext.ALLOC.get(n, "free"))))
        elif n in OUT:
            for k, rel in OUT[n]:
                if k < len(i.ops) and not isinstance(i.ops[k], Const):
                    b = prog.base_off(i.ops[k])[0]
                    if isinstance(b, Inst) and b.op == "alloca":
                        out.append(("out", i, lambda i=i, k=k, rel=rel: OutOwner2(P, fn, i, rel, k)))
                    elif isinstance(b, Arg):
                        out.append(("outarg", i, lambda i=i, k=k, rel=rel, b=b: OutArg(P, fn, i, k, rel, b)))
        if n in STRUCT and STRUCT[n][0] is not None:
            k, rel = STRUCT[n]
            b = prog.base_off(i.ops[k])[0]
            if isinstance(b, Inst) and b.op == "alloca":
                out.append(("inplace", i, lambda i=i, k=k, rel=rel: InPlace(P, fn, i, k, rel)))
        if n in DESTROY:
            out.append(("free", i, lambda i=i: Freed(P, fn, i)))
    return out


# ---- an allocation result is compared with null through some name of it
def akey(v, d=0):
    """structure of an address or value, loads abstracted by what they load from"""
    if isinstance(v, Const):
        return ("c", v.v)
    if not isinstance(v, Inst) or d > 8:
        return v
    if v.op == "gep":
        o, var = v.gep
        b = akey(v.ops[0], d + 1)
        if not var and o == 0:
            return b
        return ("gep", b, o, tuple((akey(x, d + 1), sc) for x, sc in var))
    if v.op == "load":
        return ("ld", akey(v.ops[0], d + 1))
    if v.op in ("zext", "sext", "trunc", "freeze", "bitcast"):
        return akey(v.ops[0], d + 1)
    return v


def tested(fn, site):
    """is the result of the allocation, under any of its names, compared with null somewhere?"""
    al, keys = {site}, set()
    ch = True
    while ch:
        ch = False
        for i in fn.insts():
            if i in al:
                continue
            if i.op in ("phi", "select", "freeze", "bitcast") and any(o in al for o in i.ops) or i.op == "load" and akey(i.ops[0]) in keys:
                al.add(i)
                ch = True
            elif i.op == "store" and i.ops[0] in al:
                k = akey(i.ops[1])
                if k not in keys:
                    keys.add(k)
                    ch = True
    for i in fn.insts():
        if i.op == "icmp" and i.pred in ("eq", "ne") and any(o in al for o in i.ops) and any(isinstance(o, Const) and o.kind == "null" for o in i.ops):
            return True
    return False


def run(P, fn, mkc, limit=30000):
    c = mkc()
    c.outs = tuple(k for k, _ in OUT.get(fn.name, ()))
    E = esp.Engine(fn, c, P.fx, limit)
    E.run()
    c.E = E
    return c


_cfg = {}


def one(a):
    """all sites of one function -> [(site kind, callee, site line, kind, where, why, path)]"""
    cfg, name = a
    import front
    P = prog.prog(cfg)
    f = P.fn[name]
    out = []
    n = 0
    for k, i, m in sites(P, f):
        n += 1
        try:
            c = esp.refine(lambda: (lambda c: (not c.rep, c))(run(P, f, m)), (1, 4))
        except front.Broken as e:
            out.append((k, i.cname, i.loc, "broken", name, str(e), []))
            continue
        for kind, j, why, tr in c.rep:
            out.append((k, i.cname, i.loc, kind, "%s:%s in %s" % (j.file, j.line, name), why, tr))
        if k == "alloc":
            zr = [(j, tr) for j, v, tr in getattr(c, "zret", []) if v == 0]
            if zr and f_errors(cfg, name) and not tested(f, i):
                j, tr = zr[0]
                out.append((k, i.cname, i.loc, "swallowed", "%s:%s in %s" % (j.file, j.line, name), "the call reports success although this allocation failed", tr))
    return name, n, out


def f_errors(cfg, name):
    import layout
    p = layout.layout(cfg).protos.get(name)
    return p is not None and p[0] in ("nostr_error_t", "nostr_relay_error_t")


def all_sites(cfg):
    import multiprocessing, layout
    P = prog.prog(cfg)
    layout.layout(cfg)
    names = sorted((n for n, f in P.fn.items() if f.blocks and n not in ("callback_nostr_relay_dummy",)), key=lambda n: -sum(1 for _ in P.fn[n].insts()))
    with multiprocessing.get_context("fork").Pool(8) as pool:
        return pool.map(one, [(cfg, n) for n in names], chunksize=1)

"""Walks over lists that come with an element count: does every position take part?"""
import re
import esp, filt
from ir import Inst, Const, Arg
from filt import lin


def counts(L):
    """{(record, field index): (list field index, its name, its fixed capacity or 0)} of the element counts in the library's records"""
    out = {}
    for rec, fs in L.records.items():
        names = [n for n, _ in fs]
        r = "struct." + rec.replace("struct ", "")
        for k, (n, ty) in enumerate(fs):
            if not n or not n.endswith("count") or "[" in ty or "*" in ty:
                continue
            stem = n[:-6] if n.endswith("_count") else ""
            lst = [x for x, t in fs if x in (stem, stem + "s") and ("*" in t or "[" in t)] if stem else [x for x, t in fs if "*" in t or "[" in t][:1]
            if lst:
                m = re.search(r"\[(\d+)\]$", dict(fs)[lst[0]])
                out[(r, k)] = (names.index(lst[0]), lst[0], int(m.group(1)) if m else 0)
    return out


def loop_body(info, h):
    body, todo = {h}, [p for p in h.preds if info.rpo.get(p, -1) >= info.rpo[h]]
    while todo:
        b = todo.pop()
        if b not in body and b in info.rpo:
            body.add(b)
            todo += b.preds
    return body


def only(v, c, n=0):
    """v is computed from the position c and constants alone"""
    if v is c:
        return True
    if not isinstance(v, Inst) or n > 6:
        return False
    if v.op in ("zext", "sext", "trunc", "freeze"):
        return only(v.ops[0], c, n + 1)
    if v.op in ("add", "sub", "and", "urem", "srem", "udiv", "sdiv", "lshr", "ashr", "mul", "xor", "or", "shl"):
        return only(v.ops[0], c, n + 1) and isinstance(v.ops[1], Const)
    return False


def reach(b, body, h):
    out, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x in out or x not in body or x is h:
            continue
        out.add(x)
        todo += x.succs
    return out


def busy(blocks):
    return any(i.op == "store" or i.op == "call" and not (i.cname or "").startswith("llvm.") for b in blocks for i in b.insts)


def fails(b, body, n=0):
    """leaving the loop through b ends the function with a failure status (non-zero constant / null)"""
    prev = None
    while n < 40:
        n += 1
        t = b.insts[-1]
        if t.op == "ret":
            v = t.ops[0] if t.ops else None
            if isinstance(v, Inst) and v.op == "phi" and v.bb is b:
                v = next((x for x, p in v.inc if p is prev), None)
            return isinstance(v, Const) and v.kind == "int" and v.s != 0
        if len(b.succs) != 1:
            return False
        prev, b = b, b.succs[0]
    return False


def source(y, C, n=0):
    """what the bound y is: ('f', rec, idx, base) / ('a', arg) / ('j', call) / ('cap', k) / None"""
    if isinstance(y, Arg):
        return ("a", y)
    if isinstance(y, Inst):
        if y.op in ("zext", "sext", "trunc", "freeze"):
            return source(y.ops[0], C, n)
        if y.op == "load" and isinstance(y.ops[0], Inst) and y.ops[0].op == "gep" and y.ops[0].sf and tuple(y.ops[0].sf) in C:
            return ("f", tuple(y.ops[0].sf), y.ops[0].ops[0])
        if y.op == "call" and y.cname == "cJSON_GetArraySize":
            return ("j", y)
        if y.op in ("phi", "select") and n < 2:
            ops = [v for v, _ in y.inc] if y.op == "phi" else y.ops[1:]
            ss = [source(v, C, n + 1) for v in ops]
            ks = [v.s for v in ops if isinstance(v, Const) and v.kind == "int"]
            real = [s for s in ss if s]
            if real and any(k > 0 for k in ks):
                return ("cap", max(ks), real[0])
            if real and len(real) == len(ops) and len(set(real)) == 1:
                return real[0]
    return None


def listgep(i, c):
    """i is an element access at position c (element wider than a byte)"""
    if i.op == "gep" and i.gep and i.gep[1]:
        for v, sc in i.gep[1]:
            if lin(v)[0] is c and sc > 1:
                return True
    return i.op == "call" and i.cname == "cJSON_GetArrayItem" and lin(i.ops[1])[0] is c


def base(u):
    """the list an element access goes into: the array field it was loaded from, or the value itself"""
    b = u.ops[0]
    if isinstance(b, Inst) and b.op == "load" and isinstance(b.ops[0], Inst) and b.ops[0].op == "gep" and b.ops[0].sf:
        return tuple(b.ops[0].sf)
    return b


def seen(f, uses, k):
    """position k of the list walked by `uses` is looked at on its own"""
    bs = {base(u) for u in uses}
    for i in f.insts():
        if i.op == "call" and i.cname == "cJSON_GetArrayItem" and isinstance(i.ops[1], Const) and i.ops[1].s == k and base(i) in bs:
            return True
        if k == 0 and i.op == "load" and isinstance(i.ops[0], Inst) and i.ops[0].op == "load" and base(i) in bs:
            return True
        if i.op == "gep" and i.gep and not i.gep[1] and base(i) in bs:
            sc = max((s for u in uses if u.op == "gep" for _, s in u.gep[1]), default=0)
            if sc and i.gep[0] // sc == k:
                return True
    return False


def tests(b, body):
    """comparisons that decide the branch at the end of b: (icmp, blocks outside the loop it leads to); `x && y` and `x || y` give one each"""
    t = b.insts[-1]
    if t.op != "br" or len(b.succs) != 2 or not isinstance(t.ops[0], Inst):
        return
    leaves = [s for s in b.succs if s not in body]
    if t.ops[0].op == "icmp":
        yield t.ops[0], leaves
    elif t.ops[0].op == "phi" and len(leaves) == 1:
        want = 0 if b.succs[1] in leaves else 1
        todo = [t.ops[0]]
        for q in todo:
            if all(v.s & 1 == want for v, p in q.inc if isinstance(v, Const)):
                for v, p in q.inc:
                    if isinstance(v, Const):
                        z = p.insts[-1]
                        v = z.ops[0] if z.op == "br" and len(p.succs) == 2 else None
                    if isinstance(v, Inst) and v.op == "icmp":
                        yield v, leaves
                    elif isinstance(v, Inst) and v.op == "phi" and v not in todo:
                        todo.append(v)


def walks(f, C):
    """-> (number of list walks, [(inst, key, why)])"""
    info = esp.info(f)
    n, out = 0, []
    for h in info.headers:
        phis = [i for i in h.insts if i.op == "phi"]
        body = None
        for c in phis:
            uses = None
            if not isinstance(c.w, int) or c.w < 8 or c.w > 64:
                continue
            if body is None:
                body = loop_body(info, h)
            inl = [v for v, p in c.inc if p in body]
            init = [v for v, p in c.inc if p not in body]
            steps = [lin(v)[1] for v in inl if lin(v)[0] is c]
            if not steps or len(steps) != len(inl) or any(s <= 0 for s in steps):
                continue
            uses = [i for b in body for i in b.insts if listgep(i, c)]
            if not uses:
                continue
            hit = None
            pos = []
            for b in body:
              for i, leaves in tests(b, body):
                (x, a), (y, d), p = lin(i.ops[0]), lin(i.ops[1]), i.pred
                if y is c:
                    (x, a), (y, d), p = (y, d), (x, a), esp.SWAP[p]
                s = source(y, C) if x is c else None
                if s and leaves:
                    hit = hit or (i, s)
                    k = d - a + (1 if p in ("ule", "ugt", "sle", "sgt") else 0)
                    if p in ("eq", "ne"):
                        k = d - a
                    if s[0] == "cap":
                        full = C[s[2][1]][2] if s[2][0] == "f" else 0
                        if not full or s[1] < full:
                            out.append((i, "cap", "the walk over the list ends after at most %d elements, however long the list is" % s[1]))
                    elif k < 0:
                        out.append((i, "tail", "the last %d element(s) of the list are never looked at" % -k))
                elif leaves:
                    for q in phis:
                        for u, v in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
                            if only(u, q) and isinstance(v, Const) and v.kind == "int" and isinstance(q.w, int) and all(
                                    lin(z)[0] is q and lin(z)[1] > 0 or isinstance(z, Inst) and z.op in ("phi", "select") for z, pp in q.inc if pp in body) and v.s >= 0:
                                pos.append((i, leaves))
                else:
                    cand = only(i.ops[0], c) and isinstance(i.ops[1], Const) or only(i.ops[1], c) and isinstance(i.ops[0], Const) or bool(s)
                    if cand:
                        r0, r1 = reach(b.succs[0], body, h), reach(b.succs[1], body, h)
                        for skip, work in ((r0, r1), (r1, r0)):
                            if b.succs[0 if skip is r0 else 1] in work and not busy(skip) and any(listgep(q, c) for z in work - skip for q in z.insts):
                                out.append((i, "pos", "an element is left out because of its position in the list"))
            if hit is None:
                continue
            i, s = hit
            if s[0] == "a" and not any(u.op == "gep" for u in uses):
                continue
            n += 1
            if s[0] == "f":
                own = [base(u) for u in uses if isinstance(base(u), tuple) and base(u)[0] == s[1][0]]
                if own and all(o[1] != C[s[1]][0] for o in own):
                    out.append((i, "pair", "the number of steps is the length of another list (%s)" % C[s[1]][1]))
            for j, lv in pos:
                if not all(fails(x, body) for x in lv):
                    out.append((j, "cap", "the walk over the list is broken off after a fixed number of elements"))
            if any(not isinstance(v, Const) or v.s != 0 for v in init):
                k = [v.s for v in init if isinstance(v, Const)]
                if len(k) < len(init) or not all(seen(f, uses, j) for j in range(max(k))):
                    out.append((i, "head", "the walk does not begin at the first element" + (" but at position %d" % max(k) if k else "")))
            if any(x > 1 for x in steps):
                out.append((i, "step", "the walk moves on by more than one element"))
    return n, out

"""Which characters a text check lets through: value sets of the byte a scanning loop looks at.

For each loop that reads one byte of a text per step, every one of the 256 values that byte can take is followed through the
function's branches (all other unknown values go both ways, later steps see any byte), and the returns it can lead to are collected."""
import esp
from ir import Inst, Const, Arg, Global
from filt import lin
from walk import loop_body
from front import Broken

CTYPE = {}
for _c in range(256):
    _u, _l, _d = 65 <= _c <= 90, 97 <= _c <= 122, 48 <= _c <= 57
    CTYPE[_c] = (0x100 if _u else 0) | (0x200 if _l else 0) | (0x400 if _u or _l else 0) | (0x800 if _d else 0) | \
        (0x1000 if _d or 65 <= _c <= 70 or 97 <= _c <= 102 else 0) | (0x2000 if _c in (9, 10, 11, 12, 13, 32) else 0) | \
        (0x4000 if 32 <= _c <= 126 else 0) | (0x8000 if 33 <= _c <= 126 else 0) | (1 if _c in (9, 32) else 0) | \
        (2 if _c < 32 or _c == 127 else 0) | (4 if 33 <= _c <= 126 and not (_u or _l or _d) else 0) | (8 if _u or _l or _d else 0)
IS = {"isdigit": 0x800, "isxdigit": 0x1000, "isalpha": 0x400, "isalnum": 8, "islower": 0x200, "isupper": 0x100, "isspace": 0x2000, "isprint": 0x4000, "isgraph": 0x8000,
      "iscntrl": 2, "ispunct": 4}
LIMIT = 60000


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def cmp(p, a, b, w):
    if p in ("eq", "ne"):
        return (a == b) == (p == "eq")
    if p[0] == "s":
        a, b = sgn(a, w), sgn(b, w)
    return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p[1:]]


class Eval(object):
    """values of the few instructions that depend on the byte alone (and on flags)"""
    def __init__(self, fn, marks):
        self.fn, self.marks = fn, marks
        self.info = esp.info(fn)
        self.track = set()
        self.dep = {}
        # values kept across blocks: whatever is computed from the byte or from constants alone, except counters
        for i in fn.insts():
            if i.op == "phi" and i.w and not self.counter(i):
                self.track.add(i)

    def counter(self, p):
        for v, b in p.inc:
            r, k = lin(v)
            if r is p and k != 0:
                return True
        return False

    def val(self, env, v, n=0):
        """('n', k) a number, ('tab', k) address inside the ctype table, ('p', b) pointer known (non)null, or None"""
        if isinstance(v, Const):
            if v.kind == "int":
                return v.v
            return 0 if v.kind == "null" else None
        if isinstance(v, Global):
            return None
        if not isinstance(v, Inst) or n > 60:
            return None
        if v in env:
            return env[v]
        r = self.calc(env, v, n + 1)
        return r

    def calc(self, env, v, n):
        op, w = v.op, v.w
        if op == "phi":
            return None
        g = lambda k: self.val(env, v.ops[k], n)
        num = lambda x: x if isinstance(x, int) else None
        if op in ("zext", "trunc", "freeze", "bitcast"):
            a = g(0)
            return a & ((1 << w) - 1) if isinstance(a, int) and isinstance(w, int) else a
        if op == "sext":
            a = num(g(0))
            return None if a is None else sgn(a, v.ops[0].w) & ((1 << w) - 1)
        if op in ("add", "sub", "and", "or", "xor", "shl", "lshr", "ashr", "mul"):
            a, b = num(g(0)), num(g(1))
            if op == "and" and (a == 0 or b == 0):
                return 0
            if op == "mul" and (a == 0 or b == 0):
                return 0
            if op == "or" and w == 1 and (a == 1 or b == 1):
                return 1
            if a is None or b is None:
                return None
            m = (1 << w) - 1
            if op in ("shl", "lshr", "ashr") and b >= w:
                return None
            return {"add": lambda: a + b, "sub": lambda: a - b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b,
                    "shl": lambda: a << b, "lshr": lambda: a >> b, "ashr": lambda: sgn(a, w) >> b, "mul": lambda: a * b}[op]() & m
        if op == "icmp":
            a, b = g(0), g(1)
            if isinstance(a, tuple) or isinstance(b, tuple):
                x, y = (a, b) if isinstance(a, tuple) else (b, a)
                if x[0] == "p" and y == 0 and v.pred in ("eq", "ne"):
                    return int((v.pred == "ne") == x[1])
                return None
            if a is None or b is None:
                return None
            return int(cmp(v.pred, a, b, getattr(v.ops[0], "w", None) or 64))
        if op == "select":
            c = num(g(0))
            if c is None:
                a, b = g(1), g(2)
                return a if a == b else None
            return g(1 if c else 2)
        if op == "gep":
            k, vs = v.gep
            b = v.ops[0]
            base = self.val(env, b, n)
            if isinstance(base, tuple) and base[0] == "ct" and len(vs) <= 1:
                x = 0
                if vs:
                    x = num(self.val(env, vs[0][0], n))
                    if x is None or vs[0][1] != 2:
                        return None
                    x = sgn(x, 64) if getattr(vs[0][0], "w", 64) == 64 else x
                return ("ct", base[1] + k // 2 + x)
            if isinstance(b, Global) and len(vs) <= 1:
                x = 0
                if vs:
                    x = num(self.val(env, vs[0][0], n))
                    if x is None:
                        return None
                    x *= vs[0][1]
                return ("g", b.name, k + x)
            return None
        if op == "load":
            a = self.val(env, v.ops[0], n)
            if isinstance(a, tuple) and a[0] == "ct":
                return CTYPE.get(a[1], 0) if a[1] >= 0 else None
            if isinstance(a, tuple) and a[0] == "g":
                gl = self.gl(a[1])
                if gl is not None and gl.init_str is not None and isinstance(w, int) and w == 8 and 0 <= a[2] < len(gl.init_str):
                    return gl.init_str[a[2]]
                if gl is not None and gl.init_ints and isinstance(w, int) and a[2] % (w // 8) == 0 and 0 <= a[2] // (w // 8) < len(gl.init_ints):
                    return gl.init_ints[a[2] // (w // 8)] & ((1 << w) - 1)
            x = v.ops[0]
            if isinstance(x, Inst) and x.op == "call" and x.cname == "__ctype_b_loc":
                return ("ct", 0)
            return None
        if op == "call":
            c = v.cname
            if c in IS:
                a = num(g(0))
                return None if a is None or a > 255 else int(bool(CTYPE[a] & IS[c]))
            if c in ("tolower", "toupper"):
                a = num(g(0))
                if a is None or a > 255:
                    return None
                return a + 32 if c == "tolower" and 65 <= a <= 90 else a - 32 if c == "toupper" and 97 <= a <= 122 else a
            if c in ("strchr", "memchr") and isinstance(v.ops[0], Global) and v.ops[0].init_str is not None:
                a = num(g(1))
                s = v.ops[0].init_str
                if c == "memchr":
                    k = num(g(2))
                    if k is None:
                        return None
                    s = s[:k]
                return None if a is None else ("p", (a & 255) in s)
        return None

    def gl(self, name):
        for g in self.globs:
            if g.name == name:
                return g
    globs = ()


def outcomes(fn, marks, body, v, succ, globs, always=False, limit=LIMIT):
    """follow the value v of the byte read by `marks` (loads) from the function's entry.
    always: every step reads v
    -> (returns reached after the byte was read, a step completed without reading, rejected at once, branches after which success is possible)"""
    ev = Eval(fn, marks)
    ev.globs = globs
    live = ev.info.live
    h = next(iter(b for b in body if any(p not in body for p in b.preds))) if body else None
    out = set()
    skip = False
    edges = {}
    s0 = (fn.blocks[0], (), 0)
    seen, todo = {s0}, [s0]
    prev = {}
    rets = {}
    while todo:
        st = todo.pop()
        b, env, ph = st
        env = dict(env)
        for i in b.insts:
            if i in marks:
                if ph == 0:
                    ph = 1
                if ph == 1:
                    env[i] = v
                else:
                    env.pop(i, None)
            elif i.op != "phi" and i.w:
                # fix the value while the block's operands are known, in case it is used later
                x = ev.calc(env, i, 0)
                if isinstance(x, int):
                    env[i] = x
                else:
                    env.pop(i, None)
            elif i.op in ("load", "gep", "call"):
                x = ev.calc(env, i, 0)
                if x is not None:
                    env[i] = x
        t = b.insts[-1]
        if t.op == "ret":
            r = ev.val(env, t.ops[0]) if t.ops else None
            k = None if r is None else bool(succ(r))
            rets.setdefault(st, set()).add(k)
            if ph >= 1:
                out.add(k)
            continue
        nx = list(b.succs)
        if t.op == "br" and t.ops:
            c = ev.val(env, t.ops[0])
            if isinstance(c, int):
                nx = [t.succs[0] if c else t.succs[1]]
        elif t.op == "switch":
            c = ev.val(env, t.ops[0])
            if isinstance(c, int):
                hit = [blk for k, blk in t.cases if getattr(k, "v", k) == c]
                nx = [hit[0] if hit else b.succs[0]]
        for s in nx:
            e2 = {}
            for p in s.insts:
                if p.op != "phi":
                    break
                if p in ev.track:
                    for x, pb in p.inc:
                        if pb is b:
                            y = ev.val(env, x)
                            if y is not None:
                                e2[p] = y
            for p, x in env.items():
                if p not in e2 and p in live[s] and p.op != "phi" or p in ev.track and p not in e2 and p in live[s] and p.bb is not s:
                    e2[p] = x
            ph2 = ph
            if s is h and b in body:
                if ph == 0:
                    skip = True
                ph2 = (1 if always else 2) if ph else 0
                e2 = {p: x for p, x in e2.items() if p not in marks}
            n = (s, tuple(sorted(e2.items(), key=lambda q: q[0].id)), ph2)
            prev.setdefault(n, []).append(st)
            edges.setdefault((st[0], ph), set())
            if n not in seen:
                seen.add(n)
                todo.append(n)
                if len(seen) > limit:
                    raise Broken("%s: too many states" % fn.name)
    # states from which only failure returns can be reached
    ok = set()
    back = [s for s, ks in rets.items() if None in ks or True in ks]
    while back:
        s = back.pop()
        if s in ok:
            continue
        ok.add(s)
        back += prev.get(s, ())
    # rejected at once: control leaves the loop while the byte is the one being looked at, and nothing but failure follows
    rej = False
    for n, ps in prev.items():
        if n[2] == 1 and n[0] not in body and n not in ok and any(p[0] in body for p in ps):
            rej = True
    live_edges = {(p[0], n[0]) for n, ps in prev.items() if n in ok for p in ps}
    return out, skip, rej, live_edges


def down(body, c):
    """the position counts down to 0 and the element below it is the one looked at"""
    from walk import tests
    for b in body:
        for i, lv in tests(b, body):
            if lv and lin(i.ops[0]) == (c, 0) and isinstance(i.ops[1], Const) and i.ops[1].s == 0 and i.pred in ("ugt", "ne", "eq", "sgt"):
                return True
    return False


def scanners(fn):
    """loops that read a byte per step: [(header, body, [loads], root, phi, start, step)]"""
    info = esp.info(fn)
    res = []
    for h in info.headers:
        body = loop_body(info, h)
        for c in [i for i in h.insts if i.op == "phi"]:
            inl = [v for v, p in c.inc if p in body]
            init = [v for v, p in c.inc if p not in body]
            ptr = not c.w
            steps = set()
            for v in inl:
                if ptr:
                    k = 0
                    while isinstance(v, Inst) and v.op == "gep" and v.gep and not v.gep[1]:
                        k += v.gep[0]
                        v = v.ops[0]
                    steps.add(k if v is c else None)
                else:
                    r, k = lin(v)
                    steps.add(k if r is c else None)
            if not inl or None in steps or 0 in steps or len(steps) != 1:
                continue
            lds = []
            for b in body:
                for i in b.insts:
                    if i.op == "load" and i.w == 8:
                        a = i.ops[0]
                        if ptr and a is c:
                            lds.append((i, None))
                        elif not ptr and isinstance(a, Inst) and a.op == "gep" and a.gep and a.gep[0] == 0 and len(a.gep[1]) == 1 and a.gep[1][0][1] == 1 \
                                and lin(a.gep[1][0][0]) == (c, -1 if steps == {-1} and down(body, c) else 0) and not (isinstance(a.ops[0], Inst) and a.ops[0].bb in body and a.ops[0].op == "phi"):
                            lds.append((i, a.ops[0]))
            if not lds:
                continue
            roots = {r for _, r in lds}
            if len(roots) != 1:
                continue
            res.append((h, body, [i for i, _ in lds], roots.pop(), c, init, steps.pop()))
    return res


def ends(fn, body, phi):
    """comparisons of the position with a bound that leave the loop: [(icmp, bound, shift)] normalised to leave when position+shift >= bound"""
    from walk import tests
    out = []
    for b in body:
        for i, leaves in tests(b, body):
            if not leaves:
                continue
            x, y, p = i.ops[0], i.ops[1], i.pred
            (rx, kx), (ry, ky) = lin(x), lin(y)
            if ry is phi:
                (rx, kx), (ry, ky), p = (ry, ky), (rx, kx), esp.SWAP[p]
                x, y = y, x
            if rx is phi:
                out.append((i, ry, kx - ky, p))
    return out

"""Failed allocations."""
import own, prog, layout
from spec import CONFIGS
import props.p11 as p11

TECHNIQUE = "path-sensitive typestate dataflow per allocation site over LLVM IR"


def check(rep, tier):
    rep.expl = ("For every allocation site the null outcome was followed along all paths: it must not be dereferenced or passed to a function that dereferences it, and a function that "
                "reports errors must not reach a success return without ever having tested the result. For every cJSON call that adds a member or element, the result must be looked at.")
    p11.collect(rep, {"null", "swallowed"})
    for cfg in CONFIGS:
        P = prog.prog(cfg)
        n = 0
        for name, f in sorted(P.fn.items()):
            if not f.blocks or not own.f_errors(cfg, name):
                continue
            users = None
            for i in f.insts():
                if i.op == "call" and (i.cname or "").startswith("cJSON_Add"):
                    n += 1
                    if users is None:
                        users = {o for j in f.insts() for o in j.ops}
                    rep.obl(i in users, "ignored:%s:%s" % (name, i.cname), i.loc, "the result of %s is ignored, so a failed allocation drops the value and still reports success" % i.cname)
        rep.need("cJSON additions in " + cfg, n, 20)

"""What a failed constructor leaves behind."""
import own
import props.p11 as p11

TECHNIQUE = "path-sensitive ownership (typestate) dataflow per allocation and release site over LLVM IR"


def check(rep, tier):
    rep.expl = ("For every object reachable from an out-parameter or from an object that outlives the call, all failure returns were explored: no released object may still be referenced "
                "from there, and a constructor's out-parameter may not hold the object when the call reports an error.")
    p11.collect(rep, {"dangling", "kept"})

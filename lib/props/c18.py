"""C18: minim-gc when the system has no memory left."""
from props.c17 import REAL, STUB, LISTS, judge  # noqa: F401
import gcgen

ID = "C18"
TITLE = "Minim-GC survives allocation failures and loses nothing"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 1500, 200000
RULE = ("the mutator programs of C17 with the underlying allocator failing at seeded calls, once or several times in a row, in blocks, resizings and the collector's own tables, and with sizes that overflow; "
        "an allocation fails only if memory is still unavailable after a collection, and then changes nothing; non-trivial: at least one failure was injected")
ASSUMPTIONS = ["the failure of the very first allocations, in GC_init, is not injected"]


def gen(rng, tier, i):
    return {"ops": gcgen.program(rng, True)}


_judge = judge


def judge(case, run, info):  # noqa: F811
    _judge(case, run, info)
    info["nontrivial"] = any(o[0] in "F" for o in case["ops"])
    return []

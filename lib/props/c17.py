"""C17: the project's own collector, src/gc/minim-gc, over a simulated allocator."""
import gcgen

ID = "C17"
TITLE = "Minim-GC keeps everything reachable intact and reclaims everything else"
LEVEL = "exploration"
QUICK, THOROUGH = 1500, 200000
RULE = ("seeded mutator programs over minim-gc's interface (allocation of every kind, links, rings, chains, interior and encoded pointers, roots, markers, destructors, resizing, explicit release, registers, pauses, tables that grow and shrink) "
        "with seeded addresses, reuse and bucket collisions; every release is compared with exact reachability, contents with a mirror, destructors and statistics with the model; non-trivial: at least one collection released something")
REAL = ["src/gc/minim-gc/gc.c", "src/gc/minim-gc/gc-impl.c"]
STUB = ["malloc, calloc, realloc, free: a simulated allocator with seeded placement, reuse and failures, poisoned free memory (AddressSanitizer)", "the mutator: sim/gcsim.c"]
ASSUMPTIONS = ["a block's address is held in a scanned stack slot, a general register, a block or a root; addresses hidden in other forms do not keep a block alive (conservative collector)",
               "destructors do not use the collector"]
LISTS = ("ops",)
FAULTS = False


def gen(rng, tier, i):
    return {"ops": gcgen.program(rng, FAULTS)}


def judge(case, run, info):
    m = run.gc(case["ops"])
    info["nontrivial"] = m.stats["freed"] > 0 and m.stats["collections"] > 0
    info["max"] = {"blocks": m.stats["blocks"]}
    return []

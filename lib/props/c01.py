"""C01: programs mean what the language says, whatever the heap, stack and
collection schedule do."""
import engine
from alias import alias
from gen import Gen
from scheme import run_program, Unsupported

ID = "C01"
TITLE = "Programs evaluate to the results the language defines"
LEVEL = "exploration"
QUICK, THOROUGH = 600, 30000
RULE = ("a seeded generator writes well-typed programs (closures, mutation, multiple values, recursion, redefinition, eval) and a heap schedule; "
        "a reference interpreter gives the expected output; non-trivial: the reference run calls at least 20 procedures")
REAL, STUB = engine.REAL_CORE, engine.STUB_CORE
ASSUMPTIONS = ["the reference interpreter (lib/scheme.py) defines the language", "programs stay inside the generator's language subset"]


def gen(rng, tier, i):
    g = Gen(rng)
    items = g.program(nitems=rng.choice([4, 8, 14]), depth=rng.choice([3, 4, 5]), budget=rng.choice([30, 60, 120]))
    p = rng.choice([0, 0.3, 0.7])
    if p:
        items = alias(rng, items, p)
    return {"items": items, "cfg": engine.rand_cfg(rng), "feat": g.feat}


def judge(case, run, info):
    text = "\n".join(case["items"]) + "\n"
    try:
        exp = run_program(text)
    except (Unsupported, IndexError) as e:
        info["discard"] = True
        info["why"] = repr(e)
        info["count"] = {"discard " + str(e)[:20]: 1}
        return []
    info["nontrivial"] = exp["steps"] >= 20
    info["count"] = dict(case.get("feat", {}))
    info["max"] = {"model_depth": exp["depth"], "model_steps": exp["steps"]}
    r = run.run("nolib", dict(case["cfg"], files={"/w/prog.min": text}))
    v = []
    if r["end"] == "exit":
        if r["code"] != exp["code"]:
            v.append(("exit-code", "exit code %s, reference says %s\nstderr: %r\nreference stderr %r" % (r["code"], exp["code"], r["stderr"][:400], exp["err"][:400])))
        elif r["stdout"] != exp["out"]:
            v.append(("output", "output differs:\n got %r\n ref %r" % diff(r["stdout"], exp["out"])))
        elif r["stderr"] != exp["err"]:
            v.append(("stderr", "error text differs:\n got %r\n ref %r" % diff(r["stderr"], exp["err"])))
    return v


def diff(a, b, n=160):
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    s = max(0, k - 60)
    return a[s:k + n], b[s:k + n]


def simplify(case):
    import shrink
    for c in shrink.items(case, "items"):
        yield c

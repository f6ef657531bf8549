"""C14: the driver: interactive sessions, batch runs, command line, exit codes."""
import engine
import scheme
from gen import Gen
from props.c01 import diff
from props import c11

ID = "C14"
TITLE = "Sessions print each result in order and end with the right exit code"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 2000, 60000
RULE = ("seeded interactive sessions and batch runs with every command-line form: expressions with values, multiple values, output, definitions, errors, malformed text, exit calls and "
        "end of input, delivered in pieces with read and write faults; non-trivial: at least 3 expressions were evaluated")
REAL, STUB = engine.REAL_CORE, engine.STUB_CORE
ASSUMPTIONS = ["the reference interpreter gives the values"]
STARTS = {
    "repl-header": dict(argv=["--no-libs", "-i"], cfg={"seed": 1}),
    "repl-long": dict(argv=["--quiet", "--no-libs", "--interactive"], cfg={"seed": 1}),
    "load-repl": dict(argv=["-q", "--no-libs", "-i", "prog.min", "a", "-b", "c d"], cfg={"seed": 1}),
    "batch-args": dict(argv=["-q", "--no-libs", "--", "prog.min", "-x", "", "y"], cfg={"seed": 1}),
    "batch-header": dict(argv=["--no-libs", "prog.min"], cfg={"seed": 1}),
    "bogus": dict(argv=["-q", "--bogus"], cfg={"seed": 1}),
}
ARGS = {"load-repl": ["prog.min", "a", "-b", "c d"], "batch-args": ["prog.min", "-x", "", "y"], "nolib": ["prog.min"], "batch-header": ["prog.min"],
        "repl": [], "repl-header": [], "repl-long": []}
LISTS = ("items", "items2", "faults")
REPLS = ("repl", "repl-header", "repl-long", "load-repl")


def extra(rng):
    return rng.choice(["(values 1 2 3)", "(values)", "(values \"a\" 'b)", "5", "-3", "\"text\"", "#\\a", "#\\space", "#\\newline", "'sym", "'(1 (2 . 3) #(4) \"s\")", "#t", "#f", "'()", "(void)",
                       "(list 1 2 #\\x)", "(cons 1 2)", "(define-values (u) 5)", "(define-values (w z) (values 1 'q))", "(begin 1 2)", "(display \"out\")", "(begin (display \"x\") (newline) 7)",
                       "(let-values ([(a b) (values 1 2)]) (values b a))", "''a", "'#()", "(command-line)", "(make-string 3 #\\z)", "(if #f 1 2)", "((lambda xs xs) 1 2)",
                       "(fprintf (current-error-port) \"err~%\")", "(string->symbol \"a b\")", "(version)", "(vector 1 2 3)", "(eval '(+ 1 2))"])


ENDS = [("eof", 0), ("eof", 0), ("eof", 0), ("(exit 0)", 0), ("(exit 7)", 7), ("(exit 255)", 255), ("(car 5)", 1), ("(error 'who \"msg\")", 1), ("(error 'who \"msg\" 1 2)", 1),
        ("(vector-ref (vector 1) 9)", 1), ("nobody", 1), ("(5 5)", 1), ("((lambda (x) x))", 1), ("(if)", 1), ("(let-values)", 1), ("(lambda)", 1), ("(raise 'obj)", 1),
        (")", 1), ("(1 2", 1), ('"abc', 1), ("#<", 1), ("(begin (display \"last\") (exit 3))", 3), ("#\\abc", 1), ("(set! never-defined 1)", 1), ("(hashtable-ref (make-eq-hashtable) 'k)", 1)]


def gen(rng, tier, i):
    z = rng.choice(["repl", "repl", "repl", "repl-header", "repl-long", "load-repl", "load-repl", "nolib", "nolib", "batch-args", "batch-args", "batch-header", "bogus"] if i % 40 else ["bogus"])

    def items():
        if rng.random() < 0.4:
            xs = ["(begin %s (void))" % x if x.startswith("(set!") else x for x in Gen(rng).program(nitems=rng.choice([2, 5]), depth=3, budget=30)]
        else:
            xs = []
        for _ in range(rng.choice([0, 2, 6, 12])):
            x = extra(rng)
            if rng.random() < 0.2:
                d = c11.datum(rng, rng.choice([0, 1, 2, 3]))
                if len(str(d)) < 3000:
                    # [text, printed form]
                    x = ["'" + c11.lay(rng, d, rng.choice([0, 0, 0.3])), c11.show(d)]
            xs.insert(rng.randrange(len(xs) + 1) if not xs or rng.random() < 0.7 else len(xs), x)
        return xs
    end = rng.choice(ENDS)
    c = {"z": z, "items": items(), "end": list(end), "sep": rng.choice(["\n", " ", "\n\n", "\n; comment (\n", " #| x |# "]), "trail": rng.choice(["", "\n", " ; bye"])}
    c["items2"] = items() if z == "load-repl" else []
    cfg = engine.rand_cfg(rng, allocs=20000, heavy=0.03)
    cfg["obuf"] = rng.choice(["f 4096", "f 64", "l", "n"])
    if rng.random() < 0.5:
        cfg["chunk"] = rng.choice([1, 3, 20])
    faults = []
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(["read:stdin", "write:stdout", "write:stdout", "open:r", "read:file"])
            n = rng.choice([1, 1, 2, 3, rng.randrange(1, 40)])
            if k == "write:stdout":
                faults.append([k, n, rng.choice([5, 28, 0]), rng.choice([1, 3, 0]), int(rng.random() < 0.2), 0])
                if faults[-1][2] == 0:
                    faults[-1][3] = max(1, faults[-1][3])
                    faults[-1][4] = 0
            else:
                faults.append([k, n, 5, 0, 0, 0])
    c["cfg"], c["faults"] = cfg, faults
    return c


def cshow(x):
    """the driver's own printer"""
    t = type(x)
    if t is scheme.MStr:
        return c11.show(["str", x.text()])
    if t is scheme.Pair:
        out = []
        while type(x) is scheme.Pair:
            out.append(cshow(x.car))
            x = x.cdr
        if x is not scheme.NIL:
            out += [".", cshow(x)]
        return "(" + " ".join(out) + ")"
    if t is scheme.Vec:
        return "#(" + " ".join(cshow(y) for y in x.v) + ")"
    if t is scheme.HT:
        return "#<hashtable>"
    if t is scheme.Box:
        return "#&" + cshow(x.v)
    if t in (scheme.Closure, scheme.Prim, scheme.OutStr, scheme.Stdout):
        raise scheme.Unsupported("printed form")
    return scheme.show(x)


def text_of(item):
    return item[0] if isinstance(item, list) else item


def session(I, items, repl):
    for text in items:
        if isinstance(text, list):
            if repl:
                I.out.append("> " + text[1] + "\n")
            continue
        ds = scheme.Parser(text).all()
        for d in ds:
            if repl:
                I.out.append("> ")
            v = I.toplevel(d)
            if repl and v is not scheme.VOID:
                if type(v) is scheme.MV:
                    for y in v.v:
                        I.out.append(cshow(y) + "\n")
                else:
                    I.out.append(cshow(v) + "\n")


def model(case):
    """-> (out, err or None, code) where a deliberate ending gives err None (some message)"""
    z = case["z"]
    I = scheme.Interp(fuel=300000)
    I.cmdline = ARGS[z]

    def cl():
        return scheme.to_list([scheme.MStr(a) for a in ARGS[z]])
    I.g[scheme.sym("command-line")] = scheme.Prim("command-line", cl, 0, 0)
    I.g[scheme.sym("version")] = scheme.Prim("version", lambda: scheme.MStr("0.3.5"), 0, 0)
    header = "Minim v0.3.5\n" if z.endswith("header") else ""
    I.out.append(header)
    end, code = case["end"]
    err = ""
    try:
        if z == "load-repl":
            session(I, case["items2"], False)
        session(I, case["items"], z in REPLS)
        if end == "eof":
            if z in REPLS:
                I.out.append("> ")
        else:
            if z in REPLS:
                I.out.append("> ")
            if "last" in end:
                I.out.append("last")
            err = None if code == 1 else ""
    except scheme.Exit as e:
        code = e.code
    except RecursionError:
        raise scheme.Unsupported("depth")
    return "".join(I.out), None if err is None else "".join(I.err), code


def judge(case, run, info):
    z = case["z"]
    if z == "bogus":
        r = run.run("bogus", dict(case["cfg"], faults=[]))
        info["nontrivial"] = False
        if r["end"] == "exit" and (r["code"] != 1 or b"--bogus" not in r["stderr"] or r["stdout"]):
            return [("unknown-flag", "an unknown flag gave exit code %s, %r %r" % (r["code"], r["stdout"], r["stderr"]))]
        return []
    try:
        out, err, code = model(case)
    except (scheme.Unsupported, IndexError) as e:
        info["discard"] = True
        return []
    text = case["sep"].join(text_of(x) for x in case["items"])
    if case["end"][0] != "eof":
        text += case["sep"] + case["end"][0]
    text += case["trail"] if case["end"][0] not in ("(1 2", '"abc') else ""
    sim = dict(case["cfg"], faults=case["faults"])
    if z in REPLS:
        sim["stdin"] = text
        if z == "load-repl":
            sim["files"] = {"/w/prog.min": "\n".join(text_of(x) for x in case["items2"])}
    else:
        sim["files"] = {"/w/prog.min": text}
    r = run.run(z, sim)
    v = []
    if r["end"] != "exit":
        return v
    got, gerr = r["stdout"], r["stderr"]
    out = out.encode("latin-1")
    info["nontrivial"] = len(case["items"]) >= 3
    info["count"] = {"exit_%d" % (code if code in (0, 1) else 2): 1}
    hard = [f for f in r["fired"] if f.split()[2] != "0"]
    if not hard:
        if r["code"] != code:
            v.append(("exit-code", "exit code %s, expected %s; stderr %r" % (r["code"], code, gerr[-300:])))
        if got != out:
            v.append(("output", "output differs:\n got %r\n ref %r" % diff(got, out)))
        if err is None:
            if not gerr:
                v.append(("silent-failure", "the session failed with code %s and no message" % r["code"]))
        elif gerr != err.encode("latin-1"):
            v.append(("stderr", "error text differs:\n got %r\n ref %r" % diff(gerr, err.encode("latin-1"))))
        return v
    info["count"]["faulted"] = 1
    wfault = any(f.startswith("write:stdout") for f in hard)
    rfault = [f for f in hard if not f.startswith("write")]
    if wfault and not rfault:
        # output was lost: the run must say so, unless it fails anyway
        if got != out and r["code"] == 0:
            v.append(("silent-loss", "output was lost (%d of %d bytes) and the exit code is 0" % (len(got), len(out))))
        if r["code"] not in (code, 1):
            v.append(("exit-code", "exit code %s, expected %s or 1" % (r["code"], code)))
        if r["code"] != 0 and not gerr and r["code"] != code:
            v.append(("silent-failure", "exit code %s without a message" % r["code"]))
    if rfault:
        # input failed: never a silent success
        if r["code"] == 0:
            v.append(("silent-input-failure", "input failed (%s) and the exit code is 0" % rfault))
        if not gerr:
            v.append(("silent-failure", "input failed and there is no message"))
        if not wfault and not out.startswith(got):
            v.append(("output", "output is not a prefix of the expected one:\n got %r\n ref %r" % diff(got, out)))
    return v


def simplify(case):
    import shrink
    for c in shrink.items(case, "items"):
        yield c

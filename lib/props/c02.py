"""C02: calls of any depth and with any number of arguments; tail calls in constant space."""
import engine
from props.c01 import diff

ID = "C02"
TITLE = "Calls nest to any depth and width; tail calls keep space constant"
LEVEL = "exploration"
QUICK, THOROUGH = 300, 60000
RULE = ("seeded families of procedures that call each other to a seeded depth in every position (operand, binding, value, apply, map, rest arguments, error handler, nested evaluation), with up to "
        "thousands of arguments, and loops of tail calls, under seeded stack segment sizes and collection schedules; expected results are computed by a frame machine; "
        "non-trivial: depth at least 50, or 100 iterations, or 20 arguments")
REAL, STUB = engine.REAL_CORE, engine.STUB_CORE
ASSUMPTIONS = ["space is measured as live bytes of the simulated heap after collections"]
M = 1000003
KINDS = ["op", "op", "op2", "let", "mv", "apply", "values", "map", "rest", "begin", "letrec", "handler", "if", "list", "case", "closure", "vec", "eval"]


# a procedure f_k has `na` arguments besides n, all integers
def arg_expr(rng, na):
    """an integer expression over n, a0.. and its python counterpart"""
    c = rng.randrange(-50, 51)
    j = rng.randrange(-1, na)
    k = rng.choice([1, 2, 3, -1])
    return [j, k, c]


def e_text(e):
    v = "n" if e[0] < 0 else "a%d" % e[0]
    return "(modulo (+ (* %d %s) %d) %d)" % (e[1], v, e[2], M)


def e_val(e, n, a):
    return (e[1] * (n if e[0] < 0 else a[e[0]]) + e[2]) % M


def family(rng, depth):
    nf = rng.choice([1, 1, 2, 3, 4])
    fs = []
    for k in range(nf):
        na = rng.choice([0, 1, 2, 3, 5, 9, 17, 40] if rng.random() < 0.8 else [60, 130])
        fs.append({"na": na})
    for f in fs:
        f["kind"] = rng.choice(KINDS)
        f["next"] = rng.randrange(nf)
        g = fs[f["next"]]
        f["args"] = [arg_expr(rng, f["na"]) for _ in range(g["na"])]
        f["pre"] = [arg_expr(rng, f["na"]) for _ in range(rng.choice([0, 1, 2, 6, 20]))]
        f["post"] = [arg_expr(rng, f["na"]) for _ in range(rng.choice([0, 0, 1, 3]))]
        f["base"] = arg_expr(rng, f["na"])
    return fs


def f_text(k, f, fs):
    g = fs[f["next"]]
    args = " ".join(["(- n 1)"] + [e_text(e) for e in f["args"]])
    call = "(f%d %s)" % (f["next"], args)
    pre = " ".join(e_text(e) for e in f["pre"])
    post = " ".join(e_text(e) for e in f["post"])
    x = e_text(f["base"])
    kd = f["kind"]
    if kd == "op":
        body = "(modulo (+ %s %s %s) %d)" % (pre, call, post, M)
    elif kd == "op2":
        body = "(modulo (- (+ 1 %s) %s) %d)" % (pre, call, M)
    elif kd == "let":
        body = "(let-values ([(p) %s] [(q) %s]) (modulo (+ p (* 2 q) %s) %d))" % (x, call, pre, M)
    elif kd == "mv":
        body = "(let-values ([(p q) (values %s %s)]) (modulo (+ p q q) %d))" % (x, call, M)
    elif kd == "apply":
        body = "(modulo (+ 1 (apply f%d %s)) %d)" % (f["next"], args.replace("(- n 1)", "(- n 1) (list", 1) + ")", M)
    elif kd == "values":
        body = "(modulo (+ 2 (call-with-values (lambda () (values %s)) f%d)) %d)" % (args, f["next"], M)
    elif kd == "map":
        body = "(modulo (+ 3 (car (map (lambda (q) (+ q %s)) '(5)))) %d)" % (call, M)
    elif kd == "rest":
        body = "(modulo (+ ((lambda (p . q) (apply + p q)) %s %s)) %d)" % (call, pre, M)
    elif kd == "begin":
        body = "(begin (set! acc (modulo (+ acc %s) %d)) (modulo (+ 4 (begin acc %s)) %d))" % (x, M, call, M)
    elif kd == "letrec":
        body = "(letrec-values ([(h) (lambda (z) (if (< z 1) %s (+ 1 (h (- z 1)))))]) (modulo (h 2) %d))" % (call, M)
    elif kd == "handler":
        body = "(modulo (+ (hcatch) %s %s) %d)" % (call, pre, M)
    elif kd == "if":
        body = "(if (> %s -1) (modulo (+ 6 %s) %d) 'no)" % (call, x, M)
    elif kd == "list":
        body = "(modulo (apply + (cons %s (list %s))) %d)" % (call, pre, M)
    elif kd == "case":
        body = "((case-lambda [(p) (modulo (+ p 7) %d)] [(p q . r) (modulo (apply - p q r) %d)]) %s %s)" % (M, M, call, pre)
    elif kd == "closure":
        body = "((lambda (k) (modulo (+ (k) 8) %d)) (lambda () %s))" % (M, call)
    elif kd == "vec":
        body = "(modulo (+ (vector-ref (vector %s %s) 0) 9) %d)" % (call, pre, M)
    elif kd == "eval":
        body = "(modulo (+ 10 (eval (list 'f%d %s))) %d)" % (f["next"], args, M)
    ids = " ".join(["n"] + ["a%d" % j for j in range(f["na"])])
    return "(define-values (f%d) (lambda (%s) (if (< n 1) %s %s)))" % (k, ids, x, body)


def f_model(fs, k, n, a, st):
    frames = []
    while True:
        f = fs[k]
        if n < 1:
            v = e_val(f["base"], n, a)
            break
        if f["kind"] == "begin":
            st["acc"] = (st["acc"] + e_val(f["base"], n, a)) % M
        na = [e_val(e, n, a) for e in f["args"]]
        frames.append((f, n, a))
        k, n, a = f["next"], n - 1, na
    for f, n, a in reversed(frames):
        pre = [e_val(e, n, a) for e in f["pre"]]
        post = [e_val(e, n, a) for e in f["post"]]
        x = e_val(f["base"], n, a)
        kd = f["kind"]
        if kd == "op":
            v = sum(pre) + v + sum(post)
        elif kd == "op2":
            v = 1 + sum(pre) - v
        elif kd == "let":
            v = x + 2 * v + sum(pre)
        elif kd == "mv":
            v = x + 2 * v
        elif kd == "apply":
            v += 1
        elif kd == "values":
            v += 2
        elif kd == "map":
            v += 3 + 5
        elif kd in ("rest", "list"):
            v += sum(pre)
        elif kd == "begin":
            v += 4
        elif kd == "letrec":
            v += 2
        elif kd == "handler":
            v += 11 + sum(pre)
        elif kd == "if":
            v = 6 + x
        elif kd == "case":
            v = v + 7 if not pre else v - sum(pre)
        elif kd == "closure":
            v += 8
        elif kd == "vec":
            v += 9
        elif kd == "eval":
            v += 10
        v %= M
    return v


TAILS = ["plain", "if", "begin", "let", "apply", "values", "mutual", "closure", "case", "mvlet", "rest", "evalish", "acc", "handler"]


def tail_text(t):
    k, n, w = t["kind"], t["n"], t["w"]
    ws = " ".join("w%d" % j for j in range(w))
    sh = " ".join(["(modulo (+ w%d 1) %d)" % (j, M) for j in range(w)])
    ini = " ".join(str(j) for j in range(w))
    ret = "(+ s %s)" % ws
    call = "(t (- n 1) (modulo (+ s n) %d) %s)" % (M, sh)
    body = {"plain": call, "if": "(if (> n 3) %s (if #t %s 0))" % (call, call), "begin": "(begin 1 (void) %s)" % call, "let": "(let-values ([(z) 1] [(y) 2]) %s)" % call,
            "apply": "(apply t (- n 1) (list (modulo (+ s n) %d) %s))" % (M, sh), "values": "(call-with-values (lambda () (values (- n 1) (modulo (+ s n) %d) %s)) t)" % (M, sh),
            "mutual": call.replace("(t ", "(u ", 1), "closure": "((lambda () %s))" % call, "case": "((case-lambda [(q) q] [() %s]))" % call,
            "mvlet": "(let-values ([(p q) (values (- n 1) (modulo (+ s n) %d))]) (t p q %s))" % (M, sh), "rest": "((lambda r (apply t r)) (- n 1) (modulo (+ s n) %d) %s)" % (M, sh),
            "evalish": "(if (= (modulo n 200) 0) (eval (list 't (- n 1) (modulo (+ s n) %d) %s)) %s)" % (M, sh, call),
            "acc": "(begin (set! acc (+ acc 1)) %s)" % call, "handler": "(begin (hcatch) %s)" % call}[k]
    ts = "(define-values (t) (lambda (n s %s) (if (< n 1) %s %s)))\n" % (ws, ret, body)
    if k == "mutual":
        ts += "(define-values (u) (lambda (n s %s) (if (< n 1) %s %s)))\n" % (ws, ret, call)
    return ts + "(begin (write (t %d 0 %s)) (newline))" % (n, ini)


def tail_model(t):
    n, w = t["n"], t["w"]
    s = 0
    for i in range(n, 0, -1):
        s = (s + i) % M
    return s + sum((j + n) % M for j in range(w))


WIDE = ["list", "rest", "values", "apply+", "nested", "map2", "vector", "arity", "cons", "lead", "deepdata", "bigcall"]


def wide_case(t):
    """-> text, expected output"""
    k, n, x = t["kind"], t["n"], t["x"]
    it = "(iota %d)" % n
    s = n * (n - 1) // 2
    if k == "list":
        return "(write (length (apply list %s)))" % it, str(n)
    if k == "rest":
        return "(write ((lambda (a b . r) (list a b (length r) (apply + r))) %d %d . %s))" % (x, x + 1, "()") if False else \
               "(write (apply (lambda (a b . r) (list a b (length r) (apply + r))) %d %d %s))" % (x, x + 1, it), "(%d %d %d %d)" % (x, x + 1, n, s)
    if k == "values":
        return "(write (call-with-values (lambda () (apply values %s)) (lambda r (list (length r) (apply + r)))))" % it, "(%d %d)" % (n, s)
    if k == "apply+":
        return "(write (apply + 1 2 3 %s))" % it, str(s + 6)
    if k == "nested":
        return "(write (apply + (apply list (apply list %s))))" % it, str(s)
    if k == "map2":
        return "(write (apply + (map (lambda (p q) (- p q)) %s (map add1 %s))))" % (it, it), str(-n)
    if k == "vector":
        return "(write (vector-length (apply vector %s)))" % it, str(n)
    if k == "arity":
        m = x % 12 + 1
        return ("(let-values ([(f) (lambda (%s) 'got)]) (begin (write (hguard (lambda () (apply f %s)))) (write (apply f (iota %d)))))" % (" ".join("b%d" % j for j in range(m)), it, m),
                ("got" if n == m else "caught") + "got")
    if k == "cons":
        return "(write (letrec-values ([(b) (lambda (n) (if (< n 1) '() (cons n (b (- n 1)))))]) (apply + (b %d))))" % n, str(n * (n + 1) // 2)
    if k == "lead":
        return "(write (apply (lambda (%s) (+ p0 p%d)) %s))" % (" ".join("p%d" % j for j in range(t["m"])), t["m"] - 1, " ".join(str(j * x) for j in range(t["m"] - t["m"] // 2)) + " '(" + " ".join(str(j * x) for j in range(t["m"] - t["m"] // 2, t["m"])) + ")"), str((t["m"] - 1) * x)
    if k == "deepdata":
        return "(write (letrec-values ([(mk) (lambda (n a) (if (< n 1) a (mk (- n 1) (list a))))] [(dp) (lambda (a n) (if (null? a) n (dp (car a) (+ n 1))))]) (dp (mk %d '()) 0)))" % n, str(n)
    if k == "bigcall":
        m = t["m"]
        return "(write ((lambda (%s) (- q%d q0)) %s))" % (" ".join("q%d" % j for j in range(m)), m - 1, " ".join("(+ %d %d)" % (j, x) for j in range(m))), str(m - 1)


def gen(rng, tier, i):
    c = {"parts": []}
    work = 0
    deep = 0
    for _ in range(rng.choice([1, 2, 3])):
        r = rng.random()
        if r < 0.55:
            d = rng.choice([3, 60, 200, 200, 600, 2000] if tier == "quick" else [3, 60, 200, 600, 2000, 8000, 30000])
            fs = family(rng, d)
            wide = max(f["na"] + len(f["pre"]) for f in fs)
            d = min(d, 20000 // (wide + 3) + 5)
            for f in fs:
                if f["kind"] == "eval" and d > 40:
                    f["kind"] = "op"
            c["parts"].append(["deep", fs, rng.randrange(len(fs)), d, rng.choice([1, 1, 2, 3])])
            deep = max(deep, d)
        elif r < 0.8:
            t = {"kind": rng.choice(TAILS), "n": rng.choice([100, 1500, 1500, 4000]), "w": rng.choice([0, 1, 4, 20])}
            t["n"] = min(t["n"], 12000 // (t["w"] + 4))
            c["parts"].append(["tail", t])
        else:
            t = {"kind": rng.choice(WIDE), "n": rng.choice([0, 1, 2, 5, 6, 7, 8, 20, 100, 500, 1500, 3000, 9000]), "x": rng.randrange(1, 100), "m": rng.choice([1, 2, 7, 8, 9, 30, 120]),
                 "at": rng.choice([0, 0, rng.randrange(3000), rng.randrange(3000)])}
            c["parts"].append(["wide", t])
    c["cfg"] = engine.rand_cfg(rng, allocs=60000, heavy=0.03)
    c["cfg"]["stack"] = rng.choice([None, 700, 1500, 4000, 4096, 10000, 30000, 65536])
    if all(p[0] == "tail" for p in c["parts"]) or rng.random() < 0.1:
        c["cfg"]["gc"] = "every %d" % rng.choice([400, 900])
    if c["cfg"]["stack"] is None:
        del c["cfg"]["stack"]
    return c


HEAD = """(define-values (acc) 0)
(define-values (ERR) #f)
(current-error-handler (lambda args 'caught))
(define-values (hguard) (lambda (th) (th)))
(define-values (fail5) (lambda () (car 5)))
(define-values (wd) (lambda (n th) (if (= n 0) (th) (let-values ([(r) (wd (- n 1) th)]) r))))
(define-values (hcatch) (lambda () (begin (fail5) 11)))
"""


def judge(case, run, info):
    out, exp = [HEAD], []
    st = {"acc": 0}
    n50 = 0
    tails = True
    for p in case["parts"]:
        if p[0] == "deep":
            _, fs, k, d, times = p
            tails = False
            for j, f in enumerate(fs):
                out.append(f_text(j, f, fs))
            for t in range(times):
                a = [(7 * j + t) % 100 for j in range(fs[k]["na"])]
                out.append("(begin (write (f%d %s)) (newline))" % (k, " ".join(map(str, [d + t] + a))))
                exp.append(str(f_model(fs, k, d + t, a, st)))
            n50 = max(n50, d >= 50)
        elif p[0] == "tail":
            out.append(tail_text(p[1]))
            exp.append(str(tail_model(p[1])))
            if p[1]["kind"] == "acc":
                st["acc"] += p[1]["n"]
            n50 = max(n50, p[1]["n"] >= 100)
        else:
            tails = False
            t, e = wide_case(p[1])
            if p[1].get("at"):
                t = "(wd %d (lambda () %s))" % (p[1]["at"], t)
            out.append("(begin %s (newline))" % t)
            exp.append(e)
            n50 = max(n50, p[1]["n"] >= 20)
    info["nontrivial"] = bool(n50)
    r = run.run("nolib", dict(case["cfg"], files={"/w/prog.min": "\n".join(out) + "\n"}))
    if r["end"] != "exit":
        return []
    v = []
    want = ("\n".join(exp) + "\n").encode()
    if r["code"] != 0:
        v.append(("exit-code", "exit code %s, stderr %r" % (r["code"], r["stderr"][:300])))
    elif r["stdout"] != want:
        v.append(("result", "results differ:\n got %r\n ref %r" % diff(r["stdout"], want)))
    elif tails and str(case["cfg"].get("gc", "")).startswith("every") and not r.get("gc_budget_out"):
        lim = 600000 + 8 * case["cfg"].get("stack", 65536)
        info["max"] = {"tail_live_bytes": r["max_live_bytes"]}
        if r["max_live_bytes"] > lim:
            v.append(("space", "a loop of tail calls holds %d live bytes" % r["max_live_bytes"]))
    return v


def simplify(case):
    import copy
    for k in range(len(case["parts"])):
        if len(case["parts"]) > 1:
            c = copy.deepcopy(case)
            del c["parts"][k]
            yield c
        p = case["parts"][k]
        if p[0] == "deep":
            for d in (p[3] // 2, p[3] - 1):
                if d > 0:
                    c = copy.deepcopy(case)
                    c["parts"][k][3] = d
                    yield c
            if p[4] > 1:
                c = copy.deepcopy(case)
                c["parts"][k][4] = 1
                yield c
            for j, f in enumerate(p[1]):
                for key in ("pre", "post"):
                    if f[key]:
                        c = copy.deepcopy(case)
                        c["parts"][k][1][j][key] = f[key][: len(f[key]) // 2]
                        yield c
                if f["kind"] != "op":
                    c = copy.deepcopy(case)
                    c["parts"][k][1][j]["kind"] = "op"
                    yield c
        elif p[1]["n"] > 1:
            c = copy.deepcopy(case)
            c["parts"][k][1]["n"] = p[1]["n"] // 2
            yield c

"""C03: storage that can no longer be reached is reclaimed: long runs stay in bounded memory."""
import engine
from script import parse_log

ID = "C03"
TITLE = "Long-running programs stay in bounded memory and use bounded resources"
LEVEL = "exploration"
QUICK, THOROUGH = 160, 20000
RULE = ("seeded loops over steps that make and drop every kind of object (data, closures, deep recursion, strings and ports, files, tables that grow and shrink, records, environments, evaluated and loaded code, serialised data, failing operations with a returning handler), "
        "keeping only a bounded set reachable; the reachable storage found by collections at seeded points must not grow from phase to phase, dropped files must be closed by their finalizers, and the kept data must be intact; non-trivial: at least 4 kinds of steps")
REAL, STUB = engine.REAL_CORE, engine.STUB_CORE
ASSUMPTIONS = ["the collector finds what is reachable from the registers' saved copy, the stack, static data and registered roots", "interned symbols are kept for ever"]
LISTS = ("steps",)

PRE = r"""
(define-values (ERR) #f)
(define-values (try) (lambda (thunk) (thunk)))
(define-values (LAST) #f)
(define-values (RING) (make-vector 8 0))
(define-values (H) (make-hashtable))
(define-values (HE) (make-eq-hashtable))
(define-values (E0) (copy-environment (current-environment) #t '(car cdr cons list + - = vector lambda1 map)))
(define-values (RT) (make-record-type-descriptor 'rt #f #f #f #f #((mutable a) (immutable b))))
(define-values (RS) (make-record-type-descriptor 'rs RT #f #f #f #((mutable c))))
(define-values (mkrs) (record-constructor RS))
(define-values (rs-c!) (record-mutator RS 0))
(define-values (rt-a) (record-accessor RT 0))
(define-values (B) (box '()))
(define-values (keep) (lambda (i x) (vector-set! RING (remainder i 8) x)))
(define-values (nest) (lambda (n x) (if (= n 0) x (nest (- n 1) (list n x)))))
(define-values (deep) (lambda (n th) (if (= n 0) (th) (+ 1 (deep (- n 1) th)))))
(define-values (adders) (lambda (n f) (if (= n 0) f (adders (- n 1) (lambda (x) (+ n (f x)))))))
(define-values (fill) (lambda (t a b) (if (< a b) (begin (hashtable-set! t a (list a)) (fill t (+ a 1) b)) (void))))
(define-values (unfill) (lambda (t a b) (if (< a b) (begin (hashtable-delete! t a) (unfill t (+ a 1) b)) (void))))
(define-values (wr) (lambda (x) (let-values ([(p) (open-output-string)]) (begin (write x p) (get-output-string p)))))
(define-values (mark) (lambda (k) (begin (put-string (current-output-port) "m") (flush-output-port (current-output-port)))))
(define-values (even) (lambda (n) (if (= n 0) #t (odd (- n 1)))))
(define-values (odd) (lambda (n) (if (= n 0) #f (even (- n 1)))))
(define-values (CTR) (let-values ([(n) 0]) (lambda () (begin (set! n (+ n 1)) n))))
"""
# kind -> code over i (step number) and a, b (parameters)
KINDS = {
    "list": "(keep i (iota %(a)d))",
    "nest": "(keep i (nest %(a)d 'x))",
    "vector": "(keep i (make-vector %(a)d (list i)))",
    "string": "(keep i (string-append (number->string i) (make-string %(a)d #\\a)))",
    "closure": "(keep i ((adders %(b)d (lambda (x) x)) i))",
    "closures": "(keep i (adders %(b)d (lambda (x) (vector x i))))",
    "deep": "(keep i (deep %(a)d (lambda () i)))",
    "tail": "(keep i (even %(a)d))",
    "sport": "(let-values ([(p) (open-output-string)]) (begin (write (list i \"x\" (make-string %(b)d #\\b)) p) (keep i (get-output-string p)) (close-output-port p)))",
    "sport-drop": "(let-values ([(p) (open-output-string)]) (begin (write (iota %(b)d) p) (keep i (get-output-string p))))",
    "iport": "(let-values ([(p) (open-input-string \"(a b) (c \\\"d\\\" #\\\\e) 12\")]) (begin (read p) (keep i (list (read p) (read p))) (close-input-port p)))",
    "iport-drop": "(keep i (syntax->datum (read (open-input-string \"(a b #(c) #&d)\"))))",
    "file-w": "(let-values ([(p) (open-output-file \"/w/f\")]) (begin (write (iota %(b)d) p) (close-output-port p)))",
    "file-r": "(let-values ([(p) (open-input-file \"/w/data\")]) (begin (keep i (read p)) (read-char p) (close-input-port p)))",
    "file-drop": "(keep i (read-char (open-input-file \"/w/data\")))",
    "hash": "(begin (fill H i (+ i %(b)d)) (unfill H i (+ i %(b)d)))",
    "hash-ring": "(begin (hashtable-set! HE (remainder i 16) (list i)) (hashtable-update! HE 'k (lambda (x) i) 0))",
    "hash-new": "(let-values ([(t) (make-hashtable)]) (begin (fill t 0 %(b)d) (keep i (hashtable-copy t))))",
    "hash-str": "(begin (hashtable-set! H (number->string (remainder i 7)) (vector i)) (if (= 0 (remainder i 5)) (hashtable-clear! H) (void)))",
    "record": "(let-values ([(r) (mkrs i (list i) 0)]) (begin (rs-c! r (list r)) (keep i (rt-a r)) (keep (+ i 1) r)))",
    "rtd": "(let-values ([(t) (make-record-type-descriptor 'tmp RS #f #f #f #((mutable z)))]) (keep i ((record-constructor t) 1 2 3 (list i))))",
    "env": "(let-values ([(e) (copy-environment E0)]) (begin (environment-set! e 'zz (list i e)) (keep i e)))",
    "env-set": "(environment-set! E0 'zz (list i))",
    "env-new": "(let-values ([(e) (make-empty-environment)]) (begin (environment-set! e 'x i) (keep i (eval 'x e))))",
    "eval": "(keep i (eval (list 'let-values (list (list '(x) i)) '(list x (lambda (y) (cons x y))))))",
    "eval-env": "(keep i (eval '(map (lambda (x) (vector x)) '(1 2 3)) E0))",
    "eval-define": "(begin (eval (list 'define-values '(g) (list 'quote (iota %(b)d)))) (keep i i))",
    "load": "(begin (load \"/w/lib.min\") (keep i (libf i)))",
    "fasl": "(let-values ([(p) (open-output-file \"/w/g\")]) (begin (fasl-write (list i \"s\" #(1 2)) p) (close-output-port p) (let-values ([(q) (open-input-file \"/w/g\")]) (begin (keep i (fasl-read q)) (close-input-port q)))))",
    "error": "(begin (try (lambda () (deep %(a)d (lambda () (begin (car i) 0))))) (keep i ERR))",
    "error-c": "(begin (try (lambda () (deep 9 (lambda () (try (lambda () (undefined-name i))))))) (keep i 1))",
    "error-arity": "(begin (try (lambda () ((lambda (x) x) i i))) (keep i 1))",
    "values": "(let-values ([(x y . z) (values i (list i) 3 4 5)]) (keep i (list x y z)))",
    "cwv": "(call-with-values (lambda () (apply values (iota %(b)d))) (lambda xs (keep i xs)))",
    "apply": "(keep i (apply list i (iota %(a)d)))",
    "map": "(keep i (map (lambda (x y) (cons x y)) (iota %(b)d) (iota %(b)d)))",
    "box": "(set-box! B (list i))",
    "setcdr": "(let-values ([(c) (list i 1 2)]) (begin (set-cdr! (cdr (cdr c)) c) (keep i c)))",
    "queue": "(begin (set-box! B (list i (if (= 0 (remainder i 10)) '() (unbox B)))))",
    "set": "(begin (set! LAST (list LAST i)) (if (= 0 (remainder i 10)) (set! LAST #f) (void)))",
    "symbol": "(keep i (list (string->symbol (string-append \"s\" (number->string (remainder i 10)))) (symbol->string 'abc)))",
    "syntax": "(keep i (syntax->list (datum->syntax (list i 'a \"b\"))))",
    "counter": "(keep i (+ (CTR) 0))",
    "write": "(begin (wr (vector i (box 'a) \"q\\n\" #\\a RT)) (keep i 0))",
    "format": "(keep i (format \"~a ~s\" i (list i \"x\")))",
    "equal": "(keep i (list (equal? (iota %(b)d) (iota %(b)d)) (equal-hash (list i \"a\"))))",
    "rename": "(keep i (procedure-rename (lambda (x) i) 'nm))",
    "case-lambda": "(keep i ((case-lambda [(x) (lambda () x)] [(x y) y]) (list i)))",
    "letrec": "(keep i (letrec-values ([(ev) (lambda (n) (if (= n 0) (list i) (od (- n 1))))] [(od) (lambda (n) (if (= n 0) ev (ev (- n 1))))]) (ev %(b)d)))",
    "environment-symbols": "(keep i (length (environment-symbols E0)))",
    "directory": "(keep i (string-length (current-directory)))",
    "vec->list": "(keep i (list->vector (reverse (vector->list (make-vector %(a)d i)))))",
}
DROPS = ("file-drop", "sport-drop", "iport-drop", "format", "write")      # these drop ports without closing them
HEAVY = {"load": 4, "env": 3, "eval": 2, "eval-env": 2, "eval-define": 2, "fasl": 1, "file-drop": 1}


def gen(rng, tier, i):
    n = rng.choice([1, 2, 4, 6, 9])
    steps = []
    for k in rng.sample(sorted(KINDS), n):
        steps.append([k, rng.choice([0, 1, 3, 10, 40, 100]), rng.choice([1, 2, 5, 15])])
    per = rng.choice([60, 120, 200])
    cfg = {"seed": rng.randrange(1, 1 << 31), "gcw": rng.choice([3, 7, 12]), "place": rng.choice(["random", "bump"]), "reuse": rng.choice(["lifo", "random"]), "stack": rng.choice([None, 1024, 4096])}
    return {"steps": steps, "per": per, "phases": 5, "cfg": cfg, "top": rng.random() < 0.3}


def program(case):
    body = [PRE]
    body.append("(current-error-handler (lambda (e) (begin (set! ERR e) 0)))")
    code = "\n".join(KINDS[k] % {"a": a, "b": b} for k, a, b in case["steps"]) or "0"
    body.append("(define-values (step) (lambda (i) (begin\n%s)))" % code)
    per = case["per"]
    if case["top"]:         # the loop is in the text: every step is its own top-level form
        n = 0
        for ph in range(case["phases"]):
            for _ in range(per):
                body.append("(step %d)" % n)
                n += 1
            body.append("(mark %d)" % ph)
    else:
        body.append("(define-values (loop) (lambda (i n) (if (= i n) 'done (begin (step i) (loop (+ i 1) n)))))")
        for ph in range(case["phases"]):
            body.append("(loop %d %d)" % (ph * per, (ph + 1) * per))
            body.append("(mark %d)" % ph)
    body.append('(put-string (current-error-port) "\\n1 V ok\\n")')
    return "\n".join(body)


def judge(case, run, info):
    kinds = [k for k, _, _ in case["steps"]]
    if len(set(kinds)) >= 4 or any(k in HEAVY for k in kinds):
        info["nontrivial"] = True
    files = {"/w/prog.min": program(case), "/w/data": "(some data 1 2 3)\n(more)\n", "/w/lib.min": "(define-values (libf) (lambda (x) (list x 'lib)))\n(define-values (libg) (vector 1 2 3))\n"}
    cfg = {k: v for k, v in case["cfg"].items() if v is not None and k != "gcw"}
    per = case["per"]
    # how much a phase allocates: a first run without collections
    r0 = run.run("nolib", dict(cfg, files=files, stdin="", gc="none"))
    v = []
    if r0["end"] != "exit" or r0["code"] != 0:
        return [("stopped", "%r %r %s" % (r0["end"], r0["code"], r0["stderr"][-300:]))]
    total = r0["n"].get("alloc", 0) or r0["events"]
    every = max(1, total // (case["phases"] * case["cfg"]["gcw"] * 3))
    r = run.run("nolib", dict(cfg, files=files, stdin="", gc="every %d" % every))
    if r["stdout"] != r0["stdout"] or r["stderr"] != r0["stderr"]:
        v.append(("result", "collections changed the result: %r %r, without %r %r" % (r["stdout"][-100:], r["stderr"][-200:], r0["stdout"][-100:], r0["stderr"][-200:])))
        return v
    low = [None] * case["phases"]
    base = 0
    log = r["gclog"]
    if len(log) < case["phases"] * 3:
        return v
    info.setdefault("phases", 0)
    first = log[0][2]
    for allocs, live, out in log:
        ph = out
        if ph < case["phases"]:
            low[ph] = live if low[ph] is None else min(low[ph], live)
    if low[1] is None or low[-1] is None:
        return v
    growth = low[-1] - low[1]
    n = per * (case["phases"] - 2)
    limit = 6000 + 4 * n
    if growth > limit:
        v.append(("leak", "reachable storage grew by %d bytes over %d steps (%.1f per step): %s per phase %s" % (growth, n, growth / n, case["steps"], low)))
    nd = sum(k in DROPS for k in kinds)
    bound = 12 + nd * (4 * per // max(1, case["cfg"]["gcw"]) + 30)
    if r["max_open"] > bound and len(log) >= 12:
        v.append(("files", "%d files open at once, dropped ports are not closed (bound %d, %d opened, steps %s)" % (r["max_open"], bound, r["opened_total"], case["steps"])))
    return v


def simplify(case):
    if case["top"]:
        yield dict(case, top=False)
    for i, (k, a, b) in enumerate(case["steps"]):
        if a > 3:
            yield dict(case, steps=case["steps"][:i] + [[k, a // 3, b]] + case["steps"][i + 1:])

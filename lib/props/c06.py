"""C06: symbols are interned by spelling; names are stable."""
import engine
from script import HEAD, op, parse_log, lit

ID = "C06"
TITLE = "A symbol is one object per spelling, for ever, and its name never changes"
LEVEL = "exploration"
QUICK, THOROUGH = 400, 40000
RULE = ("seeded histories that make symbols of seeded spellings by every route (literals, conversion, reading, loading, serialised data, definitions), in bulk across growths of the intern table, "
        "keep some and drop others across collections, mutate the strings they came from, and compare identities; expected identities follow spellings; non-trivial: at least 3 routes")
REAL, STUB = engine.REAL_CORE, engine.STUB_CORE
ASSUMPTIONS = ["spellings have no NUL characters"]
LISTS = ("ops",)
NV = 8
PRE = r"""
(define-values (S) (make-vector 8 #f))
(define-values (BIG) '())
(define-values (nm) (lambda (p i) (number->string (+ p i))))
(define-values (mk-bulk) (lambda (p a b acc) (if (< a b) (mk-bulk p (+ a 1) b (cons (string->symbol (nm p a)) acc)) acc)))
(define-values (check-bulk) (lambda (p b l ok) (if (null? l) ok (check-bulk p (- b 1) (cdr l) (if (if (eq? (car l) (string->symbol (nm p (- b 1)))) (string=? (symbol->string (car l)) (nm p (- b 1))) #f) (+ ok 1) ok)))))
(define-values (string=?) (lambda (a b) (equal? a b)))
(define-values (churn) (lambda (p a b) (if (< a b) (begin (string->symbol (nm p a)) (churn p (+ a 1) b)) 'ok)))
(define-values (def-bulk) (lambda (p a b v) (if (< a b) (begin (eval (list 'define-values (list (string->symbol (nm p a))) (+ v a))) (def-bulk p (+ a 1) b v)) 'ok)))
(define-values (sum-bulk) (lambda (p a b acc) (if (< a b) (sum-bulk p (+ a 1) b (+ acc (eval (string->symbol (nm p a))))) acc)))
(define-values (set-bulk) (lambda (p a b v) (if (< a b) (begin (eval (list 'set! (string->symbol (nm p a)) (+ v a))) (set-bulk p (+ a 1) b v)) 'ok)))
(define-values (rd) (lambda (s) (let-values ([(p) (open-input-string s)]) (let-values ([(v) (let-values ([(d) (read p)]) (if (syntax? d) (syntax->datum d) d))]) (begin (close-input-port p) v)))))
(define-values (fasl-rt) (lambda (x) (let-values ([(p) (open-output-file "/w/f.fasl")]) (begin (fasl-write x p) (close-output-port p) (let-values ([(q) (open-input-file "/w/f.fasl")]) (let-values ([(v) (fasl-read q)]) (begin (close-input-port q) v)))))))
(define-values (ht) (make-eq-hashtable))
"""


def spell(rng, plain):
    r = rng.random()
    if r < 0.5 or plain:
        return rng.choice(["a", "b", "ab", "ba", "aB", "Ab", "car", "lambda", "x1", "list->string", "!", "s1", "s10", "Zq", "...", "-", "+", "a-b", "set!", "define-values", "#%apply", "l" * 40])
    if r < 0.7:
        return "".join(rng.choice("abcxyz") for _ in range(rng.choice([1, 2, 3, 200, 1000])))
    if r < 0.85:
        # spellings that collide under a multiplicative hash of base 33
        return rng.choice(["bA", "ab"]) + rng.choice(["ab", "bA"]) + rng.choice(["Bb", "CA", "x"])
    return rng.choice(["", " ", "a b", "(x)", "\x80\xff", "A\tB", '"q"', "1", "a;b", "\\x", "#t", "'q"])


PLAIN_OK = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!->.#%+")


def plain(w):
    return w and all(c in PLAIN_OK for c in w) and w not in ("1", "-", "+", "...", ".") and not w[0].isdigit() and w[0] not in "#.+-"


def gen(rng, tier, i):
    pool = list({spell(rng, k < 4) for k in range(rng.choice([4, 7, 12]))})
    if rng.random() < 0.5:
        # several of one length and hash, differing early or late
        a, z = ("".join(rng.choice("qrstuv") for _ in range(rng.choice([0, 1, 7, 15, 31, 63, 64, 127, 255, 256, 1000, 1900]))) for _ in range(2))
        pool += [w for w in ("k" + a + "".join(rng.choice(["ab", "bA"]) for _ in range(2)) + (z if rng.random() < 0.8 else "") for _ in range(4)) if w not in pool]
        pool = list(dict.fromkeys(pool))
    pool.sort()
    rng.shuffle(pool)
    ops = []
    bulks = []
    for _ in range(rng.choice([6, 15, 30])):
        r = rng.random()
        v = rng.randrange(NV)
        w = rng.randrange(len(pool))
        if r < 0.4:
            ops.append([rng.choice(["conv", "conv", "lit", "read", "load", "fasl", "eval", "mut", "rename", "append"]), v, w])
        elif r < 0.6:
            ops.append([rng.choice(["eq", "eq", "name", "name", "mutname", "table"]), v, rng.randrange(NV)])
        elif r < 0.68:
            ops.append(["drop", v])
        elif r < 0.8:
            n = rng.choice([20, 60, 250]) if tier == "quick" or rng.random() < 0.7 else rng.choice([3000, 9000])
            a = rng.choice([0, 500])
            ops.append([rng.choice(["bulk", "bulk", "churn"]), rng.choice([5000000, 77000000, 3000000]), a, a + n])
        elif r < 0.9:
            ops.append(["check"])
        else:
            a = rng.choice([0, 60])
            ops.append([rng.choice(["def", "def", "sum", "setg"]), rng.choice([1000000, 2000000]), a, a + rng.choice([10, 60, 120]), rng.randrange(100)])
    big = rng.random() < (0.4 if tier == "thorough" else 0.08)
    if big:
        # cross the growth of the intern table
        ops.insert(rng.randrange(len(ops)), ["bulk", 10000000, 0, 6400])
        ops.append(["check"])
    work = sum(o[3] - o[2] for o in ops if len(o) > 3)
    cfg = engine.rand_cfg(rng, 100000, heavy=0.0)
    if work > 600:
        cfg["gc"] = rng.choice(["none", "every 20000", "every 5000", "bytes 1000000"])
    return {"pool": pool, "ops": ops, "cfg": cfg}


def build(case):
    P = case["pool"]
    L = [HEAD, PRE]
    files = {}
    S = [None] * NV
    bulk = []
    glob = {}
    exp = []
    routes = set()

    def out(i, t, want, ret=None):
        L.append(op(i, t, ret))
        exp.append((i, want))

    def wr(w):
        return w

    for i, o in enumerate(case["ops"]):
        k = o[0]
        if k in ("conv", "lit", "read", "load", "fasl", "eval", "mut", "rename", "append"):
            v, w = o[1], P[o[2]]
            if k in ("lit", "read", "load", "eval") and not plain(w):
                k = "conv"
            if k == "conv":
                t = "(string->symbol %s)" % lit(w)
            elif k == "lit":
                t = "'" + w
            elif k == "read":
                t = "(rd %s)" % lit(" %s " % w)
            elif k == "eval":
                t = "(eval ''%s)" % w
            elif k == "load":
                f = "/w/l%d.min" % i
                files[f] = "'%s\n" % w
                t = '(load "%s")' % f
            elif k == "fasl":
                t = "(car (fasl-rt (list (string->symbol %s) 1)))" % lit(w)
            elif k == "append":
                t = "(string->symbol (string-append %s %s))" % (lit(w[: len(w) // 2]), lit(w[len(w) // 2:]))
            elif k == "mut":
                # the string it came from changes afterwards
                t = "(let-values ([(q) (list->string (string->list %s))]) (let-values ([(y) (string->symbol q)]) (begin (if (> (string-length q) 0) (string-set! q 0 #\\Q) (void)) y)))" % lit(w)
            elif k == "rename":
                t = "(let-values ([(y) (string->symbol %s)]) (begin (procedure-rename (lambda () 1) y) y))" % lit(w)
            S[v] = w
            routes.add(k)
            out(i, "(begin (vector-set! S %d %s) (symbol? (vector-ref S %d)))" % (v, t, v), "#t")
        elif k == "eq":
            a, b = S[o[1]], S[o[2]]
            t = "(list (eq? (vector-ref S %d) (vector-ref S %d)) (equal? (vector-ref S %d) (vector-ref S %d)))" % (o[1], o[2], o[1], o[2])
            e = "#t" if a == b else "#f"
            out(i, t, "(%s %s)" % (e, e))
        elif k == "name":
            if S[o[1]] is not None:
                out(i, "(equal? (symbol->string (vector-ref S %d)) %s)" % (o[1], lit(S[o[1]])), "#t")
        elif k == "mutname":
            if S[o[1]]:
                out(i, "(begin (string-set! (symbol->string (vector-ref S %d)) 0 #\\Q) (equal? (symbol->string (vector-ref S %d)) %s))" % (o[1], o[1], lit(S[o[1]])), "#t")
        elif k == "table":
            if S[o[1]] is not None and S[o[2]] is not None:
                a, b = S[o[1]], S[o[2]]
                out(i, "(begin (hashtable-clear! ht) (hashtable-set! ht (vector-ref S %d) 1) (hashtable-ref ht (vector-ref S %d) 0))" % (o[1], o[2]), "1" if a == b else "0")
        elif k == "drop":
            S[o[1]] = None
            out(i, "(begin (vector-set! S %d #f) 'ok)" % o[1], "ok")
        elif k == "bulk":
            bulk.append(o[1:])
            out(i, "(begin (set! BIG (cons (mk-bulk %d %d %d '()) BIG)) 'ok)" % (o[1], o[2], o[3]), "ok")
        elif k == "churn":
            out(i, "(churn %d %d %d)" % (o[1], o[2], o[3]), "ok")
        elif k == "check":
            t = " ".join("(check-bulk %d %d (car %s) 0)" % (p, b, "(cdr " * j + "BIG" + ")" * j) for j, (p, a, b) in enumerate(reversed(bulk)))
            out(i, "(list %s)" % t, "(%s)" % " ".join(str(b - a) for p, a, b in reversed(bulk)))
        elif k == "def":
            for x in range(o[2], o[3]):
                glob[(o[1], x)] = o[4] + x
            out(i, "(def-bulk %d %d %d %d)" % (o[1], o[2], o[3], o[4]), "ok")
        elif k in ("setg", "sum"):
            ks = [x for x in range(o[2], o[3]) if (o[1], x) in glob]
            if len(ks) != o[3] - o[2]:
                continue
            if k == "setg":
                for x in ks:
                    glob[(o[1], x)] = o[4] + x
                out(i, "(set-bulk %d %d %d %d)" % (o[1], o[2], o[3], o[4]), "ok")
            else:
                out(i, "(sum-bulk %d %d %d 0)" % (o[1], o[2], o[3]), str(sum(glob[(o[1], x)] for x in ks)))
    n0 = 100000
    for v in range(NV):
        if S[v] is not None:
            w = lit(S[v])
            out(n0 + v, "(let-values ([(y) (vector-ref S %d)]) (list (eq? y (string->symbol %s)) (equal? (symbol->string y) %s)))" % (v, w, w), "(#t #t)")
    if bulk:
        t = " ".join("(check-bulk %d %d (car %s) 0)" % (p, b, "(cdr " * j + "BIG" + ")" * j) for j, (p, a, b) in enumerate(reversed(bulk)))
        out(n0 + 50, "(list %s)" % t, "(%s)" % " ".join(str(b - a) for p, a, b in reversed(bulk)))
    g = sorted(glob)
    for p in sorted({p for p, _ in g}):
        xs = [x for q, x in g if q == p]
        runs = []
        for x in xs:
            if runs and runs[-1][1] == x:
                runs[-1][1] = x + 1
            else:
                runs.append([x, x + 1])
        for j, (a, b) in enumerate(runs):
            out(n0 + 60 + len(exp), "(sum-bulk %d %d %d 0)" % (p, a, b), str(sum(glob[(p, x)] for x in range(a, b))))
    return "\n".join(L) + "\n", exp, files, routes


def judge(case, run, info):
    text, exp, files, routes = build(case)
    info["nontrivial"] = len(routes) >= 3
    r = run.run("nolib", dict(case["cfg"], files=dict(files, **{"/w/prog.min": text}), limit=100000000))
    if r["end"] != "exit":
        return []
    done, rest = parse_log(r["stderr"])
    for i, want in exp:
        res = done.get(i)
        what = case["ops"][i] if i < len(case["ops"]) else "final state"
        if res is None:
            return [("not-run", "operation %d %r never reported (code %s, stderr tail %r)" % (i, what, r["code"], r["stderr"][-300:]))]
        if res != ("V", want):
            return [("value", "operation %d %r gave %r, expected %r" % (i, what, res, want))]
    if rest.strip() or r["code"] != 0:
        return [("messages", "unexpected messages %r, exit code %s" % (rest[:400], r["code"]))]
    return []

"""C15: environments are isolated from each other, and evaluation in one leaves the current one alone."""
import engine
from script import HEAD, op, parse_log

ID = "C15"
TITLE = "Environments are isolated; evaluating in one leaves the current one in place"
LEVEL = "exploration"
QUICK, THOROUGH = 550, 100000
RULE = ("seeded histories over up to seven environments (base, empty, copies of any, restricted copies): definitions, assignments, direct reads and writes, closures made in one and called from another, "
        "nested and failing evaluations, loads, switches of the current environment and growth by hundreds of names, under seeded collection schedules; compared with a model of name-to-cell maps; "
        "non-trivial: at least 6 writes over at least 2 environments")
REAL, STUB = engine.REAL_CORE, engine.STUB_CORE
ASSUMPTIONS = ["a closure refers to the cell its free name had in the environment it was created in"]
LISTS = ("ops",)
NE, NC = 7, 6
# values other than numbers: as logged, and an expression
ODD = [("#f", "#f"), ("#t", "#t"), ("()", "'()"), ("#<void>", "(void)")]
PLAIN = ["a", "b", "c", "hello", "x-1"]
# names of the base environment that the harness does not use
PRIMS = """caaaar caaadr caaar caadar caaddr caadr caar cadaar cadadr cadar caddar cadddr caddr cdaaar cdaadr cdaar cdadar cdaddr cdadr cdar cddaar cddadr cddar cdddar cddddr cdddr cddr char->integer char-ready? eq-hash equal-hash fasl-read fasl-write
hashtable-clear! hashtable-copy hashtable-delete! hashtable-entries hashtable-keys hashtable-size hashtable-update! hashtable-vals identity integer->char iota make-list make-eq-hashtable make-string negative? pattern-variable? procedure-arity put-datum record-accessor record-mutator record-rtd record-type-uid record-type-name remainder set-box! string->list string-port? syntax->list syntax-loc unbox vector-fill! add1 cadr box list->vector""".split()
PRE = """
(define-values (E) (make-vector 8 #f))
(define-values (C) (make-vector 8 #f))
(define-values (sh) (lambda (v) (if (procedure? v) 'proc v)))
(define-values (have) (lambda (e n) (letrec-values ([(cnt) (lambda (l k) (if (null? l) k (cnt (cdr l) (if (eq? n (car l)) (+ k 1) k))))]) (cnt (environment-symbols e) 0))))
(define-values (bulkname) (lambda (i) (string->symbol (number->string (+ 1000000 i)))))
(define-values (bulk!) (lambda (e a b v) (if (< a b) (begin (environment-set! e (bulkname a) (+ v a)) (bulk! e (+ a 1) b v)) 'ok)))
(define-values (bulksum) (lambda (e a b acc) (if (< a b) (bulksum e (+ a 1) b (+ acc (environment-ref e (bulkname a) 1))) acc)))
(define-values (bulknames) (lambda (a b tl) (if (< a b) (bulknames (+ a 1) b (cons (bulkname a) tl)) tl)))
(define-values (cur) (lambda () (letrec-values ([(f) (lambda (i) (if (= i 8) -1 (if (eq? (current-environment) (vector-ref E i)) i (f (+ i 1)))))]) (f 0))))
(vector-set! E 0 (current-environment))
"""


def gen(rng, tier, i):
    ops = []
    prims = rng.sample(PRIMS, rng.choice([3, 4, 10]))
    NAMES = PLAIN + prims
    pool = rng.sample(NAMES, rng.choice([1, 2, 4, len(NAMES)]))
    near = rng.choice([2, 3, NE])
    for k in range(1, rng.choice([3, 5, NE])):
        ops.append(["mk", k, rng.choice(["base", "empty", "copy", "copy", "copyi", "sub"]), rng.randrange(k), [rng.choice(NAMES) for _ in range(rng.randrange(4))]])
    for _ in range(rng.choice([8, 20, 40] if tier == "quick" else [20, 50, 100])):
        e = rng.randrange(near) if rng.random() < 0.8 else rng.randrange(NE)
        n = rng.choice(pool)
        v = rng.randrange(1000)
        r = rng.random()
        if r < 0.02:
            a = rng.choice([0, 0, 20, 100])
            ops.append(["mks", max(1, e), rng.randrange(NE), [rng.choice(NAMES) for _ in range(rng.choice([0, 1, 3, 8]))], a, a + rng.choice([0, 1, 10, 60, 200])])
            ops.append(["bsum", max(1, e), 0, 100])
        elif r < 0.08:
            ops.append(["mk", max(1, e), rng.choice(["base", "empty", "copy", "copyi", "sub"]), rng.randrange(NE), [rng.choice(NAMES) for _ in range(rng.randrange(4))]])
        elif r < 0.2:
            ops.append([rng.choice(["def", "def", "def2"]), e, n, v, rng.choice(NAMES)])
        elif r < 0.27:
            ops.append(["setb", e, n, v])
        elif r < 0.35:
            ops.append(["envset", e, n, v])
        elif r < 0.48:
            ops.append([rng.choice(["ref", "refd", "reft", "evalref"]), e, n, v])
        elif r < 0.56:
            ops.append([rng.choice(["mkget", "mkget", "mkset"]), e, n, rng.randrange(NC)])
        elif r < 0.66:
            ops.append(["call", rng.randrange(NC), v])
        elif r < 0.7:
            ops.append(["syms", e, n])
        elif r < 0.76:
            ops.append(["cur", e])
        elif r < 0.81:
            ops.append([rng.choice(["tdef", "tset", "tref"]), 0, n, v])
        elif r < 0.86:
            ops.append(["bad", e, n, v, rng.choice(["syntax", "car", "after", "unbound", "arity", "inner", "notenv", "three"])])
        elif r < 0.91:
            ops.append(["nested", e, n, v, rng.randrange(NE), rng.choice(NAMES)])
        elif r < 0.96:
            ops.append([rng.choice(["load", "eload", "eloadbad"]), e, n, v])
        else:
            a = rng.choice([0, 20, 100])
            ops.append([rng.choice(["bulk", "bulk", "bsum"]), e, a, a + rng.choice([5, 30, 60, 150]), v])
    return {"prims": prims, "ops": ops, "cfg": engine.rand_cfg(rng, 200000, heavy=0.02)}


class Env:
    def __init__(self, full=False, base=True, prims=()):
        self.cells = {}      # name -> [value]; value None: forward reference, no value yet
        self.full = full     # holds the harness names
        self.bulk = {}
        if base:
            for p in prims:
                self.cells[p] = ["proc"]

    def get(self, n):
        c = self.cells.get(n)
        return c[0] if c else None

    def put(self, n, v):
        if n in self.cells:
            self.cells[n][0] = v
        else:
            self.cells[n] = [v]

    def copy(self, names=None):
        e = Env(self.full and names is None, False)
        for n, c in self.cells.items():
            if c[0] is not None and (names is None or n in names):
                e.cells[n] = [c[0]]
        if names is None:
            e.bulk = dict(self.bulk)
        return e


def ev(k):
    return "(vector-ref E %d)" % k


def build(case):
    """-> program text, [(op index, expected outcome, current env)]"""
    L = [HEAD, PRE]
    prims = case["prims"]
    envs = [Env(True, True, prims)] + [None] * (NE - 1)
    clos = [None] * NC
    cur = 0
    exp = []
    files = {}
    touched = {}

    def out(i, text, want):
        L.append(op(i, text, "(list (sh v) (cur))"))
        exp.append((i, "E" if want is None else "(%s %d)" % (want, cur)))

    for i, o in enumerate(case["ops"]):
        k = o[0]
        if k == "mk":
            _, e, how, src, names = o
            if e == cur or envs[src] is None or (how == "sub" and envs[src] is None):
                continue
            t = {"base": "(make-base-environment)", "empty": "(make-empty-environment)", "copy": "(copy-environment %s)" % ev(src), "copyi": "(copy-environment %s #f)" % ev(src),
                 "sub": "(copy-environment %s #t '(%s))" % (ev(src), " ".join(names))}[how]
            envs[e] = Env(False, True, prims) if how == "base" else Env(False, False) if how == "empty" else envs[src].copy(None if how != "sub" else set(names))
            if how == "base":
                envs[e].full = False
            out(i, "(begin (vector-set! E %d %s) 'ok)" % (e, t), "ok")
            continue
        if k == "mks":
            _, e, src, names, a, b = o
            if e == cur or envs[src] is None:
                continue
            bulk = envs[src].bulk
            envs[e] = envs[src].copy(set(names))
            envs[e].bulk = {x: v for x, v in bulk.items() if a <= x < b}
            out(i, "(begin (vector-set! E %d (copy-environment %s #t (bulknames %d %d '(%s)))) 'ok)" % (e, ev(src), a, b, " ".join(names)), "ok")
            continue
        if k == "call":
            c = clos[o[1]]
            if not c:
                continue
            if c[0] == "get":
                out(i, "((vector-ref C %d))" % o[1], c[1][0])
            else:
                if c[1][0] is None:
                    continue
                out(i, "(begin ((vector-ref C %d) %d) 'ok)" % (o[1], o[2]), "ok")
                c[1][0] = o[2]
            continue
        if k in ("tdef", "tset", "tref"):
            n, v = o[2], o[3]
            en = envs[cur]
            if k == "tdef":
                L.append("(define-values (%s) %d)" % (n, v))
                en.put(n, v)
            elif k == "tset" and en.get(n) is not None:
                L.append("(set! %s %d)" % (n, v))
                en.put(n, v)
            out(i, n, en.get(n))
            if n not in en.cells:
                en.cells[n] = [None]     # compiled as a forward reference
            continue
        e = o[1]
        en = envs[e]
        if en is None:
            continue
        if k == "cur":
            if not en.full:
                continue
            L.append("(current-environment %s)" % ev(e))
            cur = e
            out(i, "'switched", "switched")
            continue
        if k == "syms":
            out(i, "(have %s '%s)" % (ev(e), o[2]), "1" if en.get(o[2]) is not None else "0")
            continue
        if k == "bulk":
            for x in range(o[2], o[3]):
                en.bulk[x] = o[4] + x
            out(i, "(bulk! %s %d %d %d)" % (ev(e), o[2], o[3], o[4]), "ok")
            touched[e] = touched.get(e, 0) + 1
            continue
        if k == "bsum":
            out(i, "(bulksum %s %d %d 0)" % (ev(e), o[2], o[3]), sum(en.bulk.get(x, 1) for x in range(o[2], o[3])))
            continue
        n, v = o[2], o[3]
        if k in ("def", "def2", "envset", "setb", "load", "eload", "nested"):
            touched[e] = touched.get(e, 0) + 1
        if k == "def":
            out(i, "(begin (eval '(define-values (%s) %d) %s) 'ok)" % (n, v, ev(e)), "ok")
            en.put(n, v)
        elif k == "def2":
            m = o[4]
            if m == n:
                continue
            L.append("(environment-set! %s 'two values)" % ev(e))
            out(i, "(begin (eval '(define-values (%s %s) (two %d %d)) %s) 'ok)" % (n, m, v, v + 1, ev(e)), "ok")
            en.put(n, v)
            en.put(m, v + 1)
        elif k == "envset":
            w, t = ODD[v // 4 % 4] if v % 4 == 0 else (v, v)
            out(i, "(begin (environment-set! %s '%s %s) 'ok)" % (ev(e), n, t), "ok")
            en.put(n, w)
        elif k == "setb":
            ok = en.get(n) is not None
            out(i, "(begin (eval '(set! %s %d) %s) 'ok)" % (n, v, ev(e)), "ok" if ok else None)
            if ok:
                en.put(n, v)
        elif k == "ref":
            out(i, "(environment-ref %s '%s)" % (ev(e), n), en.get(n))
        elif k == "refd":
            out(i, "(environment-ref %s '%s 'none)" % (ev(e), n), "none" if en.get(n) is None else en.get(n))
        elif k == "reft":
            out(i, "(environment-ref %s '%s (lambda () 'thunk))" % (ev(e), n), "thunk" if en.get(n) is None else en.get(n))
        elif k == "evalref":
            out(i, "(eval '%s %s)" % (n, ev(e)), en.get(n))
        elif k in ("mkget", "mkset"):
            j = o[3]
            t = "(lambda () %s)" % n if k == "mkget" else "(lambda (q) (set! %s q))" % n
            if k == "mkset" and en.get(n) is None:
                continue
            out(i, "(begin (vector-set! C %d (eval '%s %s)) 'ok)" % (j, t, ev(e)), "ok")
            clos[j] = (k[2:], en.cells.setdefault(n, [None]))
        elif k == "bad":
            how = o[4]
            t = {"syntax": "(if)", "car": "(bad-car 5)", "after": "((lambda () (set! %s %d) (bad-car 5)))" % (n, v), "unbound": "(no-such-name 1)", "arity": "((lambda (z) z))",
                 "inner": "((lambda () ((lambda () (bad-car 5)))))", "notenv": "1", "three": "1"}[how]
            if how in ("car", "after", "inner"):
                L.append("(environment-set! %s 'bad-car car)" % ev(e))
            if how == "after" and en.get(n) is None:
                continue
            if how == "notenv":
                out(i, "(eval '1 'not-an-environment)", None)
            elif how == "three":
                out(i, "(eval '1 %s 3)" % ev(e), None)
            else:
                out(i, "(eval '%s %s)" % (t, ev(e)), None)
            if how == "after":
                en.put(n, v)
        elif k == "nested":
            _, _, _, _, e2, m = o
            en2 = envs[e2]
            if en2 is None:
                continue
            L.append("(environment-set! %s 'go (lambda () (eval '(define-values (%s) %d) %s)))" % (ev(e), m, v, ev(e2)))
            en2.put(m, v)
            w = en.get(n)
            out(i, "(eval '(let-values ([(q) (go)]) %s) %s)" % (n, ev(e)), w)
        elif k in ("load", "eload", "eloadbad"):
            f = "/w/l%d.min" % i
            files[f] = "(define-values (%s) %d)\n%s\n" % (n, v, "(no-such-name)" if k == "eloadbad" else n)
            if k == "load":
                envs[cur].put(n, v)
                out(i, '(load "%s")' % f, v)
            else:
                L.append("(environment-set! %s 'ld (lambda () (load \"%s\")))" % (ev(e), f))
                en.put(n, v)
                out(i, "(eval '(ld) %s)" % ev(e), v if k == "eload" else None)
    n0 = 100000
    for e in range(NE):
        if envs[e] is not None:
            for j, n in enumerate(PLAIN + prims):
                w = envs[e].get(n)
                out(n0 + e * 100 + j, "(environment-ref %s '%s 'none)" % (ev(e), n), "none" if w is None else w)
            if envs[e].bulk:
                out(n0 + e * 100 + 99, "(bulksum %s 0 260 0)" % ev(e), sum(envs[e].bulk.get(x, 1) for x in range(260)))
    for j in range(NC):
        if clos[j] and clos[j][0] == "get":
            out(n0 + 50000 + j, "((vector-ref C %d))" % j, clos[j][1][0])
    return "\n".join(L) + "\n", exp, files, touched


def judge(case, run, info):
    text, exp, files, touched = build(case)
    info["nontrivial"] = sum(touched.values()) >= 6 and len(touched) >= 2
    r = run.run("nolib", dict(case["cfg"], files=dict(files, **{"/w/prog.min": text})))
    if r["end"] != "exit":
        return []
    done, rest = parse_log(r["stderr"])
    for i, want in exp:
        res = done.get(i)
        what = case["ops"][i] if i < len(case["ops"]) else "final state"
        if res is None:
            return [("not-run", "operation %d %r never reported (code %s, stderr tail %r)" % (i, what, r["code"], r["stderr"][-300:]))]
        if want == "E":
            if res[0] != "E":
                return [("no-error", "operation %d %r gave %r instead of an error" % (i, what, res[1][:200]))]
        elif res != ("V", want):
            return [("value", "operation %d %r gave %r, expected %r" % (i, what, res, want))]
    if rest.strip() or r["code"] != 0:
        return [("messages", "unexpected messages %r, exit code %s" % (rest[:400], r["code"]))]
    return []

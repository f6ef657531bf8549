"""C05: hash tables are finite maps."""
import engine
from script import HEAD, op, parse_log, lit

ID = "C05"
TITLE = "Hash tables behave as finite maps under every history"
LEVEL = "exploration"
QUICK, THOROUGH = 350, 100000
RULE = ("seeded histories of every table operation on up to four tables (eq, equal and custom hash/equivalence, colliding and negative hashes), with bulk growth and shrinking, re-entrant updaters and defaults, "
        "copies and comparison of whole tables, under seeded collection schedules and object placements (so address-based hashes differ); compared with a dictionary model; non-trivial: at least 6 operations that change a table")
REAL, STUB = engine.REAL_CORE, engine.STUB_CORE
ASSUMPTIONS = ["keys are not mutated while they are in a table"]
LISTS = ("ops",)
NT = 4
# key pool: expression, equality class under equal?, identity class under eq?
FIX = [0, 1, -1, 7, 13, 26, 29, 1000003, -77, 4611686018427387903, -4611686018427387904, 9223372036854775807, 255, 256, 1 << 32, 42]


def pool(rng):
    """-> list of (expr, equal-class, eq-class); objects are made once and held in variables"""
    out = []
    n = rng.choice([8, 14, 24])
    words = ["a", "b", "ab", "ba", "", "key", "Aa", "BB", "x" * 30, "hello world", "7"]
    for j in range(n):
        k = rng.choice(["fix", "fix", "str", "str", "sym", "char", "list", "vec", "box", "bool", "nested", "null", "rec", "proc", "esym"])
        if k == "fix":
            x = rng.choice(FIX)
            out.append((str(x) if rng.random() < 0.5 else "(+ %d %d)" % (x - 1, 1) if x > -(1 << 62) else str(x), "n%d" % x, "n%d" % x))
        elif k == "str":
            w = rng.choice(words)
            out.append(('(string-append %s "")' % lit(w) if rng.random() < 0.5 else lit(w) if False else "(make-str %s)" % lit(w), "s" + w, "u%d" % j))
        elif k in ("sym", "esym"):
            w = rng.choice(words[:4] + words[5:8])
            out.append(("'" + w if k == "sym" else "(string->symbol %s)" % lit(w), "y" + w, "y" + w))
        elif k == "char":
            w = rng.choice("abAz09")
            out.append(("#\\" + w if rng.random() < 0.5 else "(integer->char %d)" % ord(w), "c" + w, "c" + w))
        elif k == "list":
            w = rng.choice(words[:3])
            x = rng.choice([1, 2])
            out.append(("(list %d (make-str %s))" % (x, lit(w)), "(%d %r)" % (x, w), "u%d" % j))
        elif k == "nested":
            x = rng.choice([1, 2])
            out.append(("(list (vector %d (list 'a)) (cons %d #\\b) (box '()))" % (x, x), "((#(%d (a))..." % x, "u%d" % j))
        elif k == "vec":
            w = rng.choice([(1,), (1, 2), (2, 1)])
            cls = "v%r" % (w,)
            out.append(("(vector %s)" % " ".join(map(str, w)), cls, "u%d" % j))
        elif k == "box":
            x = rng.choice([1, 2])
            out.append(("(box (list %d))" % x, "b%d" % x, "u%d" % j))
        elif k == "bool":
            x = rng.choice(["#t", "#f", "(void)", "eof"])
            out.append((x, x, x))
        elif k == "null":
            out.append(("'()", "()", "()"))
        elif k == "rec":
            out.append(("(mkrec %d)" % rng.choice([1, 2]), "u%d" % j, "u%d" % j))
        elif k == "proc":
            out.append(("(lambda (x) x)", "u%d" % j, "u%d" % j))
    return out


PRE = r"""
(define-values (make-str) (lambda (s) (list->string (string->list s))))
(define-values (eof) (read (open-input-string "")))
(define-values (rtd) (make-record-type-descriptor 'rec #f #f #f #f #((mutable a))))
(define-values (mkrec) (record-constructor rtd))
(define-values (index-of) (lambda (same? k ks i) (if (null? ks) -1 (if (same? k (car ks)) i (index-of same? k (cdr ks) (+ i 1))))))
(define-values (idx-all) (lambda (same? v) (map (lambda (k) (if (fixnum? k) (if (if (>= k 5000) (< k 9000) #f) k (index-of same? k POOL 0)) (index-of same? k POOL 0))) (vector->list v))))
(define-values (fill!) (lambda (t a b v) (if (< a b) (begin (hashtable-set! t a (+ v a)) (fill! t (+ a 1) b v)) (void))))
(define-values (unfill!) (lambda (t a b) (if (< a b) (begin (hashtable-delete! t a) (unfill! t (+ a 1) b)) (void))))
(define-values (sumref) (lambda (t a b acc) (if (< a b) (sumref t (+ a 1) b (+ acc (hashtable-ref t a 1))) acc)))
(define-values (h-mod3) (lambda (x) (modulo (equal-hash x) 3)))
(define-values (h-neg) (lambda (x) (- 0 (modulo (equal-hash x) 1000))))
(define-values (h-const) (lambda (x) 7))
(define-values (h-alloc) (lambda (x) (begin (make-vector 3 x) (equal-hash x))))
(define-values (e-alloc) (lambda (a b) (begin (list a b) (equal? a b))))
(define-values (num) (lambda (v) (if (fixnum? v) v 0)))
"""
KINDS = {"eq": "(make-eq-hashtable)", "equal": "(make-hashtable)", "mod3": "(make-custom-hashtable h-mod3 equal?)", "neg": "(make-custom-hashtable h-neg equal?)",
         "const": "(make-custom-hashtable h-const e-alloc)", "alloc": "(make-custom-hashtable h-alloc e-alloc)", "consteq": "(make-custom-hashtable h-const eq?)"}
# values of every kind: as written in the log, and an expression for it
ODD = {"#f": "#f", "#t": "#t", "#<void>": "(void)", "#<eof>": "eof", "()": "'()", "zz": "'zz"}
REENT = ["del", "set", "clear", "grow", "shrinkgrow", "copyother", "ref", "equal"]


def gen(rng, tier, i):
    p = pool(rng)
    kinds = [rng.choice(["eq", "eq", "equal", "equal", "equal", "mod3", "neg", "const", "alloc", "consteq"]) for _ in range(NT)]
    ops = []
    for _ in range(rng.choice([6, 15, 30, 60] if tier == "quick" else [10, 30, 80, 160])):
        t = rng.randrange(NT) if rng.random() < 0.6 else 0
        k = rng.randrange(len(p))
        r = rng.random()
        v = rng.randrange(1000)
        if r < 0.05:
            ops.append(["set", t, k, rng.choice(list(ODD))])
        elif r < 0.25:
            ops.append(["set", t, k, v])
        elif r < 0.38:
            ops.append([rng.choice(["ref", "refd", "reft", "has", "refset"]), t, k, v])
        elif r < 0.5:
            ops.append([rng.choice(["upd", "updd", "updd"]), t, k, v])
        elif r < 0.58:
            ops.append(["updre", t, k, v, rng.choice(REENT), rng.randrange(len(p))])
        elif r < 0.7:
            ops.append(["del", t, k])
        elif r < 0.74:
            ops.append([rng.choice(["size", "keys", "vals", "entries"]), t])
        elif r < 0.86:
            a = 5000 + rng.choice([0, 0, 10, 100])
            n = rng.choice([3, 12, 14, 30, 60, 120] if kinds[t].startswith("const") else [3, 12, 13, 14, 28, 30, 60, 120, 260])
            if tier == "thorough" and not kinds[t].startswith("const"):
                n = rng.choice([n, 600])
            ops.append([rng.choice(["fill", "fill", "unfill", "sum"]), t, a, a + n, v])
        elif r < 0.88:
            ops.append(["clear", t])
        elif r < 0.94:
            ops.append(["copy", t, rng.randrange(NT)])
        elif r < 0.97:
            ops.append(["same", t, rng.randrange(NT)])
        else:
            ops.append([rng.choice(["badref", "badset", "badupd", "bigsum"]), t, k])
    return {"pool": p, "kinds": kinds, "ops": ops, "cfg": engine.rand_cfg(rng, 100000, heavy=0.03)}


def upd_text(v):
    return "(lambda (x) (+ (num x) %d))" % v


def reent(kind, t, k2, v):
    return {"del": "(hashtable-delete! t%d (kx))" % t, "set": "(hashtable-set! t%d (kx) 77)" % t, "clear": "(hashtable-clear! t%d)" % t,
            "grow": "(fill! t%d 5000 5040 1)" % t, "shrinkgrow": "(begin (fill! t%d 5000 5100 1) (unfill! t%d 5000 5100))" % (t, t),
            "copyother": "(hashtable-copy t%d)" % t, "ref": "(hashtable-ref t%d (kx) 0)" % t, "equal": "(hashtable-set! t%d k%d 78)" % (t, k2)}[kind]


def program(case):
    L = [HEAD, PRE]
    for j, (e, _, _) in enumerate(case["pool"]):
        L.append("(define-values (k%d) %s)" % (j, e))
    L.append("(define-values (POOL) (list %s))" % " ".join("k%d" % j for j in range(len(case["pool"]))))
    for t, k in enumerate(case["kinds"]):
        L.append("(define-values (t%d) %s)" % (t, KINDS[k]))
    kinds = list(case["kinds"])

    def same(t):
        return "eq?" if kinds[t] in ("eq", "consteq") else "equal?"

    for i, o in enumerate(case["ops"]):
        k, t = o[0], o[1]
        if k == "set":
            L.append(op(i, "(begin (hashtable-set! t%d k%d %s) 'ok)" % (t, o[2], ODD.get(o[3], o[3]))))
        elif k == "ref":
            L.append(op(i, "(hashtable-ref t%d k%d)" % (t, o[2])))
        elif k == "refd":
            L.append(op(i, "(hashtable-ref t%d k%d 'none)" % (t, o[2])))
        elif k == "reft":
            L.append(op(i, "(hashtable-ref t%d k%d (lambda () (list 'thunk %d)))" % (t, o[2], o[3])))
        elif k == "refset":
            L.append(op(i, "(hashtable-ref t%d k%d (lambda () (begin (hashtable-set! t%d k%d %d) 'set)))" % (t, o[2], t, o[2], o[3])))
        elif k == "has":
            L.append(op(i, "(hashtable-contains? t%d k%d)" % (t, o[2])))
        elif k == "upd":
            L.append(op(i, "(begin (hashtable-update! t%d k%d %s) 'ok)" % (t, o[2], upd_text(o[3]))))
            L.append("(if (eq? (hashtable-ref t%d k%d #f) %d) (void) (void))" % (t, o[2], o[3]))
        elif k == "updd":
            L.append(op(i, "(begin (hashtable-update! t%d k%d %s %s) 'ok)" % (t, o[2], upd_text(o[3]), "5" if o[3] % 2 else "(lambda () 5)")))
        elif k == "updre":
            L.append("(define-values (kx) (lambda () k%d))" % o[2])
            L.append(op(i, "(begin (hashtable-update! t%d k%d (lambda (x) (begin %s (+ (num x) %d))) 5) 'ok)" % (t, o[2], reent(o[4], t, o[5], o[3]), o[3])))
        elif k == "del":
            L.append(op(i, "(begin (hashtable-delete! t%d k%d) 'ok)" % (t, o[2])))
        elif k == "size":
            L.append(op(i, "(hashtable-size t%d)" % t))
        elif k == "keys":
            L.append(op(i, "(idx-all %s (hashtable-keys t%d))" % (same(t), t)))
        elif k == "vals":
            L.append(op(i, "(vector->list (hashtable-vals t%d))" % t))
        elif k == "entries":
            L.append(op(i, "(let-values ([(ks vs) (hashtable-entries t%d)]) (list (idx-all %s ks) (vector->list vs)))" % (t, same(t))))
        elif k == "fill":
            L.append(op(i, "(begin (fill! t%d %d %d %d) 'ok)" % (t, o[2], o[3], o[4])))
        elif k == "unfill":
            L.append(op(i, "(begin (unfill! t%d %d %d) 'ok)" % (t, o[2], o[3])))
        elif k == "sum":
            L.append(op(i, "(sumref t%d %d %d 0)" % (t, o[2], o[3])))
        elif k == "bigsum":
            L.append(op(i, "(apply + (map num (vector->list (hashtable-vals t%d))))" % t))
        elif k == "clear":
            L.append(op(i, "(begin (hashtable-clear! t%d) 'ok)" % t))
        elif k == "copy":
            L.append(op(i, "(begin (set! t%d (hashtable-copy t%d)) 'ok)" % (o[2], t)))
            kinds[o[2]] = kinds[t]
        elif k == "same":
            L.append(op(i, "(list (equal? t%d t%d) (equal? t%d t%d) (if (equal? t%d t%d) (= (equal-hash t%d) (equal-hash t%d)) #t))" % (t, o[2], o[2], t, t, o[2], t, o[2])))
        elif k == "badref":
            L.append(op(i, "(hashtable-ref 5 k%d)" % o[2]))
        elif k == "badset":
            L.append(op(i, "(hashtable-set! 'no k%d 1)" % o[2]))
        elif k == "badupd":
            L.append(op(i, "(hashtable-update! t%d k%d 5)" % (t, o[2])))
    for t in range(NT):
        L.append(op(10000 + t, "(let-values ([(ks vs) (hashtable-entries t%d)]) (list (hashtable-size t%d) (idx-all %s ks) (vector->list vs)))" % (t, t, same(t))))
    return "\n".join(L) + "\n"


def ints(s):
    """parses a list structure of integers, symbols"""
    toks = s.replace("()", "nil").replace("(", " ( ").replace(")", " ) ").split()
    pos = [0]

    def rd():
        t = toks[pos[0]]
        pos[0] += 1
        if t == "(":
            out = []
            while toks[pos[0]] != ")":
                out.append(rd())
            pos[0] += 1
            return out
        try:
            return int(t)
        except ValueError:
            return "()" if t == "nil" else t
    try:
        return rd()
    except IndexError:
        return None


def pairs(x):
    """two parallel lists, as sorted pairs"""
    x = [[] if y == "()" else y for y in x]
    if not all(isinstance(y, list) for y in x) or len(x[0]) != len(x[1]):
        return x
    return sorted(zip(x[0], x[1]), key=repr)


class Table:
    def __init__(self, kind):
        self.kind = kind
        self.d = {}


def judge(case, run, info):
    P = case["pool"]
    T = [Table(k) for k in case["kinds"]]
    r = run.run("nolib", dict(case["cfg"], files={"/w/prog.min": program(case)}))
    if r["end"] != "exit":
        return []
    done, rest = parse_log(r["stderr"])
    v = []
    changes = 0

    def key(t, k):
        return P[k][2] if T[t].kind in ("eq", "consteq") else P[k][1]

    def num(x):
        return x if isinstance(x, int) else 0

    def kidx(t, key):
        """what idx-all answers for this key: first pool index of the class, or the bulk integer"""
        if key.startswith("n") and 5000 <= int(key[1:]) < 9000:
            return int(key[1:])
        c = 2 if T[t].kind in ("eq", "consteq") else 1
        for j, q in enumerate(P):
            if q[c] == key:
                return j
        return -1

    def entries(t):
        return sorted(((kidx(t, k), x) for k, x in T[t].d.items()), key=repr)

    def fill(t, a, b, x):
        for n in range(a, b):
            T[t].d["n%d" % n] = x + n

    for i, o in enumerate(case["ops"]):
        k, t = o[0], o[1]
        d = T[t].d
        res = done.get(i)
        if res is None:
            v.append(("not-run", "operation %d %r never reported (code %s, stderr tail %r)" % (i, o, r["code"], r["stderr"][-300:])))
            return v
        want = "ok"
        err = False
        kk = key(t, o[2]) if k in ("set", "ref", "refd", "reft", "refset", "has", "upd", "updd", "updre", "del") else None
        got = res[1]
        norm = None
        if k == "set":
            d[kk] = o[3]
            changes += 1
        elif k == "ref":
            err = kk not in d
            want = d.get(kk)
        elif k == "refd":
            want = d.get(kk, "none")
        elif k == "reft":
            want = d.get(kk, "(thunk %d)" % o[3])
        elif k == "refset":
            if kk in d:
                want = d[kk]
            else:
                want = "set"
                d[kk] = o[3]
        elif k == "has":
            want = "#t" if kk in d else "#f"
        elif k in ("upd", "updd", "updre"):
            changes += 1
            err = k == "upd" and kk not in d
            old = d.get(kk, 5 if k != "upd" else 0)
            if k == "updre":
                w = o[4]
                if w == "del":
                    d.pop(kk, None)
                elif w == "set":
                    d[kk] = 77
                elif w == "clear":
                    d.clear()
                elif w == "grow":
                    fill(t, 5000, 5040, 1)
                elif w == "shrinkgrow":
                    for n in range(5000, 5100):
                        d.pop("n%d" % n, None)
                elif w == "equal":
                    d[key(t, o[5])] = 78
            d[kk] = num(old) + o[3]
        elif k == "del":
            changes += kk in d
            d.pop(kk, None)
        elif k == "size":
            want = len(d)
        elif k == "keys":
            norm = lambda x: [] if x == "()" else sorted(x, key=repr) if isinstance(x, list) else x
            want = sorted((kidx(t, q) for q in d), key=repr)
        elif k == "vals":
            norm = lambda x: [] if x == "()" else sorted(x, key=repr) if isinstance(x, list) else x
            want = sorted(d.values(), key=repr)
        elif k == "entries":
            norm = lambda x: pairs(x) if isinstance(x, list) and len(x) == 2 else x
            want = entries(t)
        elif k == "fill":
            fill(t, o[2], o[3], o[4])
            changes += 1
        elif k == "unfill":
            for n in range(o[2], o[3]):
                d.pop("n%d" % n, None)
            changes += 1
        elif k == "sum":
            want = sum(num(d.get("n%d" % n, 1)) for n in range(o[2], o[3]))
        elif k == "bigsum":
            want = sum(num(x) for x in d.values())
        elif k == "clear":
            d.clear()
        elif k == "copy":
            if o[2] != t:
                T[o[2]] = Table(T[t].kind)
                T[o[2]].d = dict(d)
        elif k == "same":
            a, b = T[t], T[o[2]]
            e = "#t" if a is b or (a.kind == b.kind and a.d == b.d) else "#f"
            want = "(%s %s #t)" % (e, e)
        elif k in ("badref", "badset", "badupd"):
            err = True
        if err:
            if res[0] != "E":
                v.append(("no-error", "operation %d %r on a missing key or bad argument gave %r instead of an error" % (i, o, got[:200])))
                return v
            continue
        if res[0] != "V":
            v.append(("error", "operation %d %r failed: %r" % (i, o, got[:300])))
            return v
        if norm:
            ok = norm(ints(got)) == want
        else:
            ok = got == str(want)
        if not ok:
            v.append(("op-" + k, "operation %d %r on a %s table gave %r, expected %r" % (i, o, T[t].kind, got[:400], str(want)[:400])))
            return v
    for t in range(NT):
        res = done.get(10000 + t)
        x = ints(res[1]) if res and res[0] == "V" else None
        if not (isinstance(x, list) and len(x) == 3 and x[0] == len(T[t].d) and pairs(x[1:]) == entries(t)):
            v.append(("final", "final contents of table %d (%s) are %r, expected %r" % (t, T[t].kind, res and res[1][:400], str(entries(t))[:400])))
            return v
    if rest.strip() or r["code"] != 0:
        v.append(("messages", "unexpected messages %r, exit code %s" % (rest[:400], r["code"])))
    info["nontrivial"] = changes >= 6
    return v

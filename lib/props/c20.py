"""C20: programs of any size: deep nesting, long bodies, many bindings, clauses, parameters and definitions."""
import random

import engine
from props.c01 import diff

ID = "C20"
TITLE = "Large programs compile in proportionate work and mean the same"
LEVEL = "exploration"
QUICK, THOROUGH = 500, 40000
RULE = ("seeded compositions of source shapes (nested and wide bindings, conditionals, sequences, clauses, parameters, captures, literals, definitions), each up to hundreds of levels or thousands of parts, "
        "given as a program, a loaded file or a datum to eval, under seeded heap schedules; the value is computed while the text is built; non-trivial: at least 60 levels or parts")
REAL, STUB = engine.REAL_CORE, engine.STUB_CORE
ASSUMPTIONS = ["work is measured in simulated events (allocations, memory and I/O requests)", "at most 150 levels of nesting and 3000 parts; work beyond a wide quadratic bound in the size of the text counts as disproportionate"]
LISTS = ("parts",)
M = 1009
DEEP = ["let", "lambda", "iftest", "ifchain", "arith", "cwvleft", "cwvright", "setdeep", "curry", "nestbegin", "thunks", "letrecdeep", "caselam"]
WIDE = ["begin", "letwide", "letrecwide", "capture", "clauses", "params", "quote", "vals", "args", "lambdas", "body", "restargs", "quotedeep", "strings", "assigned", "ifs"]
TOP = ["defs", "mdefs", "redef", "fdefs"]


class B:
    """builds an expression and its value together"""

    def __init__(self, rng):
        self.r = rng
        self.k = 0

    def new(self, h="x"):
        self.k += 1
        return "%s%d" % (h, self.k)

    def leaf(self, env):
        if env and self.r.random() < 0.6:
            n = self.r.choice(env if self.r.random() < 0.5 else env[-3:])
            return n
        v = self.r.randrange(100)
        return (str(v), v)

    def sum(self, *xs):
        return ("(modulo (+ %s) %d)" % (" ".join(x[0] for x in xs), M), sum(x[1] for x in xs) % M)

    def test(self, env):
        """a test expression and its truth"""
        a, b = self.leaf(env), self.leaf(env)
        k = self.r.randrange(4)
        if k == 0:
            return "(= %s %s)" % (a[0], b[0]), a[1] == b[1]
        if k == 1:
            return "(< %s %s)" % (a[0], b[0]), a[1] < b[1]
        if k == 2:
            return a[0], True
        return "(if (< %s %s) #t #f)" % (a[0], b[0]), a[1] < b[1]

    def single(self, env):
        """a single-valued initialiser in one of many forms"""
        a, b = self.leaf(env), self.leaf(env)
        k = self.r.randrange(9)
        if k == 0:
            return a
        if k == 1:
            t, v = self.test(env)
            return "(if %s %s %s)" % (t, a[0], b[0]), a[1] if v else b[1]
        if k == 2:
            return "(begin %s %s)" % (a[0], b[0]), b[1]
        if k == 3:
            return "(values %s)" % a[0], a[1]
        if k == 4:
            return "((lambda (y) (+ y 1)) %s)" % a[0], a[1] + 1
        if k == 5:
            return self.sum(a, b)
        if k == 6:
            return "(call-with-values (lambda () (values %s %s)) (lambda (p q) q))" % (a[0], b[0]), b[1]
        if k == 7:
            t, v = self.test(env)
            return "(if %s (begin %s %s) (values %s))" % (t, a[0], b[0], a[0]), b[1] if v else a[1]
        return "(let-values ([(y) %s]) y)" % a[0], a[1]

    def pair(self, env):
        """an initialiser with two values"""
        a, b, c = self.leaf(env), self.leaf(env), self.leaf(env)
        k = self.r.randrange(5)
        if k == 0:
            t, v = self.test(env)
            return "(if %s (values %s %s) (values %s %s))" % (t, a[0], b[0], b[0], c[0]), [a[1], b[1]] if v else [b[1], c[1]]
        if k == 1:
            return "(begin %s (values %s %s))" % (c[0], a[0], b[0]), [a[1], b[1]]
        if k == 2:
            return "(call-with-values (lambda () (values %s %s %s)) (lambda (p q r) (values r q)))" % (a[0], b[0], c[0]), [c[1], b[1]]
        if k == 3:
            return "(apply values (list %s %s))" % (a[0], b[0]), [a[1], b[1]]
        return "(values %s %s)" % (a[0], b[0]), [a[1], b[1]]

    def build(self, shapes, env):
        """shapes: [[name, n], ...] outermost first; innermost is a leaf"""
        if not shapes:
            return self.sum(self.leaf(env), self.leaf(env)) if self.r.random() < 0.5 else self.leaf(env)
        name, n = shapes[0]
        rest = shapes[1:]
        return getattr(self, "s_" + name)(n, env, lambda e: self.build(rest, e))

    # ---- deep shapes
    def s_let(self, n, env, inner):
        if n <= 0:
            return inner(env)
        k = self.r.random()
        if k < 0.5:
            x, i = self.new(), self.single(env)
            b, v = self.s_let(n - 1, env + [(x, i[1])], inner)
            return "(let-values ([(%s) %s]) %s)" % (x, i[0], b), v
        if k < 0.65:
            x, y, i = self.new(), self.new(), self.pair(env)
            b, v = self.s_let(n - 1, env + [(x, i[1][0]), (y, i[1][1])], inner)
            return "(let-values ([(%s %s) %s]) %s)" % (x, y, i[0], b), v
        if k < 0.75:
            b, v = self.s_let(n - 1, env, inner)
            return "(let-values (%s) %s)" % (self.r.choice(["", "[() (values)]"]), b), v
        if k < 0.9:
            x, y, i, j = self.new(), self.new(), self.single(env), self.single(env)
            b, v = self.s_let(n - 1, env + [(x, i[1]), (y, j[1])], inner)
            return "(let-values ([(%s) %s] [(%s) %s]) %s)" % (x, i[0], y, j[0], b), v
        x, i = self.new(), self.single(env)
        b, v = self.s_let(n - 1, env + [(x, i[1])], inner)
        return "(letrec-values ([(%s) %s]) %s)" % (x, i[0], b), v

    def s_lambda(self, n, env, inner):
        if n <= 0:
            return inner(env)
        m = self.r.choice([0, 1, 1, 2])
        xs = [self.new() for _ in range(m)]
        vs = [self.single(env) for _ in range(m)]
        b, v = self.s_lambda(n - 1, env + [(x, i[1]) for x, i in zip(xs, vs)], inner)
        return "((lambda (%s) %s)%s)" % (" ".join(xs), b, "".join(" " + i[0] for i in vs)), v

    def s_iftest(self, n, env, inner):
        x, v = inner(env)
        t, tv = "(< %s %d)" % (x, v + 1), True
        for _ in range(n):
            a, b = self.r.choice(["#t", "#f", "0"]), self.r.choice(["#t", "#f", "'()"])
            t, tv = "(if %s %s %s)" % (t, a, b), (a if tv else b) != "#f"
        l = self.leaf(env)
        return "(if %s %s %d)" % (t, l[0], v), l[1] if tv else v

    def s_ifchain(self, n, env, inner):
        k = self.r.randrange(n + 1)
        i, v = inner(env)
        y = self.new()
        env = env + [(y, k)]
        out, val = i, v
        for j in reversed(range(n)):
            l = self.leaf(env)
            form = self.r.choice(["(if (= %s %d) %s %s)", "(if (= %s %d) (begin 0 %s) %s)"])
            out = form % (y, j, l[0], out)
            val = l[1] if j == k else val
        return "(let-values ([(%s) %d]) %s)" % (y, k, out), val

    def s_arith(self, n, env, inner):
        x, v = inner(env)
        for _ in range(n):
            l = self.leaf(env)
            k = self.r.randrange(3)
            x, v = [("(+ %s %s)" % (l[0], x), l[1] + v), ("(+ %s %s)" % (x, l[0]), v + l[1]), ("(- %s %s)" % (x, l[0]), v - l[1])][k]
        return "(modulo %s %d)" % (x, M), v % M

    def s_cwvleft(self, n, env, inner):
        x, v = inner(env)
        l = self.leaf(env)
        t, a, b = "(values %s %s)" % (x, l[0]), v, l[1]
        for _ in range(n):
            k = self.r.randrange(5)
            if k == 0:
                t, a, b = "(call-with-values (lambda () %s) (lambda (p q) (values q p)))" % t, b, a
            elif k == 1:
                t, a, b = "(let-values ([(p q) %s]) (values (modulo (+ p q) %d) q))" % (t, M), (a + b) % M, b
            elif k == 2:
                t, a, b = "(call-with-values (lambda () (if 0 %s (values 1 2))) (case-lambda [(p) p] [(p q) (values p (+ q 1))]))" % t, a, b + 1
            elif k == 3:
                t, a, b = "(call-with-values (lambda () (begin 0 %s)) values)" % t, a, b
            else:
                t = "(call-with-values (lambda () %s) (if #t (lambda xs (apply values xs)) 0))" % t
        return "(call-with-values (lambda () %s) (lambda (p q) (modulo (+ p q) %d)))" % (t, M), (a + b) % M

    def s_cwvright(self, n, env, inner):
        if n <= 0:
            return inner(env)
        x, y, i = self.new(), self.new(), self.pair(env)
        b, v = self.s_cwvright(n - 1, env + [(x, i[1][0]), (y, i[1][1])], inner)
        return "(call-with-values (lambda () %s) (%s))" % (i[0], self.r.choice(["lambda (%s %s) %s", "case-lambda [(%s %s) %s]", "case-lambda [() 0] [(%s %s) %s]"]) % (x, y, b)), v

    def s_setdeep(self, n, env, inner):
        if n <= 0:
            return inner(env)
        x, i = self.new(), self.single(env)
        l = self.leaf(env)
        b, v = self.s_setdeep(n - 1, env + [(x, l[1])], inner)
        return "((lambda (%s) (begin (set! %s %s) %s)) %s)" % (x, x, l[0], b, i[0]), v

    def s_curry(self, n, env, inner):
        xs = [self.new() for _ in range(n)]
        vs = [self.leaf(env) for _ in range(n)]
        b, v = inner(env + [(x, i[1]) for x, i in zip(xs, vs)])
        for x in reversed(xs):
            b = "(lambda (%s) %s)" % (x, b)
        for i in vs:
            b = "(%s %s)" % (b, i[0])
        return b, v

    def s_nestbegin(self, n, env, inner):
        b, v = inner(env)
        for _ in range(n):
            l = self.leaf(env)
            b = self.r.choice(["(begin %s)" % b, "(begin %s %s)" % (l[0], b), "(begin (begin %s 1) %s)" % (l[0], b)])
        return b, v

    def s_thunks(self, n, env, inner):
        b, v = inner(env)
        for _ in range(n):
            b = self.r.choice(["((lambda () %s))", "((lambda xs %s) 1 2)", "((lambda () 0 %s))", "(apply (lambda () %s) '())"]) % b
        return b, v

    def s_letrecdeep(self, n, env, inner):
        if n <= 0:
            return inner(env)
        f, x, l = self.new("f"), self.new(), self.leaf(env)
        i = self.leaf(env)
        b, v = self.s_letrecdeep(n - 1, env + [(x, i[1])], inner)
        return "(letrec-values ([(%s) (lambda (%s) (if (< %s 0) (%s 1) %s))]) (%s %s))" % (f, x, x, f, b, f, i[0]), v

    def s_caselam(self, n, env, inner):
        if n <= 0:
            return inner(env)
        x, i = self.new(), self.leaf(env)
        b, v = self.s_caselam(n - 1, env + [(x, i[1])], inner)
        return "((case-lambda %s) %s)" % (self.r.choice(["[() 1] [(%s) %s] [(p . q) 2]", "[(%s) %s]", "[(p q) 0] [(%s . r) %s]", "[(p q) 0] [(p q r) 3] [(%s) %s]"]) % (x, b), i[0]), v

    # ---- wide shapes
    def s_begin(self, n, env, inner):
        a = self.new("a")
        out, v = [], 0
        for _ in range(n):
            l = self.leaf(env)
            out.append("(set! %s (modulo (+ %s %s) %d))" % (a, a, l[0], M) if self.r.random() < 0.8 else l[0])
            if out[-1].startswith("(set!"):
                v = (v + l[1]) % M
        x, w = inner(env)
        return "(let-values ([(%s) 0]) (begin %s (modulo (+ %s %s) %d)))" % (a, " ".join(out), a, x, M), (v + w) % M

    def s_body(self, n, env, inner):
        a = self.new("a")
        x, w = inner(env)
        return "((lambda (%s) %s %s %s) 0)" % (a, "(set! %s (+ %s 1)) " % (a, a) * n, x, "(modulo (+ %s %s) %d)" % (a, x, M) if len(x) < 500 else a), (n + w) % M if len(x) < 500 else n

    def s_letwide(self, n, env, inner):
        xs = [self.new() for _ in range(n)]
        vs = [self.single(env) for _ in range(n)]
        i, v = inner(env + [(x, w[1]) for x, w in zip(xs, vs)])
        return "(%s (%s) (modulo (+ %s %s) %d))" % (self.r.choice(["let-values", "let-values", "letrec-values"]), " ".join("[(%s) %s]" % (x, w[0]) for x, w in zip(xs, vs)), " ".join(xs), i, M), (sum(w[1] for w in vs) + v) % M

    def s_letrecwide(self, n, env, inner):
        fs = [self.new("f") for _ in range(n)]
        add = [self.leaf(env) for _ in range(n)]
        x, v = inner(env)
        bs = ["[(%s) (lambda (z) %s)]" % (f, "(%s (modulo (+ z %s) %d))" % (fs[j + 1], add[j][0], M) if j + 1 < n else "(modulo (+ z %s) %d)" % (add[j][0], M)) for j, f in enumerate(fs)]
        if not n:
            return x, v
        self.r.shuffle(bs)
        return "(letrec-values (%s) (%s %s))" % (" ".join(bs), fs[0], x), (v + sum(a[1] for a in add)) % M

    def s_capture(self, n, env, inner):
        xs = [self.new() for _ in range(n)]
        vs = [self.leaf(env) for _ in range(n)]
        i, v = inner(env + [(x, w[1]) for x, w in zip(xs, vs)])
        return "(((lambda (%s) (lambda () (lambda (k) (modulo (+ k %s %s) %d)))) %s))" % (" ".join(xs), i, " ".join(xs), M, " ".join(w[0] for w in vs)) and \
            "((((lambda (%s) (lambda () (lambda (k) (modulo (+ k %s %s) %d)))) %s)) 7)" % (" ".join(xs), i, " ".join(xs), M, " ".join(w[0] for w in vs)), (7 + v + sum(w[1] for w in vs)) % M

    def s_clauses(self, n, env, inner):
        n = max(1, min(n, 250))
        k = self.r.randrange(n + 3)
        order = list(range(n))
        if self.r.random() < 0.5:
            self.r.shuffle(order)
        x, v = inner(env)
        out = []
        for a in order:
            ids = ["c%d" % j for j in range(a)]
            out.append("[(%s) (+ %d %s)]" % (" ".join(ids), a, self.r.choice(ids) if ids and a != k else "c%d" % (a - 1) if ids else "0"))
        out.append("[(p . q) (+ 500 p (length q))]")
        args = [self.leaf(env) for _ in range(k)]
        if k == n and not n:
            return x, v
        if k < n:
            w = k + (args[k - 1][1] if k else 0)
        else:
            w = 500 + args[0][1] + k - 1
        return "(modulo (+ ((case-lambda %s)%s) %s) %d)" % (" ".join(out), "".join(" " + a[0] for a in args), x, M), (w + v) % M

    def s_params(self, n, env, inner):
        xs = [self.new() for _ in range(n)]
        vs = [self.leaf(env) for _ in range(n)]
        i, v = inner(env + [(x, w[1]) for x, w in zip(xs, vs)])
        f = self.new("f")
        return "(let-values ([(%s) (lambda (%s) (modulo (+ %s %s) %d))]) (%s %s))" % (f, " ".join(xs), i, " ".join(reversed(xs)), M, f, " ".join(w[0] for w in vs)), (v + sum(w[1] for w in vs)) % M

    def s_restargs(self, n, env, inner):
        vs = [self.leaf(env) for _ in range(n)]
        i, v = inner(env)
        return "(modulo (+ ((lambda (p . q) (apply + p q)) %s %s) %d) %d)" % (i, " ".join(w[0] for w in vs), n, M), (v + n + sum(w[1] for w in vs)) % M

    def s_quote(self, n, env, inner):
        vs = [self.r.randrange(100) for _ in range(n)]
        i, v = inner(env)
        k = self.r.randrange(3)
        if k == 0:
            return "(modulo (apply + %s '(%s)) %d)" % (i, " ".join(map(str, vs)), M), (v + sum(vs)) % M
        if k == 1:
            j = self.r.randrange(n) if n else 0
            return ("(modulo (+ %s (vector-ref '#(%s) %d)) %d)" % (i, " ".join(map(str, vs)), j, M), (v + vs[j]) % M) if n else (i, v)
        syms = " ".join("s%d" % w for w in vs)
        return "(modulo (+ %s (length '(a %s))) %d)" % (i, syms, M), (v + n + 1) % M

    def s_quotedeep(self, n, env, inner):
        n = min(n, 400)
        i, v = inner(env)
        d, w, acc = "5", "d", []
        for _ in range(n):
            k = self.r.randrange(3)
            d = ["(%s)", "(1 %s)", "#(%s)"][k] % d
            acc.append(k)
        body = "(if (vector? d) (go (vector-ref d 0) (+ k 1)) (if (pair? d) (if (null? (cdr d)) (go (car d) (+ k 2)) (go (car (cdr d)) (+ k 3))) (+ k d)))"
        return "(modulo (+ %s (letrec-values ([(go) (lambda (d k) %s)]) (go '%s 0))) %d)" % (i, body, d, M), (v + 5 + sum({0: 2, 1: 3, 2: 1}[k] for k in acc)) % M

    def s_strings(self, n, env, inner):
        i, v = inner(env)
        n = min(n, 3000)
        s = "".join(self.r.choice("abcdefghij \\n\\t(;|'"[0:]) for _ in range(n)).replace("\\", "\\\\")
        ln = len(s) - s.count("\\\\")
        return "(modulo (+ %s (string-length \"%s\")) %d)" % (i, s, M), (v + ln) % M

    def s_vals(self, n, env, inner):
        xs = [self.new() for _ in range(n)]
        vs = [self.leaf(env) for _ in range(n)]
        i, v = inner(env + [(x, w[1]) for x, w in zip(xs, vs)])
        vals = "(values %s)" % " ".join(w[0] for w in vs)
        k = self.r.randrange(4)
        if k == 0:
            vals = "(if #t %s (values))" % vals
        elif k == 1:
            vals = "(begin 1 %s)" % vals
        elif k == 2:
            return "(call-with-values (lambda () %s) (lambda xs (modulo (apply + %s xs) %d)))" % (vals, i if not set(x for x in xs if x in i.split()) and False else "0", M), sum(w[1] for w in vs) % M
        return "(let-values ([(%s) %s]) (modulo (+ %s %s) %d))" % (" ".join(xs), vals, i, " ".join(xs), M), (v + sum(w[1] for w in vs)) % M

    def s_args(self, n, env, inner):
        vs = [self.single(env) for _ in range(n)]
        i, v = inner(env)
        j = self.r.randrange(n + 1)
        a = [w[0] for w in vs]
        a.insert(j, i)
        return "(modulo (+ %s) %d)" % (" ".join(a), M), (v + sum(w[1] for w in vs)) % M

    def s_lambdas(self, n, env, inner):
        n = max(n, 1)
        i, v = inner(env)
        j = self.r.randrange(n)
        vs = [self.leaf(env) for _ in range(n)]
        return "(modulo (+ %s ((vector-ref (vector %s) %d) %d)) %d)" % (i, " ".join("(lambda (k) (+ k %s %d))" % (w[0], m) for m, w in enumerate(vs)), j, n, M), (v + n + vs[j][1] + j) % M

    def s_assigned(self, n, env, inner):
        xs = [self.new() for _ in range(n)]
        vs = [self.leaf(env) for _ in range(n)]
        i, v = inner(env)
        return "((lambda (%s) %s (modulo (+ %s %s) %d))%s)" % (" ".join(xs), " ".join("(set! %s (+ %s %d))" % (x, x, j % 7) for j, x in enumerate(xs)), i, " ".join(xs), M, "".join(" " + w[0] for w in vs)), \
            (v + sum(w[1] for w in vs) + sum(j % 7 for j in range(n))) % M

    def s_ifs(self, n, env, inner):
        i, v = inner(env)
        out, s = [], 0
        for _ in range(n):
            t, tv = self.test(env)
            a, b = self.leaf(env), self.leaf(env)
            out.append("(if %s %s %s)" % (t, a[0], b[0]))
            s += a[1] if tv else b[1]
        return "(modulo (+ %s %s) %d)" % (i, " ".join(out), M), (v + s) % M

    # ---- sequences of definitions: text of definitions, environment
    def t_defs(self, n, env):
        out = []
        for _ in range(n):
            x, i = self.new("g"), self.single(env)
            out.append("(define-values (%s) %s)" % (x, i[0]))
            env = env + [(x, i[1])]
        return out, env

    def t_fdefs(self, n, env):
        out, prev, s = [], None, 0
        for j in range(n):
            f = self.new("h")
            k = self.r.randrange(50)
            out.append("(define-values (%s) (lambda (z) %s))" % (f, "(%s (+ z %d))" % (prev, k) if prev else "(+ z %d)" % k))
            s += k
            prev = f
        if prev:
            x = self.new("g")
            out.append("(define-values (%s) (modulo (%s 1) %d))" % (x, prev, M))
            env = env + [(x, (s + 1) % M)]
        return out, env

    def t_mdefs(self, n, env):
        xs = [self.new("g") for _ in range(n)]
        vs = [self.leaf(env) for _ in range(n)]
        return ["(define-values (%s) (values%s))" % (" ".join(xs), "".join(" " + w[0] for w in vs))], env + [(x, w[1]) for x, w in zip(xs, vs)]

    def t_redef(self, n, env):
        x = self.new("g")
        out, v = ["(define-values (%s) 0)" % x], 0
        for _ in range(n):
            l = self.leaf(env)
            out.append(self.r.choice(["(set! %s (modulo (+ %s %s) %d))", "(define-values (%s) (modulo (+ %s %s) %d))", "(begin (set! %s (modulo (+ %s %s) %d)))"]) % (x, x, l[0], M))
            v = (v + l[1]) % M
        return out, env + [(x, v)]


def size(rng, name, deepest, tier):
    if name in DEEP:
        return min(deepest, rng.choice([1, 2, 5, 10, 25, 60, 110, 150]))
    return rng.choice([0, 1, 2, 3, 7, 8, 9, 20, 63, 64, 65, 100, 130, 257, 400]) if name in ("clauses", "letrecwide", "lambdas", "strings", "quotedeep") or rng.random() < 0.6 else rng.choice([500, 800, 1300] if tier == "quick" else [800, 1300, 2000, 3000])


def gen(rng, tier, i):
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.2:
            parts.append(["top", rng.choice(TOP), rng.choice([1, 2, 8, 30, 64, 100, 300]), rng.randrange(1 << 30)])
            continue
        shapes, left, wide = [], 150, 1600 if tier == "quick" else 4000
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            nm = rng.choice(DEEP if rng.random() < 0.6 else WIDE)
            n = size(rng, nm, left, tier)
            if nm in DEEP:
                left -= n
            else:
                n = min(n, wide)
                wide -= n
            shapes.append([nm, n])
        parts.append(["expr", rng.choice(["prog", "prog", "prog", "eval", "load", "define", "thunk"]), shapes, rng.randrange(1 << 30)])
    cfg = engine.rand_cfg(rng, allocs=60000, heavy=0.03)
    return {"parts": parts, "cfg": cfg}


def texts(case):
    """program text, loaded files, expected output, levels and parts"""
    out, files, exp = [], {}, []
    genv = []
    n = work = 0
    for j, p in enumerate(case["parts"]):
        b = B(random.Random(p[3]))
        b.k = 100000 * (j + 1)
        if p[0] == "top":
            t, genv2 = getattr(b, "t_" + p[1])(p[2], genv)
            out += t
            genv = genv2
            n = max(n, p[2])
            if genv:
                out.append("(begin (write (list %s)) (newline))" % " ".join(x for x, _ in genv[-200:]))
                exp.append("(%s)" % " ".join(str(v) for _, v in genv[-200:]))
            continue
        x, v = b.build(p[2], genv)
        n = max([n] + [s[1] for s in p[2]])
        exp.append(str(v))
        if p[1] == "prog":
            out.append("(begin (write %s) (newline))" % x)
        elif p[1] == "eval":
            out.append("(begin (write (eval '%s)) (newline))" % x)
        elif p[1] == "load":
            files["/w/l%d.min" % j] = "(define-values (l%d) %s)\n" % (j, x)
            out.append("(begin (load \"l%d.min\") (begin (write l%d) (newline)))" % (j, j))
        elif p[1] == "define":
            out.append("(define-values (d%d) %s)" % (j, x))
            out.append("(begin (write d%d) (newline))" % j)
        else:
            out.append("(define-values (d%d) (lambda () %s))" % (j, x))
            out.append("(begin (d%d) (begin (write (d%d)) (newline)))" % (j, j))
    return out, files, exp, n


def judge(case, run, info):
    out, files, exp, n = texts(case)
    text = "\n".join(out) + "\n"
    info["nontrivial"] = n >= 60
    size = len(text) + sum(len(f) for f in files.values())
    sc = dict(case["cfg"], files=dict(files, **{"/w/prog.min": text}))
    # at most quadratic, with a wide margin
    sc["limit"] = min(120000000, 1000000 + 200 * size + size * size // 40)
    sc["cpu"] = 30
    # the work, without any collection
    r = run.run("nolib", dict({k: v for k, v in sc.items() if k not in ("gc", "gcat", "stack")}), ok_ends=("exit", "limit"))
    if r["end"] != "exit":
        return [("work", "a program of %d bytes is not done after %s events" % (size, sc["limit"]))] if r["end"] == "limit" else []
    r = run.run("nolib", sc)
    v = []
    info["max"] = {"text_bytes": size, "levels_or_parts": n}
    if r["end"] != "exit":
        return []
    want = ("\n".join(exp) + "\n").encode()
    if r["code"] != 0:
        v.append(("exit-code", "exit code %s, stderr %r" % (r["code"], r["stderr"][:300])))
    elif r["stdout"] != want:
        v.append(("result", "results differ:\n got %r\n ref %r" % diff(r["stdout"], want)))
    return v


def simplify(case):
    import copy
    for k, p in enumerate(case["parts"]):
        if p[0] == "top":
            for m in (p[2] // 2, p[2] - 1):
                if m > 0:
                    c = copy.deepcopy(case)
                    c["parts"][k][2] = m
                    yield c
            continue
        for j in range(len(p[2])):
            if len(p[2]) > 1:
                c = copy.deepcopy(case)
                del c["parts"][k][2][j]
                yield c
            for m in (p[2][j][1] // 2, p[2][j][1] - 1):
                if m >= 0 and m < p[2][j][1]:
                    c = copy.deepcopy(case)
                    c["parts"][k][2][j][1] = m
                    yield c
        if p[1] != "prog":
            c = copy.deepcopy(case)
            c["parts"][k][1] = "prog"
            yield c

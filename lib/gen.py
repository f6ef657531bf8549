"""Random well-typed programs.  Types: int bool str sym char lst (list of ints)
any (nested datum) vec box ht and ("fn", (argtypes), ret).  Programs stay inside
the language the reference interpreter defines; evaluation order is observable
through (tick n)."""

PRELUDE_DEFS = [
    "(define-values (trace) '())",
    "(define-values (tick) (lambda (n) (begin (set! trace (cons n trace)) n)))",
]
MACROISH = ("if", "begin", "quote", "lambda", "case-lambda", "set!", "let-values", "letrec-values", "define-values", "quote-syntax",
            "values", "call-with-values", "apply", "void", "eval", "raise", "identity")
SHADOWABLE = ["list", "cons", "car", "cdr", "append", "length", "reverse", "map", "x", "vector", "box", "not", "add1", "string-append", "newline-ish", "abs"]
NAMECH = "abcdefghijklmnopqrstuvwxyz"
SYMS = ["a", "b", "foo", "bar-baz", "x1", "->y", "z!", "q?", "*s*", "lambda-ish"]
STRS = ["", "a", "hello", "tab\\tq", "q\\\"q", "two words", "line\\nbreak", "b\\\\s", "xyzzy", "0"]
CHARNAMES = ["#\\a", "#\\z", "#\\0", "#\\space", "#\\newline", "#\\tab", "#\\(", "#\\;", "#\\A"]


def fn(args, ret):
    return ("fn", tuple(args), ret)


class Gen:
    def __init__(self, rng, base=False, errors=False):
        self.r = rng
        self.base = base
        self.k = 0
        self.globals = []          # (name, type)
        self.budget = 0
        self.errors = errors
        self.loops = 0             # nesting of loops, limits work
        self.feat = {}

    def use(self, f):
        self.feat[f] = self.feat.get(f, 0) + 1

    def name(self, hint="v"):
        self.k += 1
        r = self.r.random()
        if r < 0.06:
            n = self.r.choice(SHADOWABLE)
            self.use("shadow")
            return n
        return "%s%d" % (hint, self.k)

    # environment: list of (name, type, kind) innermost last
    def vis(self, env):
        seen = set()
        out = []
        for n, t, k in reversed(env):
            if n not in seen:
                seen.add(n)
                out.append((n, t, k))
        for n, t in self.globals:
            if n not in seen:
                seen.add(n)
                out.append((n, t, "g"))
        return out

    def free(self, env, prim):
        """is the primitive's name not shadowed?"""
        return not any(n == prim for n, _, _ in env) and not any(n == prim for n, _ in self.globals)

    def P(self, env, *names):
        c = [n for n in names if self.free(env, n)]
        return self.r.choice(c) if c else None

    def vars(self, env, t):
        return [v for v in self.vis(env) if v[1] == t]

    def fns(self, env, ret):
        return [v for v in self.vis(env) if isinstance(v[1], tuple) and v[1][2] == ret]

    # ---- expressions
    def e(self, t, env, d):
        """expression of type t, depth budget d"""
        self.budget -= 1
        if d <= 0 or self.budget <= 0:
            return self.leaf(t, env)
        r = self.r
        k = r.random()
        if k < 0.16:
            v = self.vars(env, t)
            if v:
                return r.choice(v)[0]
        if k < 0.50:
            x = self.generic(t, env, d)
            if x:
                return x
        x = self.specific(t, env, d)
        return x if x else self.leaf(t, env)

    def leaf(self, t, env):
        v = self.vars(env, t)
        if v and self.r.random() < 0.6:
            return self.r.choice(v)[0]
        return self.literal(t, env)

    def num(self):
        r = self.r
        k = r.random()
        if k < 0.6:
            return r.randrange(-9, 30)
        if k < 0.9:
            return r.randrange(-10000, 10000)
        return r.choice([2**31, -2**31 - 1, 2**62, -2**62, 2**63 - 1, -2**63 + 1, 255, 256, 4096, 65535])

    def datum(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.45:
            return r.choice([lambda: str(self.num()), lambda: r.choice(SYMS), lambda: '"%s"' % r.choice(STRS), lambda: r.choice(CHARNAMES),
                             lambda: r.choice(["#t", "#f"]), lambda: "()"])()
        if k < 0.7:
            return "(" + " ".join(self.datum(d - 1) for _ in range(r.randrange(1, 4))) + ")"
        if k < 0.85:
            return "(" + self.datum(d - 1) + " . " + self.datum(d - 1) + ")"
        return "#(" + " ".join(self.datum(d - 1) for _ in range(r.randrange(0, 4))) + ")"

    def literal(self, t, env):
        r = self.r
        if t == "int":
            return str(self.num())
        if t == "bool":
            return r.choice(["#t", "#f"])
        if t == "str":
            return '(string-append "%s" "%s")' % (r.choice(STRS), r.choice(STRS)) if self.free(env, "string-append") else '"%s"' % r.choice(STRS)
        if t == "sym":
            return "'" + r.choice(SYMS)
        if t == "char":
            return r.choice(CHARNAMES)
        if t == "lst":
            return "'(" + " ".join(str(self.num()) for _ in range(r.randrange(0, 5))) + ")"
        if t == "any":
            return "'" + self.datum(2)
        if t == "vec":
            p = self.P(env, "make-vector")
            return "(make-vector %d %d)" % (r.randrange(1, 6), self.num()) if p else "'#(1 2)"
        if t == "box":
            return "(box %d)" % self.num() if self.free(env, "box") else "((lambda args (apply %s args)) 1)" % "vector->box"
        if t == "ht":
            return "(make-eq-hashtable)" if r.random() < 0.5 else "(make-hashtable)"
        if isinstance(t, tuple):
            return self.lam(t, env, 1)
        raise KeyError(t)

    def call_args(self, argts, env, d):
        return "".join(" " + self.e(a, env, d - 1) for a in argts)

    def generic(self, t, env, d):
        r = self.r
        k = r.randrange(16)
        if k <= 1:
            self.use("if")
            return "(if %s %s %s)" % (self.e("bool", env, d - 1), self.e(t, env, d - 1), self.e(t, env, d - 1))
        if k <= 4:
            fs = self.fns(env, t)
            if not fs:
                return None
            f = r.choice(fs)
            self.use("call")
            if r.random() < 0.12:
                self.use("apply")
                args = f[1][1]
                if args and self.free(env, "list"):
                    cut = r.randrange(len(args) + 1)
                    return "(apply %s%s (list%s))" % (f[0], self.call_args(args[:cut], env, d), self.call_args(args[cut:], env, d))
            return "(%s%s)" % (f[0], self.call_args(f[1][1], env, d))
        if k == 5:
            self.use("let")
            n = r.randrange(1, 4)
            bs, new = [], []
            for _ in range(n):
                if r.random() < 0.2:
                    self.use("let-mv")
                    a, b = self.name(), self.name()
                    while b == a:
                        b = self.name()
                    ta, tb = self.rtype(), self.rtype()
                    bs.append("[(%s %s) %s]" % (a, b, self.mv([ta, tb], env, d - 1)))
                    new += [(a, ta, "l"), (b, tb, "l")]
                else:
                    a, ta = self.name(), self.rtype(fnp=0.25)
                    bs.append("[(%s) %s]" % (a, self.e(ta, env, d - 1)))
                    new.append((a, ta, "l"))
            if len({x[0] for x in new}) < len(new):
                return None
            return "(let-values (%s) %s)" % (" ".join(bs), self.body(t, env + new, d - 1))
        if k == 6:
            self.use("immediate-lambda")
            n = r.randrange(0, 3)
            ts = [self.rtype(fnp=0.15) for _ in range(n)]
            ns = self.names(n)
            return "((lambda (%s) %s)%s)" % (" ".join(ns), self.body(t, env + [(a, b, "l") for a, b in zip(ns, ts)], d - 1), self.call_args(ts, env, d))
        if k == 7:
            self.use("begin")
            if r.random() < 0.15:
                self.use("ignored-values")
                return "(begin %s %s)" % (self.mv([self.rtype() for _ in range(r.randrange(0, 4))], env, d - 1), self.e(t, env, d - 1))
            return "(begin %s %s)" % (self.effect(env, d - 1), self.e(t, env, d - 1))
        if k == 8:
            self.use("cwv")
            n = r.randrange(0, 4)
            ts = [self.rtype() for _ in range(n)]
            ns = self.names(n)
            if r.random() < 0.3:
                # rest parameter collects the remaining values
                m = r.randrange(0, 4)
                ts = ts + ["int"] * m
                rest = self.names(n + 1)
                return "(call-with-values (lambda () %s) (lambda (%s) %s))" % (
                    self.mv(ts, env, d - 1), " ".join(rest[:n]) + " . " + rest[n] if n else "x . rs",
                    self.e(t, env + [(a, b, "l") for a, b in zip(rest[:n], ts)] + [(rest[n], "lst", "l")], d - 1)) if n else None
            prod = "(lambda () %s)" % self.mv(ts, env, d - 1)
            cons = "(lambda (%s) %s)" % (" ".join(ns), self.e(t, env + [(a, b, "l") for a, b in zip(ns, ts)], d - 1))
            if r.random() < 0.3:
                # operands that have to be computed first
                self.use("cwv-operands")
                prod, cons = self.computed(prod, env, d), self.computed(cons, env, d)
            return "(call-with-values %s %s)" % (prod, cons)
        if k == 9:
            # mutual recursion with a bounded counter
            if self.loops >= 2:
                return None
            self.use("letrec")
            self.loops += 1
            f, g, n = self.names(3)
            body_t = t
            e2 = env + [(f, fn(["cnt"], t), "l"), (g, fn(["cnt"], t), "l")]
            x = "(letrec-values ([(%s) (lambda (%s) (if (< %s 1) %s (%s (- %s 1))))] [(%s) (lambda (%s) (if (< %s 1) %s %s))]) (%s %d))" % (
                f, n, n, self.e(body_t, env + [(n, "int", "l")], d - 2), g, n,
                g, n, n, self.e(body_t, env + [(n, "int", "l")], d - 2),
                self.wrapcall(t, "(%s (- %s 1))" % (f, n), env + [(n, "int", "l")], d - 2), f, r.randrange(0, 12))
            self.loops -= 1
            if not (self.free(env, "<") and self.free(env, "-")):
                return None
            return x
        if k == 10:
            self.use("case-lambda")
            a, b, c, rest = self.names(4)
            t1 = self.rtype()
            cl = ["[(%s) %s]" % (a, self.e(t, env + [(a, t1, "l")], d - 2)),
                  "[(%s %s) %s]" % (a, b, self.e(t, env + [(a, t1, "l"), (b, "int", "l")], d - 2)),
                  "[(%s %s . %s) %s]" % (a, b, rest, self.e(t, env + [(a, t1, "l"), (b, "int", "l"), (rest, "lst", "l")], d - 2))]
            n = r.randrange(1, 6)
            args = [self.e(t1, env, d - 2)] + [self.e("int", env, d - 2) for _ in range(n - 1)]
            return "((case-lambda %s) %s)" % (" ".join(cl), " ".join(args))
        if k == 11:
            self.use("set-local")
            v = self.name()
            e2 = env + [(v, t, "m")]
            return "(let-values ([(%s) %s]) (begin (set! %s %s) %s))" % (v, self.e(t, env, d - 1), v, self.e(t, e2, d - 1), self.e(t, e2, d - 1))
        if k == 12:
            self.use("rest-lambda")
            ns = self.names(2)
            n = r.randrange(0, 5)
            return "((lambda (%s . %s) %s) %s)" % (ns[0], ns[1], self.e(t, env + [(ns[0], "int", "l"), (ns[1], "lst", "l")], d - 1),
                                                  " ".join(self.e("int", env, d - 2) for _ in range(n + 1)))
        if k == 13 and self.free(env, "eval") and d >= 2 and r.random() < 0.4:
            self.use("eval")
            save = self.k
            x = self.e(t, [], min(d - 1, 2))
            return "(eval '%s)" % x
        if k == 14 and self.base:
            return self.base_form(t, env, d)
        if k == 15:
            # first-class choice of procedure
            self.use("computed-operator")
            a = [self.rtype() for _ in range(r.randrange(0, 3))]
            ft = fn(a, t)
            return "((if %s %s %s)%s)" % (self.e("bool", env, d - 1), self.e(ft, env, d - 2), self.e(ft, env, d - 2), self.call_args(a, env, d - 1))
        return None

    def computed(self, f, env, d):
        r = self.r
        k = r.randrange(5)
        if k == 0:
            return f
        if k == 1:
            a = self.name("p")
            return "(let-values ([(%s) %s]) (begin %s %s))" % (a, f, self.effect(env + [(a, "fnx", "f")], d - 2), a)
        if k == 2:
            return "(begin %s %s)" % (self.effect(env, d - 2), f)
        if k == 3 and self.free(env, "identity"):
            return "(identity %s)" % f
        return "(if %s %s %s)" % (self.e("bool", env, d - 2), f, f) if len(f) < 200 else f

    def wrapcall(self, t, call, env, d):
        """use the result of a non-tail call"""
        if t == "int" and self.free(env, "+"):
            return "(+ %s %s)" % (self.e("int", env, d), call)
        if t == "lst" and self.free(env, "cons"):
            return "(cons %s %s)" % (self.e("int", env, d), call)
        if t == "any" and self.free(env, "list"):
            return "(list %s %s)" % (self.e("any", env, d), call)
        if t == "str" and self.free(env, "string-append"):
            return "(string-append %s %s)" % (self.e("str", env, d), call)
        if t == "bool" and self.free(env, "not"):
            return "(not %s)" % call
        return call

    def names(self, n):
        out = []
        while len(out) < n:
            a = self.name()
            if a not in out:
                out.append(a)
        return out

    def rtype(self, fnp=0.0):
        r = self.r
        if r.random() < fnp:
            return fn([self.rtype() for _ in range(r.randrange(0, 3))], self.rtype())
        return r.choice(["int", "int", "int", "bool", "str", "sym", "char", "lst", "lst", "any", "any", "vec", "box"])

    def mv(self, ts, env, d):
        k = self.r.random()
        if k < 0.15 and d > 0:
            return "(if %s %s %s)" % (self.e("bool", env, d - 1), self.mv(ts, env, d - 1), self.mv(ts, env, d - 1))
        if k < 0.3:
            return "(begin %s %s)" % (self.effect(env, d - 1), self.mv(ts, env, d - 1))
        if k < 0.36:
            a, b = self.names(2)
            ta, tb = self.rtype(), self.rtype()
            return "(let-values ([(%s) %s] [(%s) %s]) %s)" % (a, self.e(ta, env, d - 1), b, self.e(tb, env, d - 1),
                                                             self.mv(ts, env + [(a, ta, "l"), (b, tb, "l")], d - 1))
        if k < 0.4 and d > 1:
            n = self.names(len(ts))
            return "(call-with-values (lambda () %s) (lambda (%s) %s))" % (self.mv(ts, env, d - 1), " ".join(n), self.mv(ts, env + [(a, b, "l") for a, b in zip(n, ts)], d - 1))
        if k < 0.46:
            a = self.name()
            return "((lambda (%s) %s) %s)" % (a, self.mv(ts, env + [(a, "int", "l")], d - 1), self.e("int", env, d - 1))
        return "(values%s)" % self.call_args(ts, env, d)

    def body(self, t, env, d):
        if self.r.random() < 0.25:
            return "%s %s" % (self.effect(env, d - 1), self.e(t, env, d))
        return self.e(t, env, d)

    def effect(self, env, d):
        r = self.r
        k = r.randrange(9)
        vs = self.vis(env)
        if k <= 1:
            m = [v for v in vs if v[2] == "m" or v[2] == "l"]
            if m:
                v = r.choice(m)
                self.use("set!")
                return "(set! %s %s)" % (v[0], self.e(v[1], env, d - 1)) if not isinstance(v[1], tuple) and v[1] != "cnt" else "(tick 1)"
        if k == 2:
            g = [v for v in vs if v[2] == "g" and not isinstance(v[1], tuple)]
            if g:
                v = r.choice(g)
                self.use("set-global")
                return "(set! %s %s)" % (v[0], self.e(v[1], env, d - 1))
        if k == 3:
            v = self.vars(env, "vec")
            if v and self.free(env, "vector-set!") and self.free(env, "vector-length"):
                v = r.choice(v)[0]
                return "(if (> (vector-length %s) 0) (vector-set! %s (modulo %s (vector-length %s)) %s) (tick 0))" % (v, v, self.e("int", env, d - 1), v, self.e(r.choice(["int", "any"]), env, d - 1))
        if k == 4:
            v = self.vars(env, "box")
            if v:
                return "(set-box! %s %s)" % (r.choice(v)[0], self.e(r.choice(["int", "any"]), env, d - 1))
        if k == 5:
            v = self.vars(env, "ht")
            if v:
                return "(hashtable-set! %s %s %s)" % (r.choice(v)[0], self.e(r.choice(["int", "sym", "str"]), env, d - 1), self.e("any", env, d - 1))
        if k == 6:
            v = self.vars(env, "str")
            if v and self.free(env, "string-length"):
                v = r.choice(v)[0]
                # literal strings may be shared: only touch fresh copies
                return "(let-values ([(fresh-s) (string-append %s \"!\")]) (string-set! fresh-s 0 %s))" % (v, self.e("char", env, 0)) if self.free(env, "string-append") else "(tick 6)"
        if k == 7 and self.free(env, "for-each"):
            x = self.name()
            return "(for-each (lambda (%s) (tick %s)) %s)" % (x, self.e("int", env + [(x, "int", "l")], d - 2), self.e("lst", env, d - 2))
        return "(tick %s)" % self.e("int", env, d - 1)

    def lam(self, t, env, d):
        ns = self.names(len(t[1]))
        e2 = env + [(a, b, "l") for a, b in zip(ns, t[1])]
        if self.r.random() < 0.12:
            self.use("case-lambda-value")
            other = self.names(len(t[1]) + 1)
            e3 = env + [(a, b, "l") for a, b in zip(other, list(t[1]) + ["any"])]
            cl = ["[(%s) %s]" % (" ".join(ns), self.e(t[2], e2, d - 1)), "[(%s) %s]" % (" ".join(other), self.e(t[2], e3, d - 2))]
            if self.r.random() < 0.5:
                cl.reverse()
            return "(case-lambda %s)" % " ".join(cl)
        if self.r.random() < 0.2:
            self.use("counter-closure")
            c = self.name("c")
            e3 = env + [(c, "int", "m")]
            if c not in ns and self.free(e3 + e2, "+"):
                return "(let-values ([(%s) %s]) (lambda (%s) (set! %s (+ %s 1)) %s))" % (c, self.e("int", env, d - 2), " ".join(ns), c, c, self.e(t[2], e3 + e2[len(env):], d - 1))
        return "(lambda (%s) %s)" % (" ".join(ns), self.body(t[2], e2, d - 1))

    def specific(self, t, env, d):
        r = self.r
        E = lambda ty: self.e(ty, env, d - 1)
        F = lambda *p: all(self.free(env, q) for q in p)
        if isinstance(t, tuple):
            return self.lam(t, env, d)
        opts = []

        def o(cond, f, w=1):
            if cond:
                opts.extend([f] * w)
        if t == "int":
            o(F("+"), lambda: "(+ %s %s)" % (E("int"), E("int")), 2)
            o(F("-"), lambda: "(- %s %s)" % (E("int"), E("int")))
            o(F("*"), lambda: "(* %s %s)" % (E("int"), E("int")))
            o(F("+"), lambda: "(+ %s)" % " ".join(E("int") for _ in range(r.randrange(3, 7))))
            o(F("-"), lambda: "(- %s)" % " ".join(E("int") for _ in range(r.randrange(1, 4))))
            o(F("*"), lambda: "(* %s %s %s)" % (E("int"), E("int"), E("int")))
            o(F("/"), lambda: "(/ %s %d)" % (E("int"), r.choice([1, 2, 3, 7, -3, 10])))
            o(F("modulo"), lambda: "(modulo %s %d)" % (E("int"), r.choice([2, 3, 5, -4, 13])))
            o(F("remainder"), lambda: "(remainder %s %d)" % (E("int"), r.choice([2, 3, 5, -4, 13])))
            o(F("add1"), lambda: "(%s %s)" % (r.choice(["add1", "sub1"]), E("int")))
            o(F("length"), lambda: "(length %s)" % E("lst"))
            o(True, lambda: "(tick %s)" % E("int"), 2)
            o(F("string-length"), lambda: "(string-length %s)" % E("str"))
            o(F("vector-length"), lambda: "(vector-length %s)" % E("vec"))
            o(F("char->integer"), lambda: "(char->integer %s)" % E("char"))
            o(F("apply", "+"), lambda: "(apply %s %s)" % (r.choice(["+", "*", "+"]), E("lst")))
            o(F("apply", "+", "-", "*", "list"), lambda: "(apply %s %s '(%s))" % (r.choice(["+", "-", "*", "(lambda (p . q) (apply - p q))", "(lambda args (apply - args))"]), " ".join(self.e("int", env, d - 2) for _ in range(r.choice([1, 2, 4, 6, 9]))), " ".join(str(r.randrange(-9, 99)) for _ in range(r.choice([0, 1, 3, 12])))))
            o(F("fold"), lambda: self.fold(env, d))
            o(F("car", "null?"), lambda: self.safecar(env, d))
            o(F("unbox", "integer?"), lambda: self.asint("(unbox %s)" % E("box"), env))
            o(F("vector-ref", "integer?", "vector-length", "="), lambda: self.safevref(env, d))
            o(F("call-with-values", "values"), lambda: "(call-with-values (lambda () (values %s %s)) %s)" % (E("int"), E("int"), r.choice(["+", "-", "*", "(lambda (p q) (- q p))", "(lambda args (length args))" if F("length") else "+"])))
            if self.vars(env, "ht"):
                h = r.choice(self.vars(env, "ht"))[0]
                o(True, lambda: "(hashtable-size %s)" % h, 2)
                o(True, lambda: "(let-values ([(hv) (hashtable-ref %s %s %s)]) (if (integer? hv) hv -1))" % (h, E(r.choice(["int", "sym", "str"])), E("int")), 2)
        elif t == "bool":
            op = r.choice(["=", "<", ">", "<=", ">="])
            o(F(op), lambda: "(%s %s %s)" % (op, E("int"), E("int")), 3)
            o(F(op), lambda: "(%s %s %s %s)" % (op, E("int"), E("int"), E("int")))
            o(F("not"), lambda: "(not %s)" % E("bool"))
            o(True, lambda: "(eq? %s %s)" % (E("sym"), E("sym")))
            o(True, lambda: "(equal? %s %s)" % (lambda ty: (E(ty), E(ty)))(r.choice(["any", "lst", "str", "vec", "box", "char"])), 2)
            o(True, lambda: "(%s %s)" % (r.choice(["null?", "pair?", "list?", "vector?", "string?", "symbol?", "integer?", "boolean?", "char?", "procedure?", "box?", "void?"]), E("any")))
            o(F("andmap"), lambda: self.mappred(env, d))
            o(F("zero?"), lambda: "(%s %s)" % (r.choice(["zero?", "positive?", "negative?"]), E("int")))
            if self.vars(env, "ht"):
                o(True, lambda: "(hashtable-contains? %s %s)" % (r.choice(self.vars(env, "ht"))[0], E(r.choice(["int", "sym", "str"]))))
        elif t == "str":
            o(F("string-append"), lambda: "(string-append %s)" % " ".join(E("str") for _ in range(r.randrange(2, 4))), 2)
            o(F("number->string"), lambda: "(number->string %s)" % E("int"))
            o(F("symbol->string"), lambda: "(string-append (symbol->string %s) \"\")" % E("sym"))
            o(F("make-string"), lambda: "(make-string %d %s)" % (r.randrange(0, 9), E("char")))
            o(F("string"), lambda: "(string %s %s)" % (E("char"), E("char")))
            o(F("list->string", "string->list", "reverse"), lambda: "(list->string (reverse (string->list %s)))" % E("str"))
            o(F("format"), lambda: "(format \"%s\" %s %s)" % (r.choice(["~a ~s", "<~s|~a>", "~~~a~%~s", "~a~a"]), E(self.rtype()), E("any")))
            o(True, lambda: self.strport(env, d))
        elif t == "sym":
            o(F("string->symbol", "string-append"), lambda: "(string->symbol (string-append \"s\" (number->string (modulo %s 7))))" % E("int"))
        elif t == "char":
            o(F("string-ref"), lambda: "(string-ref (string-append %s \"z\") 0)" % E("str"))
            o(F("integer->char"), lambda: "(integer->char (+ 33 (modulo %s 60)))" % E("int"))
        elif t == "lst":
            o(F("list"), lambda: "(list %s)" % " ".join(E("int") for _ in range(r.randrange(0, 5))), 2)
            o(F("cons"), lambda: "(cons %s %s)" % (E("int"), E("lst")), 2)
            o(F("append"), lambda: "(append %s)" % " ".join(E("lst") for _ in range(r.randrange(1, 4))))
            o(F("reverse"), lambda: "(reverse %s)" % E("lst"))
            o(F("map"), lambda: self.mapx(env, d), 3)
            o(F("map"), lambda: self.map2(env, d))
            o(F("iota"), lambda: "(iota %d)" % r.randrange(0, 9))
            o(F("cdr"), lambda: (lambda v: "(let-values ([(%s) %s]) (if (null? %s) %s (cdr %s)))" % (v, E("lst"), v, E("lst"), v))("w%d" % self.nk()))
            o(F("make-list"), lambda: "(make-list %d %s)" % (r.randrange(0, 5), E("int")))
            o(True, lambda: self.build(env, d))
            o(F("vector->list"), lambda: "(vector->list (vector %s %s))" % (E("int"), E("int")) if F("vector") else "'()")
        elif t == "any":
            ty = self.rtype()
            o(F("cons"), lambda: "(cons %s %s)" % (E(self.rtype()), E(self.rtype())), 2)
            o(F("list"), lambda: "(list %s)" % " ".join(E(self.rtype()) for _ in range(r.randrange(0, 4))), 2)
            o(F("vector"), lambda: "(vector %s)" % " ".join(E(self.rtype()) for _ in range(r.randrange(0, 4))))
            o(ty != "box", lambda: E(ty), 2)
            o(F("map"), lambda: self.mapany(env, d))
            o(F("enumerate"), lambda: "(enumerate %s)" % E("lst"))
            if self.vars(env, "ht"):
                o(True, lambda: "(hashtable-ref %s %s (lambda () %s))" % (r.choice(self.vars(env, "ht"))[0], E(r.choice(["int", "sym", "str"])), E("any")), 2)
        elif t == "vec":
            o(F("vector"), lambda: "(vector %s)" % " ".join(E(r.choice(["int", "any"])) for _ in range(r.randrange(0, 4))), 2)
            o(F("list->vector"), lambda: "(list->vector %s)" % E("lst"))
            o(F("make-vector"), lambda: "(make-vector %d %s)" % (r.randrange(0, 5), E("any")))
        elif t == "box":
            o(F("box"), lambda: "(box %s)" % E(r.choice(["int", "any", "lst"])))
        elif t == "ht":
            pass
        if not opts:
            return None
        return r.choice(opts)()

    def nk(self):
        self.k += 1
        return self.k

    def fold(self, env, d):
        a, x, l, lp = ["w%d" % self.nk() for _ in range(4)]
        self.use("loop")
        e2 = env + [(a, "int", "l"), (x, "int", "l")]
        return "(letrec-values ([(%s) (lambda (%s %s) (if (null? %s) %s (let-values ([(%s) (car %s)]) (%s (cdr %s) %s))))]) (%s %s %s))" % (
            lp, l, a, l, a, x, l, lp, l, self.e("int", e2, d - 2), lp, self.e("lst", env, d - 2), self.e("int", env, d - 2))

    def build(self, env, d):
        i, lp, acc = ["w%d" % self.nk() for _ in range(3)]
        self.use("loop")
        if not all(self.free(env, q) for q in ("=", "-", "cons")):
            return "'()"
        return "(letrec-values ([(%s) (lambda (%s %s) (if (= %s 0) %s (%s (- %s 1) (cons %s %s))))]) (%s %d '()))" % (
            lp, i, acc, i, acc, lp, i, self.e("int", env + [(i, "int", "l")], d - 2), acc, lp, self.r.randrange(0, 10))

    def safecar(self, env, d):
        v = "w%d" % self.nk()
        return "(let-values ([(%s) %s]) (if (null? %s) %s (car %s)))" % (v, self.e("lst", env, d - 1), v, self.e("int", env, d - 1), v)

    def asint(self, x, env):
        v = "w%d" % self.nk()
        return "(let-values ([(%s) %s]) (if (integer? %s) %s -1))" % (v, x, v, v)

    def safevref(self, env, d):
        v = "w%d" % self.nk()
        return self.asint("(let-values ([(%s) %s]) (if (= (vector-length %s) 0) 0 (vector-ref %s (modulo %s (vector-length %s)))))" % (v, self.e("vec", env, d - 1), v, v, self.e("int", env + [(v, "vec", "l")], d - 1), v), env)

    def mappred(self, env, d):
        x = self.name()
        return "(%s (lambda (%s) %s) %s)" % (self.r.choice(["andmap", "ormap"]), x, self.e("bool", env + [(x, "int", "l")], d - 1), self.e("lst", env, d - 1))

    def mapx(self, env, d):
        x = self.name()
        fs = [f for f in self.fns(env, "int") if f[1][1] == ("int",)]
        if fs and self.r.random() < 0.4:
            return "(map %s %s)" % (self.r.choice(fs)[0], self.e("lst", env, d - 1))
        return "(map (lambda (%s) %s) %s)" % (x, self.e("int", env + [(x, "int", "l")], d - 1), self.e("lst", env, d - 1))

    def map2(self, env, d):
        x, y = self.names(2)
        n = self.r.randrange(0, 4)
        if not self.free(env, "list"):
            return "'()"
        return "(map (lambda (%s %s) %s) (list%s) (list%s))" % (x, y, self.e("int", env + [(x, "int", "l"), (y, "int", "l")], d - 1),
                                                             self.call_args(["int"] * n, env, d), self.call_args(["int"] * n, env, d))

    def mapany(self, env, d):
        x = self.name()
        return "(map (lambda (%s) %s) %s)" % (x, self.e("any", env + [(x, "int", "l")], d - 1), self.e("lst", env, d - 1))

    def strport(self, env, d):
        p = "w%d" % self.nk()
        self.use("string-port")
        e2 = env
        return "(let-values ([(%s) (open-output-string)]) (begin (write %s %s) (display %s %s) (get-output-string %s)))" % (
            p, self.e("any", e2, d - 1), p, self.e(self.rtype(), e2, d - 2), p, p)

    # ---- derived forms
    def base_form(self, t, env, d):
        r = self.r
        k = r.randrange(10)
        E = lambda ty, e2=None: self.e(ty, env if e2 is None else e2, d - 1)
        if any(not self.free(env, q) for q in ("let", "cond", "and", "or", "do", "case", "when", "unless", "define", "let*", "letrec", "list", "map", "vector")):
            return None
        if k == 0:
            ns = self.names(2)
            ts = [self.rtype(), self.rtype()]
            self.use("let-form")
            return "(let ([%s %s] [%s %s]) %s)" % (ns[0], E(ts[0]), ns[1], E(ts[1]), self.e(t, env + [(ns[0], ts[0], "l"), (ns[1], ts[1], "l")], d - 1))
        if k == 1:
            ns = self.names(2)
            ts = [self.rtype(), self.rtype()]
            self.use("let*")
            e1 = env + [(ns[0], ts[0], "l")]
            return "(let* ([%s %s] [%s %s]) %s)" % (ns[0], E(ts[0]), ns[1], E(ts[1], e1), self.e(t, e1 + [(ns[1], ts[1], "l")], d - 1))
        if k == 2:
            self.use("cond")
            return "(cond [%s %s] [%s %s %s] [else %s])" % (E("bool"), E(t), E("bool"), self.effect(env, d - 1), E(t), E(t))
        if k == 3 and t == "bool":
            self.use("and-or")
            return "(%s %s)" % (r.choice(["and", "or"]), " ".join(E("bool") for _ in range(r.randrange(0, 4))))
        if k == 4:
            self.use("named-let")
            lp, i = self.names(2)
            acc = "w%d" % self.nk()
            if not (self.free(env, "=") and self.free(env, "-")):
                return None
            return "(let %s ([%s %d] [%s %s]) (if (= %s 0) %s (%s (- %s 1) %s)))" % (
                lp, i, r.randrange(0, 8), acc, E(t), i, acc, lp, i, self.e(t, env + [(i, "int", "l"), (acc, t, "l")], d - 2))
        if k == 5:
            self.use("do")
            i = "w%d" % self.nk()
            acc = "w%d" % self.nk()
            if not (self.free(env, "=") and self.free(env, "+")):
                return None
            e2 = env + [(i, "int", "l"), (acc, t, "l")]
            return "(do ([%s 0 (+ %s 1)] [%s %s %s]) ((= %s %d) %s) %s)" % (i, i, acc, E(t), self.e(t, e2, d - 2), i, r.randrange(0, 6), acc, self.effect(e2, d - 2))
        if k == 6:
            self.use("case")
            return "(case (modulo %s 4) [(0 1) %s] [(2) %s] [else %s])" % (E("int"), E(t), E(t), E(t))
        if k == 7:
            self.use("internal-define")
            ns = self.names(2)
            ty = self.rtype()
            return "(let () (define %s %s) (define (%s z) %s) (%s 1))" % (
                ns[0], E(ty), ns[1], self.e(t, env + [(ns[0], ty, "l"), ("z", "int", "l")], d - 2), ns[1]) if len(set(ns)) == 2 else None
        if k == 8:
            self.use("when")
            return "(begin (%s %s %s) %s)" % (r.choice(["when", "unless"]), E("bool"), self.effect(env, d - 1), E(t))
        if k == 9:
            self.use("letrec-form")
            f = self.name()
            return "(letrec ([%s (lambda (q) (if (< q 1) %s (%s (- q 1))))]) (%s %d))" % (f, self.e(t, env + [("q", "int", "l")], d - 2), f, f, r.randrange(0, 9)) if self.free(env, "<") and self.free(env, "-") and f != "q" else None
        return None

    # ---- programs
    def program(self, nitems=10, depth=4, budget=60):
        items = []
        r = self.r
        if self.base:
            items.append('(import "../minim/src/library/base.min")')
        items += PRELUDE_DEFS
        for _ in range(nitems):
            self.budget = r.randrange(8, budget)
            d = r.randrange(2, depth + 1)
            k = r.random()
            if k < 0.22:
                n = "g%d" % self.nk()
                t = self.rtype() if r.random() > 0.1 else "ht"
                items.append("(define-values (%s) %s)" % (n, self.e(t, [], d)))
                self.globals.append((n, t))
            elif k < 0.42:
                n = "f%d" % self.nk()
                t = fn([self.rtype(fnp=0.15) for _ in range(r.randrange(0, 4))], self.rtype(fnp=0.08))
                if self.base and r.random() < 0.5:
                    ns = self.names(len(t[1]))
                    items.append("(define (%s) %s)" % (" ".join([n] + ns), self.e(t[2], [(a, b, "l") for a, b in zip(ns, t[1])], d)))
                else:
                    items.append("(define-values (%s) %s)" % (n, self.lam(t, [], d)))
                self.globals.append((n, t))
            elif k < 0.50:
                # recursive global with an explicit fuel argument
                n = "r%d" % self.nk()
                t = r.choice(["int", "lst", "any", "str"])
                a = "w%d" % self.nk()
                body = "(if (< n 1) %s %s)" % (self.e(t, [("n", "int", "l"), (a, "int", "l")], d - 1),
                                               self.wrapcall(t, "(%s (- n 1) %s)" % (n, self.e("int", [("n", "int", "l"), (a, "int", "l")], d - 2)), [("n", "int", "l"), (a, "int", "l")], d - 2))
                items.append("(define-values (%s) (lambda (n %s) %s))" % (n, a, body))
                items.append("(begin (write (%s %d %s)) (newline))" % (n, r.choice([3, 10, 30, 100]) if t != "any" else 8, self.e("int", [], 1)))
            elif k < 0.56:
                n1, n2 = "m%d" % self.nk(), "m%d" % self.nk()
                t1, t2 = self.rtype(), self.rtype()
                items.append("(define-values (%s %s) %s)" % (n1, n2, self.mv([t1, t2], [], d)))
                self.globals += [(n1, t1), (n2, t2)]
            elif k < 0.62:
                g = [v for v in self.globals]
                if g:
                    n, t = r.choice(g)
                    self.use("redefine")
                    items.append("(%s %s)" % ("set! " + n if r.random() < 0.5 else "define-values (%s)" % n, self.e(t, [], d) if not isinstance(t, tuple) else self.lam(t, [], d)))
            elif k < 0.68:
                items.append(self.effect([], d))
            else:
                items.append("(begin (write %s) (newline))" % self.e(self.rtype(), [], d))
        items.append("(begin (write trace) (newline))")
        return items

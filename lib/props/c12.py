"""C12: the data procedures. Histories of operations on a pool of shared objects;
the reference performs the same operations, and every result, every alias and
every report of misuse must agree, whatever the heap does."""
import engine, scheme, script
from scheme import Pair, Vec, Box, MStr, Char, Sym, NIL, VOID, Stx, Exn, sym, to_list, from_list, is_list, Unsupported, show

ID = "C12"
TITLE = "Data operations return their defined results and change nothing else"
LEVEL = "exploration"
QUICK, THOROUGH = 700, 30000
RULE = ("seeded histories of about 60 operations (construction, selection, conversion, mutation, comparison, misuse) over a pool of shared "
        "pairs, lists, vectors, strings, symbols, characters, numbers, boxes, syntax and exception objects, with a heap schedule; the reference performs the "
        "same history; the whole pool is printed again and again; non-trivial: at least 5 mutations and 20 different procedures")
REAL, STUB = engine.REAL_CORE, engine.STUB_CORE
ASSUMPTIONS = ["the reference interpreter (lib/scheme.py) defines the procedures", "characters are limited to 1..127; numbers wrap at 64 bits", "printing is compared for trees of at most 250 nodes"]

NV = 12
CXR = []
_p = ["a", "d"]
for _ in range(3):
    _p = [c + q for c in "ad" for q in _p]
    CXR += _p
CXR = ["a", "d"] + CXR
WORDS = ["a", "b", "foo", "bar-baz", "x1", "->y", "z!", "q?"]


def size(v, lim=400):
    n, st = 0, [v]
    while st:
        x = st.pop()
        n += 1
        if n > lim:
            return n
        t = type(x)
        if t is Pair:
            st += [x.car, x.cdr]
        elif t is Vec:
            n += len(x.v) if len(x.v) > lim else 0
            st += x.v
        elif t is Box:
            st.append(x.v)
        elif t is Stx:
            st.append(x.e)
        elif t is MStr:
            n += len(x.s) // 8
        elif t is Exn:
            st += [y for y in x.f if not isinstance(y, (int, str))]
    return n


def reaches(v, target):
    st, seen = [v], set()
    while st:
        x = st.pop()
        if x is target:
            return True
        if id(x) in seen:
            continue
        seen.add(id(x))
        t = type(x)
        if t is Pair:
            st += [x.car, x.cdr]
        elif t is Vec:
            st += x.v
        elif t is Box:
            st.append(x.v)
        elif t is Stx:
            st.append(x.e)
        elif t is Exn:
            st += list(x.f)
    return False


class G:
    def __init__(self, rng):
        self.r = rng
        self.I = scheme.Interp(fuel=4000000)
        self.lines = []
        self.n = 0
        self.used = {}
        self.mut = 0
        self.put(script.HEAD)
        for k in range(NV):
            self.put("(define-values (p%d) %s)" % (k, self.lit(2)))

    def put(self, text):
        self.I.run_text(text)
        self.lines.append(text)

    def val(self, k):
        return self.I.g[sym("p%d" % k)]

    # ---- literals: fresh objects by construction, or quoted
    def num(self):
        r = self.r
        return r.choice([0, 1, 2, 3, 7, -1, -5, 10, 100, 255, r.randrange(-50, 50), r.randrange(1 << 30, 1 << 40), -(1 << 62), (1 << 63) - 1, -(1 << 63) + 1,
                         r.randrange(-(1 << 62), 1 << 62)])

    def atom(self):
        r = self.r
        k = r.randrange(8)
        if k < 2:
            return str(r.choice([0, 1, 2, 3, -1, 10, self.num()]))
        if k == 2:
            return r.choice(["#t", "#f"])
        if k == 3:
            return r.choice(["#\\a", "#\\z", "#\\0", "#\\space", "#\\newline", "#\\tab", "#\\(", "#\\\\", "#\\\"", "#\\A", "#\\~"])
        if k == 4:
            return script.sstr("".join(chr(r.randrange(32, 127)) if r.random() < 0.8 else r.choice("\n\t\r") for _ in range(r.choice([0, 1, 2, 5, 9, 20]))))
        return "'" + r.choice(WORDS)

    def lit(self, d):
        r = self.r
        k = r.randrange(10)
        if d <= 0 or k < 3:
            return self.atom()
        if k < 6:
            return "(list %s)" % " ".join(self.lit(d - 1) for _ in range(r.choice([0, 1, 2, 3, 4, 6])))
        if k == 6:
            return "(cons %s %s)" % (self.lit(d - 1), self.lit(d - 1))
        if k == 7:
            return "(vector %s)" % " ".join(self.lit(d - 1) for _ in range(r.choice([0, 1, 2, 3, 5])))
        if k == 8:
            return "(box %s)" % self.lit(d - 1)
        return "(string %s)" % " ".join(r.choice(["#\\a", "#\\b", "#\\c", "#\\x"]) for _ in range(r.choice([0, 1, 3, 4])))

    # ---- arguments
    def find(self, pred, make):
        """a pool variable whose value satisfies pred, or a fresh expression"""
        r = self.r
        if r.random() < 0.07:
            return "p%d" % r.randrange(NV)            # any value: possibly misuse
        c = [k for k in range(NV) if pred(self.val(k))]
        if c and r.random() < 0.85:
            return "p%d" % r.choice(c)
        return make()

    def any(self):
        r = self.r
        return "p%d" % r.randrange(NV) if r.random() < 0.7 else self.lit(1)

    def small(self):
        c = [k for k in range(NV) if size(self.val(k), 60) <= 60]
        return "p%d" % self.r.choice(c) if c and self.r.random() < 0.7 else self.lit(1)

    def lst(self):
        return self.find(is_list, lambda: "(list %s)" % " ".join(self.lit(1) for _ in range(self.r.randrange(5))))

    def pair(self):
        return self.find(lambda v: type(v) is Pair, lambda: "(cons %s %s)" % (self.lit(1), self.lit(1)))

    def vec(self):
        return self.find(lambda v: type(v) is Vec, lambda: "(vector %s)" % " ".join(self.lit(1) for _ in range(self.r.randrange(5))))

    def strg(self):
        return self.find(lambda v: type(v) is MStr, lambda: "(string #\\q #\\r #\\s)" if self.r.random() < 0.5 else '"lit eral"')

    def int(self):
        return self.find(scheme.is_num, lambda: str(self.num()))

    def chr(self):
        return self.find(lambda v: type(v) is Char, lambda: self.r.choice(["#\\a", "#\\Z", "#\\5", "#\\space", "#\\newline"]))

    def symb(self):
        return self.find(lambda v: type(v) is Sym, lambda: "'" + self.r.choice(WORDS))

    def boxx(self):
        return self.find(lambda v: type(v) is Box, lambda: "(box %s)" % self.lit(1))

    def stx(self):
        return self.find(lambda v: type(v) is Stx, lambda: "(datum->syntax %s)" % self.small())

    def exn(self, kind):
        return self.find(lambda v: type(v) is Exn and (kind is None or v.kind == kind), lambda: "p%d" % self.r.randrange(NV))

    def ev(self, expr):
        """value of an argument expression without side effects on the pool"""
        return self.I.run_text_value(expr)

    def idx(self, n):
        r = self.r
        x = r.random()
        if n > 0 and x < 0.85:
            return str(r.choice([0, n - 1, r.randrange(n)]))
        return str(r.choice([n, n + 1, -1, n + 1000, (1 << 62), -(1 << 62)]))

    # ---- one operation: (name, expression)
    def op(self):
        r = self.r
        k = r.choice(["cxr", "cxr", "list", "list", "num", "num", "vec", "vec", "str", "str", "conv", "conv", "mut", "mut", "mut", "pred", "pred", "eq", "eq", "high", "stx", "exn", "make", "make", "proc"])
        if k == "cxr":
            n = "c%sr" % r.choice(CXR)
            path = n[1:-1]

            def ok(v):
                for c in reversed(path):
                    if type(v) is not Pair:
                        return False
                    v = v.car if c == "a" else v.cdr
                return True

            def build():
                e = self.lit(1)
                for c in path:
                    e = "(cons %s %s)" % ((e, self.atom()) if c == "a" else (self.atom(), e))
                # a wrong spine now and then
                return e
            return n, "(%s %s)" % (n, self.find(ok, build)), "v"
        if k == "make":
            return "lit", self.lit(3), "v"
        if k == "list":
            n = r.choice(["length", "reverse", "append", "append", "list", "make-list", "iota", "enumerate", "cons", "append"])
            if n in ("length", "reverse", "enumerate"):
                return n, "(%s %s)" % (n, self.lst()), "v"
            if n == "append":
                # whether the last list is shared or copied is left open
                xs = [self.lst() for _ in range(r.choice([0, 1, 2, 2, 2, 3, 4]))]
                if xs and xs[-1].startswith("p"):
                    xs[-1] = "(map (lambda (x) x) %s)" % xs[-1] if is_list(self.val(int(xs[-1][1:]))) else xs[-1]
                return n, "(append %s)" % " ".join(xs), "v"
            if n == "list":
                return n, "(list %s)" % " ".join(self.small() for _ in range(r.randrange(5))), "v"
            if n == "make-list":
                return n, "(make-list %s %s)" % (r.choice(["0", "1", "3", "5", "-1", self.chr()]), self.small()), "v"
            if n == "iota":
                return n, "(iota %d)" % r.choice([0, 1, 4, 9]), "v"
            return n, "(cons %s %s)" % (self.small(), self.any()), "v"
        if k == "num":
            n = r.choice(["+", "-", "*", "/", "remainder", "modulo", "=", "<", ">", "<=", ">=", "add1", "sub1", "zero?", "positive?", "negative?", "number->string",
                          "positive-integer?", "negative-integer?", "non-negative-integer?", "non-negative?"])
            if n in ("remainder", "modulo"):
                return n, "(%s %s %s)" % (n, self.int(), self.int()), "v"
            if n in ("add1", "sub1", "zero?", "number->string"):
                return n, "(%s %s)" % (n, self.int()), "v"
            if n in ("positive?", "negative?", "positive-integer?", "negative-integer?", "non-negative-integer?", "non-negative?"):
                return n, "(%s %s)" % (n, self.any() if "integer" in n else self.int()), "v"
            c = r.choice([1, 2, 2, 2, 3, 4]) if n in "-/" else r.choice([0, 1, 2, 2, 2, 3, 4, 7]) if n in "+*" else r.choice([2, 2, 3, 4])
            return n, "(%s %s)" % (n, " ".join(self.int() for _ in range(c))), "v"
        if k == "vec":
            n = r.choice(["vector", "make-vector", "vector-length", "vector-ref", "vector-ref", "vector->list", "list->vector"])
            if n == "vector":
                return n, "(vector %s)" % " ".join(self.small() for _ in range(r.choice([0, 1, 2, 3, 4, 5, 8, 16, 17]))), "v"
            if n == "make-vector":
                return n, "(make-vector %s%s)" % (r.choice(["0", "1", "2", "5", "17"]), r.choice(["", " " + self.small()])), "v"
            if n == "list->vector":
                return n, "(list->vector %s)" % self.lst(), "v"
            a = self.vec()
            if n == "vector-ref":
                return n, "(vector-ref %s %s)" % (a, self.idx(self.length(a))), "v"
            return n, "(%s %s)" % (n, a), "v"
        if k == "str":
            n = r.choice(["string", "make-string", "string-length", "string-ref", "string-ref", "string-append", "string-append", "string->list", "list->string"])
            if n == "string":
                return n, "(string %s)" % " ".join(self.chr() for _ in range(r.choice([0, 1, 2, 4, 8]))), "v"
            if n == "make-string":
                return n, "(make-string %s%s)" % (r.choice(["0", "1", "2", "7", "33"]), r.choice(["", " " + self.chr()])), "v"
            if n == "list->string":
                return n, "(list->string (list %s))" % " ".join(self.chr() for _ in range(r.choice([0, 1, 2, 4, 8]))), "v"
            if n == "string-append":
                return n, "(string-append %s)" % " ".join(self.strg() for _ in range(r.choice([0, 2, 2, 2, 3, 5]))), "v"
            a = self.strg()
            if n == "string-ref":
                return n, "(string-ref %s %s)" % (a, self.idx(self.length(a))), "v"
            return n, "(%s %s)" % (n, a), "v"
        if k == "conv":
            n = r.choice(["char->integer", "integer->char", "string->symbol", "symbol->string", "string->number", "string->list", "list->vector", "vector->list", "number->string", "round"])
            if n == "char->integer":
                return n, "(%s %s)" % (n, self.chr()), "v"
            if n == "integer->char":
                return n, "(%s %d)" % (n, r.randrange(1, 128)), "v"
            if n == "string->symbol":
                return n, "(%s %s)" % (n, self.strg()), "v"
            if n == "symbol->string":
                return n, "(%s %s)" % (n, self.symb()), "v"
            if n == "string->number":
                return n, "(%s %s)" % (n, r.choice([self.strg(), '"%d"' % self.num(), '"+%d"' % abs(self.num()), '"00%d"' % r.randrange(99)])), "v"
            if n == "round":
                a = r.choice(["(string->number (number->string %s))" % r.choice([str(self.num())]), "(vector->list (list->vector %s))" % self.lst(),
                              "(list->string (string->list %s))" % self.strg(), "(symbol->string (string->symbol %s))" % self.strg(), "(reverse (reverse %s))" % self.lst()])
                return n, a, "v"
            if n == "number->string":
                return n, "(%s %s)" % (n, self.int()), "v"
            return n, "(%s %s)" % (n, {"string->list": self.strg, "list->vector": self.lst, "vector->list": self.vec}[n]()), "v"
        if k == "mut":
            n = r.choice(["set-car!", "set-cdr!", "vector-set!", "vector-set!", "vector-fill!", "string-set!", "string-set!", "set-box!"])
            if n == "string-set!":
                # never a literal: programs must not change those
                a = self.strg()
                if a.startswith('"'):
                    a = "(string #\\a)"
                return n, "(string-set! %s %s %s)" % (a, self.idx(self.length(a)), self.chr()), "m"
            a = {"set-car!": self.pair, "set-cdr!": self.pair, "vector-set!": self.vec, "vector-fill!": self.vec, "set-box!": self.boxx}[n]()
            x = self.small() if r.random() < 0.6 else self.any()
            if a.startswith("p") and x.startswith("p") and reaches(self.val(int(x[1:])), self.val(int(a[1:]))):
                x = self.atom()
            if n == "vector-set!":
                return n, "(vector-set! %s %s %s)" % (a, self.idx(self.length(a)), x), "m"
            return n, "(%s %s %s)" % (n, a, x), "m"
        if k == "pred":
            n = r.choice(["null?", "pair?", "list?", "vector?", "string?", "symbol?", "char?", "boolean?", "procedure?", "box?", "number?", "integer?", "fixnum?", "void?",
                          "eof-object?", "not", "syntax?", "exn?", "hashtable?", "environment?", "record?", "input-port?", "output-port?", "identity"])
            a = r.choice([self.any(), self.any(), self.any(), self.any(), "eof", "(void)", "car", "(lambda (x) x)", "'()", "#f", "(make-eq-hashtable)", "(current-output-port)"])
            return n, "(%s %s)" % (n, a), "q"
        if k == "eq":
            n = r.choice(["eq?", "equal?", "equal?", "hash", "memb"])
            a, b = "p%d" % r.randrange(NV), "p%d" % r.randrange(NV)
            x = r.random()
            if x < 0.5:
                va = self.val(int(a[1:]))
                c = [k for k in range(NV) if type(self.val(k)) is type(va)]
                b = "p%d" % r.choice(c)
            if n == "equal?" and r.random() < 0.5:
                b = self.rebuild(self.val(int(a[1:])), r.random() < 0.4)
            if n == "hash":
                return n, "(if (equal? %s %s) (= (equal-hash %s) (equal-hash %s)) #t)" % (a, b, a, b), "h"
            if n == "memb":
                return n, "(ormap (lambda (x) (%s x %s)) %s)" % (r.choice(["eq?", "equal?"]), b, self.lst()), "q"
            return n, "(%s %s %s)" % (n, a, b), "q"
        if k == "high":
            n = r.choice(["map", "map2", "andmap", "ormap", "apply", "for-each", "cwv"])
            if n == "map":
                return n, "(map (lambda (x) %s) %s)" % (r.choice(["(list x)", "x", "(cons x p%d)" % r.randrange(NV) if r.random() < 0.2 else "(box x)", "(pair? x)"]), self.lst()), "v"
            if n == "map2":
                a = self.lst()
                return n, "(map cons %s (map (lambda (x) (pair? x)) %s))" % (a, a), "v"
            if n in ("andmap", "ormap"):
                return n, "(%s (lambda (x) (%s x)) %s)" % (n, r.choice(["pair?", "symbol?", "fixnum?", "not", "string?"]), self.lst()), "q"
            if n == "apply":
                f = r.choice(["list", "vector", "append-rev", "cons*"])
                if f == "append-rev":
                    return n, "(apply (lambda xs (reverse xs)) %s)" % self.lstok(), "v"
                if f == "cons*":
                    return n, "(apply list %s %s)" % (" ".join(self.small() for _ in range(r.randrange(3))), self.lstok()), "v"
                return n, "(apply %s %s)" % (f, self.lstok()), "v"
            if n == "for-each":
                return n, "(let-values ([(acc) '()]) (begin (for-each (lambda (x) (set! acc (cons x acc))) %s) acc))" % self.lst(), "v"
            return n, "(call-with-values (lambda () (values %s)) list)" % " ".join(self.small() for _ in range(r.choice([0, 2, 3, 5]))), "v"
        if k == "stx":
            n = r.choice(["datum->syntax", "datum->syntax", "syntax-e", "syntax->datum", "syntax->datum", "syntax->list", "syntax-loc", "round"])
            if n == "datum->syntax":
                return n, "(datum->syntax %s)" % self.small(), "v"
            if n == "round":
                return n, "(syntax->datum (datum->syntax %s))" % self.small(), "v"
            if r.random() < 0.15:
                def dat(d):
                    k = r.randrange(6)
                    if d == 0 or k < 2:
                        return self.atom().lstrip("'")
                    if k == 2:
                        return "#(%s)" % " ".join(dat(d - 1) for _ in range(r.randrange(4)))
                    return "(%s%s)" % (" ".join(dat(d - 1) for _ in range(r.randrange(1, 4))), r.choice(["", "", " . " + dat(0)]))
                return "quote-syntax", "(quote-syntax %s)" % dat(3), "v"
            return n, "(%s %s)" % (n, self.stx()), "v"
        if k == "exn":
            kinds = {"&exn": ("make-exn", 0), "&argument-exn": ("make-argument-exn", 2), "&arity-exn": ("make-arity-exn", 2), "&range-exn": ("make-range-exn", 5),
                     "&missing-exn": ("make-missing-exn", 3), "&syntax-exn": ("make-syntax-exn", 2)}
            accs = {"&exn": ["exn-who", "exn-message"], "&argument-exn": ["argument-exn-expect", "argument-exn-actual"], "&arity-exn": ["arity-exn-expect", "arity-exn-actual"],
                    "&range-exn": ["range-exn-value", "range-exn-description", "range-exn-lower", "range-exn-upper", "range-exn-index"],
                    "&missing-exn": ["missing-exn-description", "missing-exn-value", "missing-exn-key"], "&syntax-exn": ["syntax-exn-form", "syntax-exn-subform"]}
            kind = r.choice(sorted(kinds))
            mk, nf = kinds[kind]
            x = r.random()
            have = [k for k in range(NV) if type(self.val(k)) is Exn]
            if x < 0.5 or not have:
                return mk, "(%s %s)" % (mk, " ".join(self.small() for _ in range(2 + nf))), "v"
            if x < 0.65:
                return "exn?", "(%s %s)" % (r.choice(["exn?", "argument-exn?", "arity-exn?", "range-exn?", "missing-exn?", "syntax-exn?"]), "p%d" % r.choice(have)), "q"
            v = r.choice(have)
            kd = self.val(v).kind
            acc = r.choice(accs[kd] + accs["&exn"])
            return acc, "(%s p%d)" % (acc, v), "v"
        # procedures: which numbers of arguments a procedure accepts
        cl = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            m = r.randrange(5)
            cl.append((m, r.random() < 0.25))
        names = "abcde"

        def formals(m, rest):
            s = " ".join(names[:m])
            return ("(%s . more)" % s if m else "more") if rest else "(%s)" % s
        if len(cl) == 1 and r.random() < 0.5:
            f = "(lambda %s 1)" % formals(*cl[0])
        else:
            f = "(case-lambda %s)" % " ".join("[%s 1]" % formals(*c) for c in cl)
        if r.random() < 0.25:
            nm = r.choice(WORDS)
            return "procedure-rename", "(let-values ([(f) %s]) (let-values ([(g) (procedure-rename f '%s)]) (list (procedure-name g) (eq? (procedure-name f) '%s) (equal? (procedure-arity f) (procedure-arity g)) (procedure? g))))" % (f, nm, nm), "x", "(%s #f #t #t)" % nm
        acc = ["#t" if any(n == m or (rest and n >= m) for m, rest in cl) else "#f" for n in range(7)]
        return "procedure-arity", "(let-values ([(a) (procedure-arity %s)]) (cons (procedure-arity? a) (map (lambda (n) (arity-includes? a n)) (iota 7))))" % f, "x", "(#t %s)" % " ".join(acc)

    def lstok(self):
        c = [k for k in range(NV) if is_list(self.val(k))]
        return "p%d" % self.r.choice(c) if c else "(list 1 2)"

    def length(self, a):
        if a.startswith("p"):
            v = self.val(int(a[1:]))
            return len(v.v) if type(v) is Vec else len(v.s) if type(v) is MStr else 0
        if a.startswith("(vector"):
            return len(from_list(scheme.Parser(a).all()[0])) - 1
        if a.startswith('"'):
            return len(scheme.Parser(a).all()[0].s)
        return 1

    def rebuild(self, v, change):
        """expression for a copy of v, possibly with one leaf changed"""
        leaves = [0]
        tgt = self.r.randrange(max(1, size(v, 100))) if change else -1

        def go(x):
            leaves[0] += 1
            t = type(x)
            if leaves[0] - 1 == tgt:
                return self.atom()
            if t is Pair:
                return "(cons %s %s)" % (go(x.car), go(x.cdr))
            if t is Vec:
                return "(vector %s)" % " ".join(go(y) for y in x.v)
            if t is Box:
                return "(box %s)" % go(x.v)
            if t is MStr:
                return "(string %s)" % " ".join("(integer->char %d)" % c for c in x.s)
            if t is Char:
                return "(integer->char %d)" % x.c if x.c else "#f"
            if t is Sym:
                return "(string->symbol %s)" % script.lit(x.name) if x.name else "'empty"
            if x is NIL:
                return "'()"
            if t is bool:
                return "#t" if x else "#f"
            if t is int:
                return str(x)
            return "'other"
        return go(v) if size(v, 100) <= 100 else self.atom()

    def step(self):
        r = self.r
        o = self.op()
        name, expr, kind = o[:3]
        i = self.n
        keep = {k: self.val(k) for k in range(NV)}
        try:
            if kind == "x":
                text = script.op(i, expr)
                self.lines.append((text, "%d V %s" % (i, o[3])))
            elif kind == "h":
                text = script.op(i, expr)
                self.lines.append((text, "%d V #t" % i))
            else:
                if kind == "v":
                    k = r.randrange(NV)
                    text = script.op(i, "(let-values ([(t) %s]) (begin (set! p%d t) t))" % (expr, k))
                elif kind == "m":
                    ks = [k for k in range(NV)]
                    text = script.op(i, expr)
                else:
                    text = script.op(i, expr)
                self.I.err = []
                self.I.run_text(text)
                for k in range(NV):
                    if size(self.val(k), 250) > 250:      # keep the pool small
                        self.lines.append(text)
                        text = "(set! p%d %s)" % (k, self.lit(1))
                        self.I.run_text(text)
                self.lines.append(text)
                if kind == "m":
                    self.mut += 1
        except Unsupported:
            for k in range(NV):
                self.I.g[sym("p%d" % k)] = keep[k]
            self.I.run_text("(set! ERR #f)")
            return
        self.n += 1
        self.used[name] = self.used.get(name, 0) + 1
        if r.random() < 0.12 or kind == "m" and r.random() < 0.4:
            self.dump()

    def dump(self):
        i = self.n
        self.n += 1
        text = script.op(i, "(list %s)" % " ".join("p%d" % k for k in range(NV)))
        self.I.run_text(text)
        self.lines.append(text)


ARITY = """(define-values (arity-includes?) (lambda (a n)
  (if (fixnum? a) (= a n)
      (letrec-values ([(go) (lambda (a last) (if (pair? a) (if (= (car a) n) #t (go (cdr a) (car a))) (if (null? a) #f (>= n last))))]) (go a 0)))))"""


def gen(rng, tier, i):
    g = G(rng)
    g.lines.insert(1, ARITY)
    for _ in range(rng.choice([25, 50, 80])):
        g.step()
    g.dump()
    return {"lines": g.lines, "cfg": engine.rand_cfg(rng), "feat": g.used, "mut": g.mut}


def judge(case, run, info):
    text = "\n".join(l if isinstance(l, str) else l[0] for l in case["lines"]) + "\n"
    # the reference runs everything whose result the generator does not know
    I = scheme.Interp(fuel=4000000)
    exp = []
    try:
        for l in case["lines"]:
            if isinstance(l, str):
                if l is ARITY or "arity-includes?" in l:
                    continue
                I.err = []
                I.run_text(l)
                exp += ["".join(I.err)]
            else:
                exp.append("\n%s\n" % l[1])
    except (Unsupported, IndexError, RecursionError) as e:
        info["discard"] = True
        info["why"] = repr(e)
        return []
    info["nontrivial"] = case["mut"] >= 5 and len(case["feat"]) >= 20
    info["count"] = dict(case["feat"])
    ref = "".join(exp).encode("latin-1")
    r = run.run("nolib", dict(case["cfg"], files={"/w/prog.min": text}))
    if r["end"] != "exit":
        return []
    if r["code"] != 0:
        return [("exit-code", "exit code %s\nstderr: %r" % (r["code"], r["stderr"][-400:]))]
    if r["stderr"] != ref:
        k = 0
        a, b = r["stderr"], ref
        while k < min(len(a), len(b)) and a[k] == b[k]:
            k += 1
        s = max(0, a.rfind(b"\n", 0, k))
        n = a[s:s + 12].split()[0].decode("latin-1") if a[s:s + 12].split() else "?"
        opt = next((l if isinstance(l, str) else l[0] for l in case["lines"] if ("(report %s v)" % n) in (l if isinstance(l, str) else l[0])), "")
        return [("result", "operation differs: %s\n got %r\n ref %r" % (opt[:600], a[s:k + 120], b[s:k + 120]))]
    return []


def simplify(case):
    import shrink
    n = len(case["lines"])
    fixed = 2 + NV

    def sub(keep):
        return dict(case, lines=case["lines"][:fixed] + keep)
    tail = case["lines"][fixed:]
    size_ = max(1, len(tail) // 2)
    while size_ >= 1:
        for s in range(0, len(tail), size_):
            yield sub(tail[:s] + tail[s + size_:])
        if size_ == 1:
            break
        size_ //= 2
    for k in ("gc", "junk", "reuse", "place"):
        if k in case["cfg"]:
            yield dict(case, cfg={x: y for x, y in case["cfg"].items() if x != k})

"""C04: misuse of any operation is one error report, and changes nothing else."""
import engine
from script import parse_log, lit

ID = "C04"
TITLE = "Every misuse is reported once, changes nothing, and never breaks the process"
LEVEL = "exploration"
QUICK, THOROUGH = 220, 100000
RULE = ("seeded sequences of calls of every public procedure with seeded argument values of right and wrong kinds, bounds and numbers, in seeded contexts, under a handler that returns or the default one, "
        "under seeded collection, stack and I/O fault schedules; each call is judged by an independent table of contracts: misuse is reported exactly once, correct use never, a failed call leaves its arguments and the surrounding computation as they were; "
        "non-trivial: at least 5 misuses and 5 correct uses")
REAL, STUB = engine.REAL_CORE, engine.STUB_CORE
ASSUMPTIONS = ["argument evaluation is left to right and a handler's value replaces the failing call"]
LISTS = ("ops",)

PRE = r"""
(define-values (N) 0)
(define-values (ERR) #f)
(define-values (on-error) (lambda (e) (begin (set! N (+ N 1)) (set! ERR e) 'failed)))
(define-values (try) (lambda (thunk) (thunk)))
(define-values (RT) (make-record-type-descriptor 'rt #f #f #f #f #((mutable a) (immutable b))))
(define-values (RS) (make-record-type-descriptor 'rs RT #f #t #f #((mutable c))))
(define-values (RO) (make-record-type-descriptor 'ro #f #f #f #t #((mutable c))))
(define-values (mkrt) (record-constructor RT))
(define-values (mkrs) (record-constructor RS))
(define-values (mkro) (record-constructor RO))
(define-values (rt-a) (record-accessor RT 0))
(define-values (rs-c) (record-accessor RS 0))
(define-values (rt-a!) (record-mutator RT 0))
(define-values (rt?) (record-predicate RT))
(define-values (mkht) (lambda () (let-values ([(h) (make-hashtable)]) (begin (hashtable-set! h 'k 1) (hashtable-set! h "s" 2) h))))
(define-values (closed-in) (lambda () (let-values ([(p) (open-input-string "abc")]) (begin (close-input-port p) p))))
(define-values (closed-out) (lambda () (let-values ([(p) (open-output-string)]) (begin (close-output-port p) p))))
(define-values (oport) (lambda () (let-values ([(p) (open-output-string)]) (begin (put-string p "xy") p))))
(define-values (str) (lambda (s) (list->string (string->list s))))
(define-values (mkenv) (lambda () (copy-environment (current-environment) #t '(car + list))))
(define-values (wr) (lambda (x) (let-values ([(p) (open-output-string)]) (begin (write x p) (get-output-string p)))))
(define-values (look) (lambda (v kind)
  (if (eq? kind 'ht) (let-values ([(k v) (hashtable-entries v)]) (list (vector->list k) (vector->list v)))
  (if (eq? kind 'out) (get-output-string v)
  (if (eq? kind 'env) (length (environment-symbols v))
  (if (eq? kind 'rec) (list (rt-a v))
  (if (eq? kind 'none) 0 (wr v))))))))
(define-values (looks) (lambda (vs ks) (if (null? vs) '() (cons (look (car vs) (car ks)) (looks (cdr vs) (cdr ks))))))
(define-values (deep) (lambda (n th) (if (= n 0) (th) (cons n (deep (- n 1) th)))))
(define-values (spread) (lambda (n x) (if (= n 0) (list x) (cons n (spread (- n 1) x)))))
(define-values (G) (list 1 (vector "a" 'b) (box #\c)))
(define-values (K) (mkht))
(define-values (probe) (lambda (x) (wr (list (+ x 1 2) (apply list 1 (list x)) (map (lambda (a b) (cons a b)) (list x 2) '(3 4)) (hashtable-ref K 'k 0) G (string-append "p" (number->string x))))))
(define-values (message) (lambda (e) (if (exn? e) (exn-message e) e)))
(define-values (report) (lambda (i n e same r x)
  (fprintf (current-error-port) "\n~a V ~s\n" i (list n same r (if (> n 0) (wr (message e)) #f) (probe x)))))
"""


class V:
    def __init__(s, expr, *tags, **m):
        s.expr, s.tags = expr, set(tags)
        s.n = m.get("n")            # integer value, or length
        s.tree = m.get("tree")      # pair structure
        s.items = m.get("items")    # elements, for lists and vectors
        s.look = m.get("look", "")
        s.arity = m.get("arity")


def kinds():
    out = []
    for n in [0, 1, 2, 3, 5, -1, -7, 255, 256, 65, 1 << 31, (1 << 62), (1 << 63) - 1, -(1 << 63) + 1]:
        out.append(V(str(n), "num", *(["nni"] if n >= 0 else []), n=n))
    for c in ["#\\a", "#\\space", "#\\0"]:
        out.append(V(c, "char"))
    out += [V("#t", "bool"), V("#f", "bool", "false"), V("'()", "null", "list", tree=(), items=[]), V("(void)", "void"), V("eof", "eof")]
    out += [V("'sym", "sym"), V("'car", "sym", "bound"), V("'nonesuch", "sym"), V("'k", "sym", "key")]
    for w in ["abc", "", "x~ay", "7", "/nonexistent/f"]:
        out.append(V("(str %s)" % lit(w), "str", n=len(w)))
    a, s, c, n = V("1", "num"), V("'a", "sym"), V("#\\a", "char"), V("'()", "null", "list")
    P = lambda *x: tuple(x)
    out += [V("(cons 1 2)", "pair", tree=(0, 0)), V("(cons (cons 1 2) (cons (cons 3 '()) 4))", "pair", tree=((0, 0), ((0, ()), 0))),
            V("(list 1 2 3)", "pair", "list", tree=(0, (0, (0, ()))), items=[a, a, a]),
            V("(list #\\a #\\b)", "pair", "list", tree=(0, (0, ())), items=[c, c]),
            V("(list 'a 'car)", "pair", "list", tree=(0, (0, ())), items=[s, s]),
            V("(list #\\a 1)", "pair", "list", tree=(0, (0, ())), items=[c, a]),
            V("(cons #\\a #\\b)", "pair", tree=(0, 0)),
            V("(cons 1 (cons 2 3))", "pair", tree=(0, (0, 0))),
            V("(list (list (list (list 1 2) 3) 4) (list 5 (list 6 (list 7 8))) 9)", "pair", "list",
              tree=((((0, (0, ())), (0, ())), (0, ())), ((0, ((0, ((0, (0, ())), ())), ())), (0, ()))), items=[n, n, a])]
    out += [V("(vector)", "vec", n=0), V("(vector 1 2)", "vec", n=2), V("(make-vector 5 'x)", "vec", n=5), V("(vector (vector))", "vec", n=1)]
    out += [V("(box 1)", "box"), V("(box (box '()))", "box")]
    out += [V("(lambda (x) x)", "proc", arity=(1, 1)), V("(lambda args args)", "proc", arity=(0, None)), V("(lambda () 0)", "proc", arity=(0, 0)),
            V("(lambda (a b) a)", "proc", arity=(2, 2)), V("list", "proc", arity=(0, None)), V("(case-lambda [(a) a] [(a b) b])", "proc", arity=(1, 2)),
            V("(record-predicate RT)", "proc", arity=(1, 1))]
    out += [V("(open-input-string \"abc (d)\")", "in", look="none"), V("(closed-in)", "in", "closed", look="none"), V("(open-input-string \"\")", "in", look="none"),
            V("(oport)", "out", "sport", look="none"), V("(closed-out)", "out", "sport", "closed", look="none"),
            V("(open-output-file \"/w/o%d\")", "out", look="none")]
    out += [V("(mkht)", "ht", look="ht"), V("(make-eq-hashtable)", "ht", "empty", look="ht"), V("(mkenv)", "env", look="env"), V("(make-empty-environment)", "env", "bare", look="env")]
    out += [V("(mkrt 1 '(2))", "rec", "rt", look="rec"), V("(mkrs 1 2 3)", "rec", "rt", "rs", look="rec"), V("(mkro 1)", "opaque"), V("RT", "rtd", n=2), V("RS", "rtd", "sealed", n=1), V("&exn", "rtd", n=2)]
    out += [V("(make-exn 'w \"m\")", "exn", "opaque"), V("(make-argument-exn 'w \"m\" \"e\" 1)", "exn", "argx", "opaque"), V("(make-range-exn 'w \"m\" 1 \"d\" 0 1 2)", "exn", "rangex", "opaque"),
            V("(make-missing-exn #f \"m\" \"d\" 1 2)", "exn", "missx", "opaque"), V("(make-syntax-exn #f \"m\" 1 2)", "exn", "synx", "opaque"), V("(make-arity-exn 'w \"m\" 1 2)", "exn", "arityx", "opaque")]
    out += [V("(datum->syntax '(a 1))", "stx"), V("(datum->syntax 'b)", "stx"), V("(make-pattern-variable 1 2)", "pvar", "opaque")]
    return out


KINDS = kinds()
ANY = "any"


def fits(p, v):
    """p: '|'-separated tags, or any"""
    return p == ANY or any(t in v.tags for t in p.split("|"))


class Table(dict):
    def __missing__(self, name):
        if name.startswith("@cl:"):
            return clauses(name)
        raise KeyError(name)


T = Table()     # name -> (list of alternatives, options)


def S(names, *alts, **o):
    """one contract: alternatives, one per number of arguments; a last predicate with * repeats.
    cond(args) -> True (correct use), False (misuse), None (not called)"""
    for n in names.split():
        T[n] = ([a.split() if isinstance(a, str) else a for a in alts], o)


for w in ["a", "d"]:
    for x in ["", "a", "d"]:
        for y in ["", "a", "d"]:
            for z in ["", "a", "d"]:
                if (y and not x) or (z and not y):
                    continue
                T["c" + w + x + y + z + "r"] = ([[ANY]], {"path": w + x + y + z})
S("set-car! set-cdr!", "pair any", mut=1)
S("cons eq? equal?", "any any")
S("not identity boolean? box? char? eof-object? environment? exn? argument-exn? arity-exn? range-exn? missing-exn? syntax-exn? fixnum? hashtable? input-port? integer? list? negative-integer? "
  "negative? non-negative-integer? non-negative? null? number? output-port? pair? pattern-variable? positive-integer? positive? procedure? procedure-arity? record-type-descriptor? record? string-port? "
  "string? symbol? syntax? vector? void? box eq-hash equal-hash", "any")
S("true false", path=None)
T.pop("true"), T.pop("false")
S("void version command-line make-eq-hashtable make-hashtable make-empty-environment open-output-string", "")
S("+ *", "num*")
S("-", "num num*")
S("/", "num num*", cond=lambda a: all(x.n != 0 for x in a[1:]) if len(a) > 1 else a[0].n != 0)


def chain(op):
    def f(a):
        for k in range(len(a)):
            if "num" not in a[k].tags:
                return False if len(a) < 3 or k == 0 else None if not all(op(x.n, y.n) for x, y in zip(a[:k - 1], a[1:k])) else False
        return True
    return f


for _n, _f in (("=", lambda x, y: x == y), ("<", lambda x, y: x < y), (">", lambda x, y: x > y), ("<=", lambda x, y: x <= y), (">=", lambda x, y: x >= y)):
    S(_n, "any any*", cond=chain(_f), near=["num num*"])

S("add1 sub1 zero?", "num")
S("remainder modulo", "num num", cond=lambda a: a[1].n != 0)
S("procedure-arity procedure-name", "proc")
S("procedure-rename", "proc sym", mut=1)
S("char->integer", "char")
S("integer->char", "num", cond=lambda a: True if 0 < a[0].n < 127 else None)
S("string", "char*")
S("list->string", "list", cond=lambda a: all("char" in x.tags for x in a[0].items))
small = lambda k: lambda a: True if a[k].n < 1000 else None
S("make-string", "nni", "nni char", cond=small(0))
S("make-vector", "nni", "nni any", cond=small(0))
S("make-list", "nni any", cond=small(0))
S("iota", "nni", cond=small(0))
S("string-length string->list open-input-string", "str")
S("string->symbol", "str", cond=lambda a: True if a[0].n else None)
S("string->number", "str", cond=lambda a: None)
S("symbol->string", "sym")
S("number->string", "num")
S("string-ref", "str nni", cond=lambda a: a[1].n < a[0].n)
S("string-set!", "str nni char", cond=lambda a: a[1].n < a[0].n, mut=1)
S("string-append", "str*")
S("list vector", "any*")
S("length reverse enumerate list->vector", "list")
S("append", "list*")
S("vector-length vector->list", "vec")
S("vector-ref", "vec nni", cond=lambda a: a[1].n < a[0].n)
S("vector-set!", "vec nni any", cond=lambda a: a[1].n < a[0].n, mut=1)
S("vector-fill!", "vec any", mut=1)
S("unbox", "box")
S("set-box!", "box any", mut=1)
takes = lambda p, n: p.arity[0] <= n and (p.arity[1] is None or n <= p.arity[1])


def mapped(a):
    ls = a[1:]
    if len({len(x.items) for x in ls}) != 1:
        return False
    return True if takes(a[0], len(ls)) else False if len(ls[0].items) == 1 else None if ls[0].items else True


S("map for-each andmap ormap", "proc list list*", cond=mapped)
S("apply", "proc list", "proc any list", "proc any any list", "proc any any any list", cond=lambda a: None if len(a) > 5 else takes(a[0], len(a) - 2 + len(a[-1].items)))
S("call-with-values", "proc proc", loose=1, cond=lambda a: takes(a[0], 0) and takes(a[1], 1))
S("open-input-file", "str", cond=lambda a: False)           # none of the names exists
S("load", "str", cond=lambda a: False)
S("open-output-file", "str", cond=lambda a: False if a[0].n > 10 or a[0].n == 0 else None)
S("current-directory", "", "str", cond=lambda a: True if not a else False, cond_wrong=1)
S("close-input-port", "in", mut=1)
S("close-output-port", "out", mut=1)
live = lambda k: lambda a: "closed" not in a[k].tags
S("get-output-string", "out", cond=lambda a: "sport" in a[0].tags and "closed" not in a[0].tags)
S("read read-char peek-char char-ready?", "", "in", cond=lambda a: "closed" not in a[0].tags if a else True, mut=1)
S("put-char", "out char", cond=live(0), mut=1)
S("write-char", "char", "char out", cond=lambda a: "closed" not in a[-1].tags, mut=1)
S("newline", "", "out", cond=lambda a: "closed" not in a[0].tags if a else True, mut=1)
S("flush-output-port", "out", cond=live(0), mut=1)
S("write display", "any", "any out", cond=lambda a: len(a) == 1 or "closed" not in a[1].tags, mut=1, loose=1)
S("put-datum", "out any", cond=live(0), mut=1, loose=1)


def putstr(a):
    if "closed" in a[0].tags:
        return False if len(a) == 2 else None
    if len(a) > 2 and a[2].n > a[1].n:
        return False
    if len(a) > 3 and a[3].n > a[1].n - a[2].n:
        return False
    return True


S("put-string", "out str", "out str nni", "out str nni nni", cond=putstr, mut=1)
ser = {"num", "char", "bool", "null", "void", "eof", "sym", "str", "list", "pair", "vec"}


def serial(a):
    if "closed" in a[1].tags:
        return False
    if a[0].tags & ser:
        return True
    return None if a[0].tags & {"rec", "opaque", "rtd", "ht"} else False


S("fasl-write", "any out", cond=serial, mut=1)
S("fasl-read", "in", cond=lambda a: False if "closed" in a[0].tags else None, mut=1)


def fmt(k):
    def f(a):
        s = a[k]
        if len(a) > k and "closed" in a[0].tags:
            return None
        want = s.expr.count("~a")
        return len(a) - k - 1 == want
    return f


S("format", "str any*", cond=fmt(0))
S("fprintf", "out str any*", cond=lambda a: None if "closed" in a[0].tags else len(a) - 2 == a[1].expr.count("~a"), mut=1)
S("printf eprintf", "str any*", cond=lambda a: True if a[0].expr == '(str "abc")' and len(a) == 1 else None if len(a) - 1 == a[0].expr.count("~a") else False)
S("hashtable-size hashtable-keys hashtable-vals hashtable-copy hashtable-hash-proc hashtable-equiv-proc", "ht")
S("hashtable-entries", "ht", values=1)
S("hashtable-clear!", "ht", mut=1)
S("hashtable-contains?", "ht any")
has = lambda a: "empty" not in a[0].tags and "key" in a[1].tags
S("hashtable-ref", "ht any", "ht any any", cond=lambda a: has(a) or (False if len(a) == 2 else None if "proc" in a[2].tags else True))
S("hashtable-set!", "ht any any", mut=1)
S("hashtable-delete!", "ht any", mut=1, cond=lambda a: True)
S("hashtable-update!", "ht any proc", "ht any proc any", mut=1,
  cond=lambda a: (takes(a[2], 1) or None) if has(a) else (None if len(a) == 3 or "proc" in a[3].tags else takes(a[2], 1) or None))
S("record-type-name record-type-parent record-type-uid record-type-sealed? record-type-opaque? record-type-field-names record-constructor record-predicate", "rtd")
S("record-type-field-mutable? record-accessor", "rtd nni", cond=lambda a: a[1].n < a[0].n)
S("record-mutator", "rtd nni", cond=lambda a: a[1].n < a[0].n and ((a[0].expr == "RT" and a[1].n == 0) or a[0].expr == "RS"))
S("record-type-equal-procedure record-type-hash-procedure record-writer", "rtd", "rtd proc", cond=lambda a: True if len(a) == 1 else None)
S("default-record-equal-procedure default-record-hash-procedure current-error-handler", "", "proc", cond=lambda a: True if not a else None)
S("current-environment", "", "env", cond=lambda a: True if not a else None)
S("record-rtd", "rec")
S("record-equal-procedure", "rec|opaque|ht rec|opaque|ht")
S("record-hash-procedure", "rec|opaque|ht")
T["make-record-type-descriptor"] = ([["sym", "rtd|false", "sym|false", "bool", "bool", "vec"]], {"cond": lambda a: False if "sealed" in a[1].tags else a[5].n == 0})
S("rt-a", "rt")
S("rs-c", "rs")
S("rt-a!", "rt any", mut=1)
S("rt?", "any")
S("mkrt", "any any")
S("mkrs", "any any any")
S("exn-who exn-message", "exn")
S("argument-exn-actual argument-exn-expect", "argx")
S("arity-exn-actual arity-exn-expect", "arityx")
S("range-exn-value range-exn-description range-exn-lower range-exn-upper range-exn-index", "rangex")
S("missing-exn-description missing-exn-key missing-exn-value", "missx")
S("syntax-exn-form syntax-exn-subform", "synx")
S("make-exn", "any any")
S("make-argument-exn make-arity-exn make-syntax-exn", "any any any any")
S("make-missing-exn", "any any any any any")
S("make-range-exn", "any any any any any any any")
S("syntax-e syntax->datum syntax->list syntax-loc", "stx")
S("datum->syntax", "any", cond=lambda a: True if a[0].tags & ser else None)
S("make-pattern-variable", "any nni")
S("pattern-variable-value pattern-variable-depth", "pvar")
S("environment-symbols", "env")
S("environment-ref", "env sym", "env sym any", cond=lambda a: "bound" in a[1].tags and "bare" not in a[0].tags or (False if len(a) == 2 else None if "proc" in a[2].tags else True))
S("environment-set!", "env sym any", mut=1)
S("copy-environment", "env", "env bool", "env bool list", cond=lambda a: all("sym" in x.tags for x in a[2].items) if len(a) > 2 else True)
S("raise", "any", cond=lambda a: False)
S("error", "any any any*", cond=lambda a: False)
S("errorf", "any any any*", cond=lambda a: False)
S("raise-argument-error raise-arity-error", "any any any", cond=lambda a: False)
S("raise-range-error", "any any any any any any", cond=lambda a: False)
S("raise-missing-error", "any any any any", cond=lambda a: False)
S("raise-syntax-error", "any any", "any any any", cond=lambda a: False)
T["exit"] = ([["none"]], {"cond": lambda a: None, "near": ["any"]})
NAMES = sorted(T)


# misuse of the language itself: op names that start with @ have a template for the expression
def F(name, alt, tmpl, cond):
    T["@" + name] = ([alt.split()], {"tmpl": tmpl, "cond": cond})


def clauses(name):
    """@cl:1,2+ : a case-lambda with these clauses"""
    cl = [(int(x.rstrip("+")), x.endswith("+")) for x in name[4:].split(",")]

    def formals(n, rest):
        ids = ["p%d" % j for j in range(n)]
        return "(%s . r)" % " ".join(ids) if rest and n else "r" if rest else "(%s)" % " ".join(ids)

    def tmpl(a):
        if len(cl) == 1:
            f = "(lambda %s 'ok)" % formals(*cl[0])
        else:
            f = "(case-lambda %s)" % " ".join("[%s 'ok]" % formals(*c) for c in cl)
        if len(name) % 2:
            return "(let-values ([(f) %s]) %s)" % (f, "(f%s)" % "".join(" " + x for x in a))
        return "(%s%s)" % (f, "".join(" " + x for x in a))
    return [["any*"]], {"tmpl": tmpl, "cond": lambda a: any(len(a) == n or (r and len(a) >= n) for n, r in cl)}


cat = " ".join
F("call", "any any*", lambda a: "(%s)" % cat(a), lambda a: "proc" in a[0].tags and takes(a[0], len(a) - 1))
F("callv", "any any*", lambda a: "(let-values ([(f) %s]) (begin (list 1) (f %s)))" % (a[0], cat(a[1:])), lambda a: "proc" in a[0].tags and takes(a[0], len(a) - 1))
F("apply", "proc any any", lambda a: "(apply %s)" % cat(a), lambda a: verdict("apply", a) if len(a) < 6 else None)
F("apply2", "proc any any pair", lambda a: "(apply %s)" % cat(a), lambda a: verdict("apply", a))
F("apply3", "proc any list", lambda a: "(apply %s)" % cat(a), lambda a: verdict("apply", a))
for _k in range(5):
    _ids = cat("v%d" % j for j in range(_k))
    _n = lambda k: lambda a: len(a) == k
    F("let%d" % _k, "any*", lambda a, ids=_ids: "(let-values ([(%s) (values %s)]) 'ok)" % (ids, cat(a)), _n(_k))
    F("let+%d" % _k, "any*", lambda a, ids=_ids: "(let-values ([(w) 1] [(%s) (begin (list 1) (values %s))] [(z) 2]) (list w z))" % (ids, cat(a)), _n(_k))
    F("letrec%d" % _k, "any*", lambda a, ids=_ids: "(letrec-values ([(%s) (values %s)]) 'ok)" % (ids, cat(a)), _n(_k))
    F("cwv%d" % _k, "any*", lambda a, ids=_ids: "(call-with-values (lambda () (values %s)) (lambda (%s) 'ok))" % (cat(a), ids), _n(_k))
    F("def%d" % _k, "any*", lambda a, ids=_ids, k=_k: "(eval '(define-values (%s) (values %s)))" % (cat("tmp%d" % j for j in range(k)), cat("7" for _ in a)), _n(_k))
never = lambda a: False
F("operand", "any*", lambda a: "(list 1 (values %s))" % cat(a), lambda a: len(a) == 1)
F("operator", "any*", lambda a: "((values %s list) 1)" % cat(a), lambda a: len(a) == 0)
F("tested", "any*", lambda a: "(if (values %s) 'ok 'ok)" % cat(a), lambda a: True if len(a) == 1 else None)
F("ignored", "any*", lambda a: "(begin (values %s) 'ok)" % cat(a), lambda a: True)
F("undefined", "any", lambda a: "(begin (list 1) never-defined)", never)
F("undefined2", "any", lambda a: "(never-defined %s)" % a[0], never)
F("setundefined", "any", lambda a: "(set! never-defined %s)" % a[0], never)
F("setundefined2", "any", lambda a: "(set! never-seen %s)" % a[0], never)
F("setundefined3", "any", lambda a: "(eval '(set! never-defined 5))", never)
F("setundefined4", "any", lambda a: "(eval '(begin (list 1) (if #t (set! never-defined (list 1 2)) (never-defined))))", never)
F("evalundefined", "any", lambda a: "(eval '(list 1 never-defined))", never)
F("early", "any", lambda a: "(letrec-values ([(x) (begin (list 1) y)] [(y) %s]) x)" % a[0], never)
F("early2", "any", lambda a: "(letrec-values ([(f) (lambda (k) (if k y 1))] [(z) (f %s)] [(y) 5]) z)" % a[0], lambda a: "false" in a[0].tags)
F("evalenv", "any", lambda a: "(eval '(quote ok) %s)" % a[0], lambda a: "env" in a[0].tags)
F("evalbad", "any", lambda a: "(eval '(if %s))" % a[0], never)
LANG = sorted(n for n in T if n[0] == "@")
# reported from the running procedure itself: the handler's value replaces exactly the failing call
INNER = None


def verdict(name, a):
    """-> True: correct use; False: misuse; None: do not call"""
    alts, o = T[name]
    if "path" in o:
        if len(a) != 1:
            return False
        t = a[0].tree
        for c in reversed(o["path"]):
            if not isinstance(t, tuple) or len(t) != 2:
                return False
            t = t[0 if c == "a" else 1]
        return True
    if name == "exit":
        return None if not a or (len(a) == 1 and "num" in a[0].tags and 0 <= a[0].n < 256) else False
    if name == "apply" and len(a) > 5:
        return None
    fit = False
    for alt in alts:
        ps = list(alt)
        if "tmpl" in o:
            if len(a) < len(ps) - 1 or (len(a) < len(ps) and not ps[-1].endswith("*")):
                return None
            return o["cond"](a)
        if ps and ps[-1].endswith("*"):
            p = ps.pop()[:-1]
            ps += [p] * max(0, len(a) - len(ps))
        if len(ps) == len(a):
            if not all(fits(p, v) for p, v in zip(ps, a)):
                return False
            fit = True
    if not fit:
        return False
    c = o.get("cond")
    return c(a) if c else True


def shape(name, rng):
    """argument kinds: mostly near a correct use"""
    alts, o = T[name]
    alt = rng.choice([x.split() for x in o["near"]] if "near" in o else alts)
    alt = list(alt)
    if alt and alt[-1].endswith("*"):
        alt = alt[:-1] + [alt[-1][:-1]] * rng.choice([0, 1, 2, 3, 7])
    r = rng.random()
    args = []
    for p in alt:
        ok = [k for k, v in enumerate(KINDS) if fits(p, v)]
        args.append(rng.choice(ok) if ok else rng.randrange(len(KINDS)))
    if r < 0.33 and args:
        args[rng.randrange(len(args))] = rng.randrange(len(KINDS))
    elif r < 0.43:
        if rng.random() < 0.5 and args:
            args.pop(rng.randrange(len(args)))
        else:
            args.insert(rng.randrange(len(args) + 1), rng.randrange(len(KINDS)))
    elif r < 0.48:
        args = [rng.randrange(len(KINDS)) for _ in args]
    elif r < 0.5:
        args = [rng.randrange(len(KINDS)) for _ in range(rng.choice([8, 9, 20, 40]))]
    return args


CTX = ["plain", "list", "vector", "deep", "let", "callback", "apply", "begin", "if", "eval"]


def gen(rng, tier, i):
    n = rng.choice([20, 45, 90])
    focus = rng.sample(NAMES, rng.choice([6, 25, len(NAMES)]))
    ops = []
    while len(ops) < n:
        name = rng.choice(focus)
        if rng.random() < 0.2:
            name = rng.choice(LANG)
            if rng.random() < 0.3:
                name = "@cl:" + ",".join("%d%s" % (rng.choice([0, 1, 2, 2, 3, 4, 6]), rng.choice(["", "", "+"])) for _ in range(rng.choice([1, 2, 2, 3, 4])))
        a = shape(name, rng)
        if verdict(name, [KINDS[k] for k in a]) is None:
            continue
        ops.append([name, a, rng.choice(CTX), rng.choice([0, 0, 1, 3, 40])])
    case = {"ops": ops, "mode": "handler" if rng.random() < 0.85 else "default", "cfg": engine.rand_cfg(rng, 3000 * n, 600 if n < 40 else 300, True)}
    return case


def wrap(ctx, k, call):
    t = "(try (lambda () %s))" % call
    if ctx == "plain":
        return t, "%s"
    if ctx == "list":
        return "(list 'a %s 'b)" % t, "(a %s b)"
    if ctx == "vector":
        return "(vector 1 %s (+ 1 %d))" % (t, k), "#(1 %%s %d)" % (k + 1)
    if ctx == "deep":
        return "(deep %d (lambda () (list %s)))" % (k, t), "(" + "".join("%d " % j for j in range(k, 0, -1)) + "%s)"
    if ctx == "let":
        return "(let-values ([(x y) (values %s 'y)] [(z) %d]) (list x y z))" % (t, k), "(%%s y %d)" % k
    if ctx == "callback":
        return "(map (lambda (x) (if (= x 1) %s x)) (list 0 1 2))" % t, "(0 %s 2)"
    if ctx == "apply":
        return "(apply list 1 %s (list 2 %d))" % (t, k), "(1 %%s 2 %d)" % k
    if ctx == "begin":
        return "(begin (list 1) (cons (begin (list 2) %s) '()))" % t, "(%s)"
    if ctx == "if":
        return "(if (eq? %s ERR) 'same 'other)" % t, "other"
    return "(car (list (try (lambda () (eval '(list (try (lambda () (%s))) %d))))))" % (call[1:-1], k), "(%%s %d)" % k


def program(case, default):
    body, plan = [PRE], []
    if not default:
        body.append("(current-error-handler on-error)")
    for i, (name, a, ctx, k) in enumerate(case["ops"]):
        vs = [KINDS[j] for j in a]
        ok = verdict(name, vs)
        if ok is None:
            continue
        o = T[name][1]
        names = ["a%d" % j for j in range(len(a))]
        if ctx == "eval":       # evaluated at top level: the arguments are globals
            names = ["g%d" % j for j in range(len(a))]
        call = o["tmpl"](names) if "tmpl" in o else "(%s)" % " ".join([name] + names)
        if o.get("values") and ok:
            call = "(call-with-values (lambda () %s) list)" % call
        e, want = wrap(ctx, k, call)
        binds = " ".join("[(%s) %s]" % (n, v.expr.replace("%d", str(i))) for n, v in zip(names, vs))
        looks = "(looks (list %s) '(%s))" % (" ".join(names), " ".join(v.look or "plain" for v in vs))
        inner = ("(let-values ([(before) %s]) (begin (set! N 0) (set! ERR #f) (let-values ([(r) %s]) (let-values ([(n) N] [(e) ERR]) (report %d n e (equal? before %s) %s %d)))))"
                 % (looks, e, i, looks if not (o.get("mut") and ok) else "before", "r" if not ok else "(if (eq? r 'failed) r 'ok)", i))
        if ctx == "eval":
            body.append("\n".join("(define-values (%s) %s)" % (n, v.expr.replace("%d", str(i))) for n, v in zip(names, vs)))
            body.append(inner)
        else:
            body.append("(let-values (%s) %s)" % (binds, inner))
        plan.append((i, name, ok, want))
    return "\n".join(body) + "\n(put-string (current-output-port) \"END\")\n", plan


def expected_probe(x):
    return '"(%d (1 %d) ((%d . 3) (2 . 4)) 1 (1 #(\\"a\\" b) #&#\\\\c) \\"p%d\\")"' % (x + 3, x, x, x)


def nontriv(case):
    r = [verdict(n, [KINDS[k] for k in a]) for n, a, _, _ in case["ops"]]
    return r.count(False) >= 5 and r.count(True) >= 5


def judge(case, run, info):
    default = case["mode"] == "default"
    prog, plan = program(case, default)
    if nontriv(case):
        info["nontrivial"] = True
    sim = dict(case["cfg"], files={"/w/prog.min": prog}, stdin="")
    r = run.run("nolib", sim)
    v = []
    done, rest = parse_log(r["stderr"])
    first = None
    for i, name, ok, want in plan:
        what = "operation %d (%s %s)" % (i, name, " ".join(KINDS[k].expr for k in case["ops"][i][1]))
        if default and not ok:
            first = i
            if i in done:
                v.append(("unreported", "%s is a misuse but returned %s" % (what, done[i][1][:200])))
            else:
                if r["code"] != 1:
                    v.append(("exit", "%s is a misuse, exit status %r" % (what, r["code"])))
                if not rest.strip():
                    v.append(("message", "%s is a misuse, no error message" % what))
                if b"END" in r["stdout"]:
                    v.append(("continued", "%s is a misuse, but the program went on" % what))
            break
        if i not in done:
            v.append(("lost", "%s did not finish: end %r code %r %s" % (what, r["end"], r["code"], rest[-200:])))
            break
        t = done[i][1]
        tail = " " + expected_probe(i) + ")"
        if not t.endswith(tail):
            v.append(("damage", "%s: the following computation gave %s, expected %s" % (what, t[-200:], tail)))
            continue
        t = t[:-len(tail)]
        if ok:
            if t != "(0 #t ok #f":
                v.append(("refused" if not t.startswith("(0") else "changed", "%s is a correct use, but gave %s" % (what, t[:300])))
        else:
            w = "(1 #t " + (want % "failed" if "%s" in want else want)
            if t == "(0" or t.startswith("(0 "):
                v.append(("unreported", "%s is a misuse but was not reported: %s" % (what, t[:300])))
            elif "tmpl" in T[name][1]:
                # which part of the form the handler's value replaces is not specified
                if not t.startswith("(1 #t "):
                    v.append(("containment", "%s: misuse gave %s" % (what, t[:300])))
            elif T[name][1].get("loose"):
                if not t.startswith("(") or not t[1:].split(" ")[0].isdigit() or " #t " not in t:
                    v.append(("containment", "%s: misuse gave %s" % (what, t[:300])))
            elif not t.startswith(w + " \""):
                v.append(("containment", "%s: misuse gave %s, expected %s" % (what, t[:300], w)))
            elif len(t) - len(w) < 5 and case["ops"][i][0] != "raise":
                v.append(("message", "%s: report without a message: %s" % (what, t[:300])))
    if not v and first is None and b"END" not in r["stdout"]:
        v.append(("stopped", "the program stopped: code %r %s" % (r["code"], rest[-300:])))
    return v


def simplify(case):
    for i, (n, a, c, k) in enumerate(case["ops"]):
        if c != "plain":
            yield dict(case, ops=case["ops"][:i] + [[n, a, "plain", 0]] + case["ops"][i + 1:])

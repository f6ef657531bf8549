"""C19: the syntax of core forms: what is not a core form is rejected as a whole, what is one is run."""
import engine
import scheme
from scheme import NIL, Pair, Parser, Sym, Unsupported, show
from script import HEAD, ORIG

ID = "C19"
TITLE = "Malformed core forms are rejected before any part of them runs"
LEVEL = "exploration"
QUICK, THOROUGH = 900, 100000
RULE = ("seeded nested core forms with effects, most of them spoiled at one node (missing, extra, misplaced and improper parts, wrong binders, empty applications), given to eval, to eval with an environment, "
        "to a loaded file and to the program itself, under seeded collection schedules; compared with an independent grammar and a reference interpreter; non-trivial: at least 3 malformed and 2 well-formed forms")
REAL, STUB = engine.REAL_CORE, engine.STUB_CORE
ASSUMPTIONS = ["the text of the message is not compared, only that an error is reported"]
LISTS = ("ops",)
PRE = """
(define-values (N) '())
(define-values (note) (lambda (k) (begin (set! N (cons k N)) (begin (if QUIET 'q (fprintf (current-error-port) "!~a " k)) k))))
(define-values (QUIET) #t)
(define-values (report) (lambda (i v)
  (begin (if ERR (fprintf (current-error-port) "\\n~a E ~s\\n" i N) (fprintf (current-error-port) "\\n~a V ~s ~s\\n" i v N))
         (begin (set! N '()) (set! ERR #f)))))
(define-values (v0) 5)
(define-values (f0) (lambda (x) (begin (note 'f0) x)))
(define-values (ENV) (copy-environment (current-environment)))
"""


class Dot(list):
    """improper list: the last element is the tail"""


def render(x):
    if isinstance(x, Dot) and len(x) > 1:
        return "(%s . %s)" % (" ".join(render(y) for y in x[:-1]), render(x[-1]))
    if isinstance(x, list):
        return "(%s)" % " ".join(render(y) for y in x)
    return x


LITS = ["1", "-7", "#t", "#f", '"s"', "#\\a", "(quote (1 . 2))", "(quote ())", "(quote if)", "(quote (if))", "(quote (lambda x))", "v0"]


def expr(rng, d, vs):
    r = rng.random()
    if d <= 0 or r < 0.1:
        r = rng.random()
        if r < 0.5:
            return ["note", str(rng.randrange(100))]
        return rng.choice(vs) if vs and r < 0.75 else rng.choice(LITS)
    E = lambda v=vs: expr(rng, d - 1, v)
    body = lambda v=vs: [E(v) for _ in range(rng.choice([1, 1, 2]))]
    new = lambda: "x%d" % rng.randrange(1000)
    if r < 0.22:
        return ["if", E(), E(), E()]
    if r < 0.3:
        return ["begin"] + body() + ([E()] if rng.random() < 0.3 else [])
    if r < 0.42:
        a = [new() for _ in range(rng.randrange(3))]
        if len(set(a)) < len(a):
            a = a[:1]
        f = list(a)
        k = rng.random()
        if k < 0.2:
            f, a = "r9", ["r9"]
        elif k < 0.3 and a:
            f, a = Dot(a + ["r9"]), a + ["r9"]
        lam = ["lambda", f] + body(vs + a)
        if rng.random() < 0.5:
            n = len(f) - (1 if isinstance(f, Dot) else 0) if isinstance(f, list) else 2
            return [lam] + [E() for _ in range(n)]
        return lam
    if r < 0.5:
        cl = []
        for k in range(rng.choice([0, 1, 2, 3])):
            a = [new() for _ in range(k)]
            if len(set(a)) == len(a):
                f = "r9" if rng.random() < 0.1 else a
                cl.append([f] + body(vs + (a if f is a else ["r9"])))
        return ["case-lambda"] + cl
    if r < 0.74:
        b, ids = [], []
        for _ in range(rng.randrange(3)):
            n = [new() for _ in range(rng.choice([0, 1, 1, 1, 2]))]
            if len(set(n + ids)) < len(n + ids):
                continue
            ids += n
            b.append([n, E() if len(n) == 1 else ["values"] + [E() for _ in n]])
        return [rng.choice(["let-values", "letrec-values"]), b] + body(vs + ids)
    if r < 0.8:
        return ["begin", ["set!", "v0", E()], "v0"]
    if r < 0.84:
        return ["quote", rng.choice(["a", ["a", "b"], ["if"], Dot(["a", "b"]), [], "5", ["quote"], ["lambda"]])]
    if r < 0.87:
        return rng.choice([["list"], ["quote-syntax", "a"], ["vector", "1"], "#(1 (if) x)", "#()"])
    return [rng.choice(["list", "list", "cons*", "f0"])] + [E() for _ in range(2)] if r < 0.97 else ["f0", E()]


def nodes(x, out, where=()):
    if isinstance(x, list):
        out.append(x)
        for y in x:
            nodes(y, out)
    return out


JUNK = ["5", '"s"', "#\\a", "#t", [], ["a"], ["a", "b"], Dot(["a", "b"]), "#(a)", "id"]


def spoil(rng, x):
    """changes one node of x; the result may happen to be well formed"""
    ns = nodes(x, [])
    heads = [n for n in ns if n and isinstance(n[0], str) and n[0] in ("if", "begin", "lambda", "case-lambda", "let-values", "letrec-values", "set!", "quote", "define-values", "quote-syntax")]
    pool = heads if heads and rng.random() < 0.8 else ns
    if not pool:
        return rng.choice([[], ["if"], Dot(["list", "1"]), ["quote"], ["begin"], ["lambda"]])
    n = rng.choice(pool)
    h = n[0] if n and isinstance(n[0], str) else None
    r = rng.random()
    if h in ("let-values", "letrec-values") and len(n) > 1 and isinstance(n[1], list) and r < 0.65:
        b = n[1]
        k = rng.randrange(10)
        if k == 0:
            n[1] = rng.choice(["x", "5", Dot(b + ["x"]) if b else "y"])
        elif k == 1:
            b.insert(rng.randrange(len(b) + 1), rng.choice(["x", "5", [], [["q"]], ["q", "1"], [["q"], "1", "2"], ["5", "1"], [["5"], "1"], [["q", '"s"'], "1"], [[["q"]], "1"],
                                                             [Dot(["q", "p"]), ["values", "1", "2"]], Dot([["q"], "1"]), Dot([["q"], "1", "2"])]))
        elif k == 2 and b and isinstance(b[-1], list) and b[-1]:
            b[-1].pop()
        elif k == 3 and b and isinstance(b[0], list):
            b[0].append(["note", "77"])
        elif k == 4 and b and isinstance(b[0], list) and b[0]:
            b[0][0] = rng.choice(JUNK)
        elif k == 5 and b and isinstance(b[0], list) and b[0] and isinstance(b[0][0], list):
            b[0][0].append(rng.choice(["5", ["a"], '"s"', "#f"]))
        elif k == 6:
            del n[2:]
        elif k == 7:
            del n[1]
        elif k == 8:
            n[:] = Dot(n)
            n[-1:] = [n[-1], rng.choice(["5", "x"])]
            return replace(x, n, Dot(n))
        else:
            return replace(x, n, Dot(n[:2] + [rng.choice(["5", "x"])]))
        return x
    if h in ("lambda",) and len(n) > 1 and r < 0.5:
        f = n[1]
        if isinstance(f, list) and rng.random() < 0.6:
            j = rng.choice(["5", '"s"', ["a"], "#t", [], "#\\a"])
            g = Dot((list(f) or ["a"]) + [j]) if rng.random() < 0.4 and not isinstance(f, Dot) else f[:1] + [j] + f[1:]
            n[1] = Dot(g) if isinstance(f, Dot) or isinstance(g, Dot) else g
        else:
            n[1] = rng.choice(["5", '"s"', "#t", "#(a)", ["5"], Dot(["a", "5"])])
        return x
    if h == "case-lambda" and r < 0.6:
        n.insert(rng.randrange(1, len(n) + 1), rng.choice(["x", "5", [], [["q"]], [["5"], "1"], ["5", "1"], ["q"], [Dot(["q", "5"]), "1"], Dot([["q"], "1", "2"]), Dot([["q"], "1"]), [[["q"]], "1"], [[], "1"]]))
        return x
    if h in ("set!", "define-values") and len(n) > 1 and r < 0.4:
        n[1] = rng.choice(JUNK) if h == "set!" else rng.choice(["x", "5", ["5"], ["q", '"s"'], Dot(["q", "p"]), [["q"]], Dot(["q", "5"])])
        return x
    k = rng.randrange(7)
    if k == 0 and len(n) > 1:
        n.pop()
    elif k == 1:
        n.append(rng.choice([["note", "78"], "5", []]))
    elif k == 2 and len(n) > 1:
        del n[1]
    elif k == 3 and len(n) > 1:
        return replace(x, n, Dot(n))
    elif k == 4 and n and not isinstance(n, Dot):
        return replace(x, n, Dot(list(n) + [rng.choice(["5", "x", '"s"'])]))
    elif k == 5:
        n.insert(rng.randrange(1, len(n) + 1) if n else 0, [])
    else:
        del n[1:]
    return x


def replace(x, n, m):
    if x is n:
        return m
    if isinstance(x, list):
        for i, y in enumerate(x):
            if y is n:
                x[i] = m
                return x
            replace(y, n, m)
    return x


ATOMS = [("(void)", 0), ("(make-hashtable)", 0), ("car", 0), ("(lambda (x) x)", 0), ("(current-output-port)", 0), ("eof", 0), ("(datum->syntax 'a)", 0), ("(current-environment)", 0),
         ("(make-eq-hashtable)", 0), ("(open-input-string \"a\")", 0), ("((record-constructor (make-record-type-descriptor 'p #f #f #f #f '#((mutable a)))) 1)", 0), ("'()", 0),
         ("5", 1), ("\"s\"", 1), ("#\\a", 1), ("(vector (void) car)", 1), ("(box '())", 1), ("#f", 1), ("'v0", 1), ("(list 'quote (void))", 1), ("(list 'quote car)", 1), ("(make-string 3 #\\x)", 1)]
PLACES = ["%s", "(list 'begin '(note 1) %s)", "(list 'begin %s '(note 1))", "(list 'if '(note 1) %s 2)", "(list 'if #t '(note 1) (list 'f0 %s))", "(list 'lambda '(x) '(note 1) %s)", "(list 'let-values (list (list '(x) %s)) '(note 1))",
          "(list 'letrec-values (list (list '() '(values)) (list '(x) %s)) '(note 1))", "(list 'list '(note 1) %s)", "(list 'set! 'v0 %s)", "(list 'begin '(note 1) (list 'lambda '(a . b) %s))", "(list 'case-lambda (list '(x) '(note 1) %s))"]
ALWAYS = ["(list 'lambda (list 'x %s) 1)", "(list 'set! %s '(note 1))", "(cons 'list (cons '(note 1) %s))", "(list 'let-values (list (list (list %s) '(note 1))) 2)", "(list 'let-values (list (list %s '(note 1) 2)) 2)"]


def built(rng):
    """a datum made by the program, with any value in it"""
    v, ok = rng.choice(ATOMS)
    if rng.random() < 0.2:
        return ["data", rng.choice(ALWAYS) % v, 0 if v not in ("'v0", "'()") and not v.startswith("(list") else None]
    p = rng.choice(PLACES)
    if rng.random() < 0.1:
        return ["data", "(list 'begin '(note 1) (list 'quote %s))" % v, 1]
    return ["data", p % v, ok]


def gen(rng, tier, i):
    ops = []
    bad = rng.choice([0.3, 0.6, 0.85])
    for k in range(rng.choice([6, 12, 25])):
        if rng.random() < 0.15:
            b = built(rng)
            if b[2] is not None:
                ops.append(b)
            continue
        x = expr(rng, rng.choice([1, 2, 3, 4]), [])
        how = rng.choice(["eval", "eval", "eval", "env", "load", "nested"])
        if rng.random() < 0.12:
            x = ["define-values", ["d%d" % j for j in range(rng.randrange(3))], x]
            x[2] = ["values"] + [expr(rng, 1, []) for _ in x[1]] if len(x[1]) != 1 else x[2]
            how = "eval"
        if rng.random() < bad:
            x = spoil(rng, x)
        pre = [render(expr(rng, 1, [])) for _ in range(rng.randrange(3))] if how == "load" else []
        ops.append([how, render(x), pre])
    end = None
    if rng.random() < 0.5:
        end = render(spoil(rng, expr(rng, rng.choice([1, 3]), [])))
    return {"ops": ops, "end": end, "cfg": engine.rand_cfg(rng, 60000, heavy=0.02)}


class Bad(Exception):
    pass


def items(x, least=0, most=None):
    out = []
    while type(x) is Pair:
        out.append(x.car)
        x = x.cdr
    if x is not NIL or len(out) < least or (most is not None and len(out) > most):
        raise Bad()
    return out


def ident(x):
    if type(x) is not Sym:
        raise Bad()


def formals(f):
    seen = []
    while type(f) is Pair:
        ident(f.car)
        seen.append(f.car)
        f = f.cdr
    if f is not NIL:
        ident(f)
        seen.append(f)
    if len(set(seen)) < len(seen):
        raise Unsupported("binder twice")


def ids(l, seen):
    for s in items(l):
        ident(s)
        if s in seen:
            raise Unsupported("binder twice")
        seen.append(s)


def check(x, top=False):
    """the grammar of core forms"""
    if type(x) is not Pair:
        if x is NIL:
            raise Bad()
        return
    h = x.car.name if type(x.car) is Sym else None
    if h in ("quote", "quote-syntax"):
        items(x.cdr, 1, 1)
    elif h == "if":
        for y in items(x.cdr, 3, 3):
            check(y)
    elif h == "set!":
        t, v = items(x.cdr, 2, 2)
        ident(t)
        check(v)
    elif h == "define-values":
        t, v = items(x.cdr, 2, 2)
        ids(t, [])
        check(v)
        if not top:
            raise Unsupported("inner definition")
    elif h == "begin":
        for y in items(x.cdr, 1):
            check(y)
    elif h == "lambda":
        if type(x.cdr) is not Pair:
            raise Bad()
        for y in items(x.cdr.cdr, 1):
            check(y)
        formals(x.cdr.car)
    elif h == "case-lambda":
        for c in items(x.cdr):
            if type(c) is not Pair:
                raise Bad()
            for y in items(c.cdr, 1):
                check(y)
            formals(c.car)
    elif h in ("let-values", "letrec-values"):
        if type(x.cdr) is not Pair:
            raise Bad()
        seen = []
        for y in items(x.cdr.cdr, 1):
            check(y)
        for b in items(x.cdr.car):
            n, v = items(b, 2, 2)
            ids(n, seen)
            check(v)
    else:
        for y in items(x):
            check(y)


def wf(text):
    """True, False, or None when it is not specified"""
    bad = False
    # a form that is malformed in one place is malformed, whatever the rest is
    try:
        check(Parser(text).all()[0], True)
    except Bad:
        bad = True
    except Unsupported:
        return None
    return not bad


def reference(text):
    """-> (shown value or None when it is not compared, notes); the value of a fresh evaluation"""
    I = scheme.Interp(fuel=200000)
    I.run_text("(define-values (N) '()) (define-values (note) (lambda (k) (begin (set! N (cons k N)) k))) (define-values (v0) 5) (define-values (f0) (lambda (x) (begin (note 'f0) x)))")
    v = I.toplevel(Parser(text).all()[0])
    if v is scheme.UNSPEC or type(v) is scheme.MV:
        raise Unsupported("value")
    return show(v), show(I.g[scheme.sym("N")])


def judge(case, run, info):
    L, exp, files = [ORIG, HEAD, PRE], [], {}
    nbad = ngood = 0
    for i, (how, text, pre) in enumerate(case["ops"]):
        if how == "data":
            # accepted or not: the values are those of the other routes
            L.append("(begin (set! v0 5) (let-values ([(v) (try (lambda () (eval %s)))]) (report %d (if ERR 0 1))))" % (text, i))
            exp.append((i, how, text, "V 1 *" if pre else "E ()"))
            ngood, nbad = ngood + pre, nbad + 1 - pre
            continue
        ok = wf(text)
        try:
            if ok is None:
                continue
            notes = []
            for p in pre:
                if not wf(p):
                    raise Unsupported("prefix")
                notes = reference("(begin %s %s)" % (" ".join(pre[:pre.index(p) + 1]), "1"))[1]
            if ok:
                val, n = reference(text if not pre else "(begin %s %s)" % (" ".join(pre), text))
                want = "V %s %s" % (val, n)
                ngood += 1
            else:
                want = "E %s" % (notes or "()")
                nbad += 1
        except (Unsupported, IndexError, RecursionError, TypeError, ValueError, AttributeError):
            continue
        if how == "eval":
            e = "(eval '%s)" % text
        elif how == "env":
            e = "(begin (eval '(define-values (v0) 5) ENV) (eval '%s ENV))" % text
        elif how == "nested":
            e = "(car (list (eval '(eval '%s))))" % text
        else:
            files["/w/f%d.min" % i] = "\n".join(pre + [text]) + "\n"
            e = '(load "f%d.min")' % i
        L.append("(begin (set! v0 5) (let-values ([(v) (try (lambda () %s))]) (report %d v)))" % (e, i))
        exp.append((i, how, text, want))
    end = case["end"]
    tail = None
    if end is not None and wf(end) is False:
        # a malformed form of the program itself: what precedes has run, nothing of the form, nothing after
        L.append("(set! QUIET #f)\n(note 'before)\n(current-error-handler default-handler)\n%s\n(note 'after)" % end)
        tail = end
        nbad += 1
    info["nontrivial"] = nbad >= 3 and ngood >= 2
    info["count"] = {"malformed": nbad, "well-formed": ngood}
    files["/w/prog.min"] = "\n".join(L) + "\n"
    r = run.run("nolib", dict(case["cfg"], files=files))
    if r["end"] != "exit":
        return []
    err = r["stderr"].decode("latin-1")
    got = {}
    for l in err.split("\n"):
        p = l.split(" ", 1)
        if len(p) == 2 and p[0].isdigit() and p[1][:2] in ("E ", "V "):
            got[int(p[0])] = p[1]
    for i, how, text, want in exp:
        g = got.get(i)
        if g is None:
            return [("not-run", "operation %d (%s of %s) never reported (code %s, stderr tail %r)" % (i, how, text, r["code"], err[-300:]))]
        if g != want and not (how == "data" and want[0] == "V" and g[:4] == "V 1 "):
            what = "accepted" if want[0] == "E" and g[0] == "V" else "rejected" if want[0] == "V" and g[0] == "E" else "effects" if want[0] == "E" else "value"
            return [(what, "%s of %s gave %r, expected %r" % (how, text, g[:200], want[:200]))]
    if tail is None:
        if r["code"] != 0:
            return [("exit-code", "exit code %s, stderr tail %r" % (r["code"], err[-300:]))]
        return []
    k = err.find("!before ")
    rest = err[k + len("!before "):]
    if k < 0 or "!" in rest.replace("set!", ""):
        return [("effects", "a malformed form in the program, or what follows it, ran: %s: %r" % (tail, err[-300:]))]
    if r["code"] == 0 or not rest.strip():
        return [("accepted", "the program with the malformed form %s ended with code %s and the message %r" % (tail, r["code"], rest[-300:]))]
    return []

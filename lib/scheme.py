"""Reference interpreter: a small executable model of the language (core forms,
prelude procedures, uncaught-error behaviour).  It shares no code with /repo and
knows nothing of stacks, collectors or compilers: environments are Python lists
and continuations are Python frames."""

MASK = (1 << 64) - 1


def wrap(n):
    n &= MASK
    return n - (1 << 64) if n >> 63 else n


def tdiv(a, b):
    q = abs(a) // abs(b)
    return wrap(q if (a < 0) == (b < 0) else -q)


class Unsupported(Exception):
    """the model does not define this program; the case is discarded"""


class Fuel(Unsupported):
    pass


class Exit(Exception):
    def __init__(self, code):
        self.code = code


class Sym:
    __slots__ = ("name",)
    table = {}

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def sym(name):
    s = Sym.table.get(name)
    if s is None:
        s = Sym.table[name] = Sym(name)
    return s


class Pair:
    __slots__ = ("car", "cdr")

    def __init__(self, a, d):
        self.car = a
        self.cdr = d


class Single:
    __slots__ = ("text",)

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text


NIL, VOID, EOF, UNDEF = Single("()"), Single("#<void>"), Single("#<eof>"), Single("#<undef>")
UNSPEC = Single("#<unspecified>")


class Char:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


CHARS = [Char(i) for i in range(256)]


class MStr:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s if isinstance(s, list) else [ord(c) for c in s]

    def text(self):
        return "".join(map(chr, self.s))


class Vec:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Box:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class HT:
    __slots__ = ("kind", "items")

    def __init__(self, kind):
        self.kind = kind
        self.items = []


class OutStr:
    __slots__ = ("buf", "open")

    def __init__(self):
        self.buf = []
        self.open = True


class Stdout:
    pass


class Exn:
    __slots__ = ("kind", "f")

    def __init__(self, kind, *f):
        self.kind = kind
        self.f = f


class Closure:
    __slots__ = ("clauses", "env", "name")

    def __init__(self, clauses, env, name=None):
        self.clauses = clauses
        self.env = env
        self.name = name


class Prim:
    __slots__ = ("name", "fn", "lo", "hi")

    def __init__(self, name, fn, lo, hi):
        self.name = name
        self.fn = fn
        self.lo = lo
        self.hi = hi


class Stx:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class MV:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Tail:
    __slots__ = ("fn", "args")

    def __init__(self, fn, args):
        self.fn = fn
        self.args = args


def to_list(xs, tail=NIL):
    r = tail
    for x in reversed(xs):
        r = Pair(x, r)
    return r


def from_list(p):
    out = []
    while type(p) is Pair:
        out.append(p.car)
        p = p.cdr
    if p is not NIL:
        return None
    return out


def is_list(p):
    while type(p) is Pair:
        p = p.cdr
    return p is NIL


def is_num(x):
    return type(x) is int


NAMES = {7: "alarm", 8: "backspace", 127: "delete", 27: "esc", 10: "newline", 0: "nul", 12: "page", 13: "return", 32: "space", 9: "tab", 11: "vtab"}
ESC = {7: "\\a", 8: "\\b", 10: "\\n", 12: "\\f", 13: "\\r", 9: "\\t", 11: "\\v", 34: '\\"', 92: "\\\\"}


def to_syntax(x):
    t = type(x)
    if t is Stx:
        return x
    if t is Pair:
        xs = []
        while type(x) is Pair:
            xs.append(to_syntax(x.car))
            x = x.cdr
        return Stx(to_list(xs, NIL if x is NIL else to_syntax(x)))
    if t is Vec:
        return Stx(Vec([to_syntax(y) for y in x.v]))
    if t is Box:
        return Stx(Box(to_syntax(x.v)))
    return Stx(x)


def strip(x):
    t = type(x)
    if t is Stx:
        return strip(x.e)
    if t is Pair:
        xs = []
        while type(x) is Pair:
            xs.append(strip(x.car))
            x = x.cdr
        return to_list(xs, strip(x))
    if t is Vec:
        return Vec([strip(y) for y in x.v])
    if t is Box:
        return Box(strip(x.v))
    return x


def show(x, display=False):
    """text of (write x) or (display x)"""
    out = []
    st = [x]
    while st:
        x = st.pop()
        if len(out) > 300000 or len(st) > 300000:
            raise Unsupported("printing does not end")
        t = type(x)
        if t is str:
            out.append(x)
        elif x is UNSPEC:
            raise Unsupported("unspecified value")
        elif t is Sym:
            out.append(x.name)
        elif t is Pair:
            out.append("(")
            rest = [x.car]
            d = x.cdr
            while type(d) is Pair:
                if len(rest) > 300000:
                    raise Unsupported("printing does not end")
                rest.append(" ")
                rest.append(d.car)
                d = d.cdr
            if d is not NIL:
                rest.append(" . ")
                rest.append(d)
            rest.append(")")
            st.extend(reversed(rest))
        elif t is bool:
            out.append("#t" if x else "#f")
        elif t is int:
            out.append(str(x))
        elif t is Single:
            out.append(x.text)
        elif t is Char:
            out.append(chr(x.c) if display else "#\\" + NAMES.get(x.c, chr(x.c)))
        elif t is MStr:
            out.append(x.text() if display else '"' + "".join(ESC.get(c, chr(c)) for c in x.s) + '"')
        elif t is Vec:
            rest = ["#("]
            for i, e in enumerate(x.v):
                if i:
                    rest.append(" ")
                rest.append(e)
            rest.append(")")
            st.extend(reversed(rest))
        elif t is Closure or t is Prim:
            out.append("#<procedure>")
        elif t is Exn:
            out.append("#<%s>" % x.kind)
        elif t is HT:
            out.append("#<hashtable>")
        elif t is Box:
            out.append("#&"); st.append(x.v)
        elif t is Stx:
            rest = ["#<syntax ", strip(x), ">"]
            st.extend(reversed(rest))
        elif t is OutStr or t is Stdout:
            out.append("#<output port>")
        else:
            raise Unsupported("print %r" % t)
    return "".join(out)


class Parser:
    """datum parser for generated program text"""

    def __init__(self, text):
        self.t = text
        self.i = 0

    def ws(self):
        t = self.t
        while self.i < len(t):
            c = t[self.i]
            if c in " \n\t\r":
                self.i += 1
            elif c == ";":
                while self.i < len(t) and t[self.i] != "\n":
                    self.i += 1
            else:
                return True
        return False

    def all(self):
        out = []
        while self.ws():
            out.append(self.datum())
        return out

    def datum(self):
        self.ws()
        t = self.t
        c = t[self.i]
        if c in "([":
            close = ")" if c == "(" else "]"
            self.i += 1
            items = []
            tail = NIL
            while True:
                self.ws()
                c = t[self.i]
                if c == close:
                    self.i += 1
                    return to_list(items, tail)
                if c == "." and t[self.i + 1] in " \n\t(":
                    self.i += 1
                    tail = self.datum()
                    continue
                items.append(self.datum())
        if c == "'":
            self.i += 1
            return to_list([sym("quote"), self.datum()])
        if c == '"':
            self.i += 1
            s = []
            while t[self.i] != '"':
                if t[self.i] == "\\":
                    self.i += 1
                    s.append({"n": 10, "t": 9, "a": 7, "b": 8, "f": 12, "r": 13, "v": 11}.get(t[self.i], ord(t[self.i])))
                else:
                    s.append(ord(t[self.i]))
                self.i += 1
            self.i += 1
            return MStr(s)
        if c == "#":
            d = t[self.i + 1]
            if d == "(":
                self.i += 1
                return Vec(from_list(self.datum()))
            if d == "\\":
                j = self.i + 3
                while j < len(t) and t[j] not in " \n\t()[]\"';":
                    j += 1
                name = t[self.i + 2:j]
                self.i = j
                if len(name) == 1:
                    return CHARS[ord(name)]
                for k, v in NAMES.items():
                    if v == name:
                        return CHARS[k]
                raise Unsupported("char " + name)
            self.i += 2
            if d == "t":
                return True
            if d == "f":
                return False
            raise Unsupported("# syntax")
        j = self.i
        while j < len(t) and t[j] not in " \n\t()[]\"';":
            j += 1
        tok = t[self.i:j]
        self.i = j
        try:
            if tok[0].isdigit() or (tok[0] in "+-" and len(tok) > 1 and tok[1].isdigit()):
                return int(tok)
        except ValueError:
            pass
        return sym(tok)


S = {n: sym(n) for n in "quote lambda case-lambda if begin set! define-values let-values letrec-values define let let* letrec cond else and or when unless case do => delay lazy".split()}


class Scope:
    """compile-time frame"""
    __slots__ = ("names", "up")

    def __init__(self, names, up):
        self.names = names
        self.up = up


class Interp:
    """base: also accept the derived forms of the base library"""

    def __init__(self, base=False, fuel=2000000):
        self.g = {}
        self.out = []
        self.err = []
        self.base = base
        self.fuel = fuel
        self.handler = None
        self.stdout = Stdout()
        self.depth = 0
        self.max_depth = 0
        self.gensym = 0
        install(self)

    # ---- running
    def run_text(self, text):
        """-> exit code"""
        for d in Parser(text).all():
            self.toplevel(d)
        return 0

    def toplevel(self, d):
        f = self.comp(d, None, False)
        return f(None)

    def write(self, port, text):
        if port is self.stdout:
            self.out.append(text)
        elif type(port) is OutStr:
            port.buf.append(text)
        elif port == "err":
            self.err.append(text)
        else:
            raise Unsupported("port")

    # ---- errors
    def raise_(self, exn):
        if self.handler is None:
            self.default_handler(exn)
        return self.call(self.handler, [exn])

    def default_handler(self, e):
        w = self.err.append
        if type(e) is not Exn:
            w("uncaught exception: %s\n" % show(e, True))
            raise Exit(1)
        f = e.f
        w("%s: %s\n" % (show(f[0], True), show(f[1], True)) if f[0] is not False else "error: %s\n" % show(f[1], True))
        if e.kind == "&argument-exn":
            w("  expected: %s\n" % show(f[2], True))
            w("  given: %s\n" % show(f[3], True))
        elif e.kind == "&range-exn":
            w("  range: [%s, %s)\n" % (f[4], f[5]))
            d = show(f[3], True)
            w("  %sindex: %s\n" % (d + " " if d else "", f[6]))
            w("  in: %s\n" % show(f[2], True))
        elif e.kind == "&missing-exn":
            w("  %s: %s\n" % (show(f[2], True), show(f[4], True)))
            w("  in: %s\n" % show(f[3], True))
        elif e.kind != "&exn":
            raise Unsupported("exn kind")
        raise Exit(1)

    def contract(self, who, expected, v):
        return self.raise_(Exn("&argument-exn", sym(who), MStr("contract violation"), MStr(expected), v))

    def contract_stop(self, who, expected, v):
        """a check whose caller goes on afterwards: only defined when the handler does not return"""
        self.raise_(Exn("&argument-exn", sym(who), MStr("contract violation"), MStr(expected), v))
        raise Unsupported("returned from a non-tail contract error")

    def range(self, who, v, lo, hi, idx):
        return self.raise_(Exn("&range-exn", sym(who), MStr("index out of bounds"), v, MStr(""), lo, hi, idx))

    def error(self, who, msg, args):
        if args:
            if len(args) == 1:
                msg = "%s\n  argument: %s" % (msg, show(args[0]))
            else:
                msg = msg + "\n  arguments...:" + "".join("\n   " + show(a) for a in args)
        return self.raise_(Exn("&exn", who, MStr(msg)))

    def cerror(self, *a):
        raise Unsupported("C-level error %r" % (a,))

    # ---- application
    def call(self, fn, args):
        self.depth += 1
        if self.depth > self.max_depth:
            self.max_depth = self.depth
        try:
            while True:
                if type(fn) is Closure:
                    n = len(args)
                    for nreq, rest, nslots, body in fn.clauses:
                        if n == nreq and not rest:
                            env = [fn.env] + args
                            break
                        if rest and n >= nreq:
                            env = [fn.env] + args[:nreq]
                            env.append(to_list(args[nreq:]))
                            break
                    else:
                        self.cerror("arity")
                    self.fuel -= 1
                    if self.fuel < 0:
                        raise Fuel()
                    r = body(env)
                elif type(fn) is Prim:
                    n = len(args)
                    if n < fn.lo or (fn.hi is not None and n > fn.hi):
                        self.cerror("arity", fn.name)
                    self.fuel -= 1
                    if self.fuel < 0:
                        raise Fuel()
                    r = fn.fn(*args)
                else:
                    self.cerror("not a procedure")
                if type(r) is Tail:
                    fn = r.fn
                    args = r.args
                    continue
                return r
        finally:
            self.depth -= 1

    def call1(self, fn, args):
        r = self.call(fn, args)
        if type(r) is MV:
            raise Unsupported("multiple values in a single-value context")
        return r

    # ---- compiler: datum -> python closure over an environment (list, slot 0 = parent)
    def lookup(self, s, scope):
        d = 0
        while scope is not None:
            if s in scope.names:
                return d, scope.names.index(s) + 1
            scope = scope.up
            d += 1
        return None

    def comp(self, x, scope, tail):
        t = type(x)
        if t is Sym:
            return self.ref(x, scope)
        if t is not Pair:
            if x is NIL:
                raise Unsupported("()")
            return lambda env: x
        hd = x.car
        if type(hd) is Sym and self.lookup(hd, scope) is None:
            m = FORMS.get(hd.name)
            if m is None and self.base:
                m = BASEFORMS.get(hd.name)
            if m is not None:
                return m(self, x, scope, tail)
        fn = self.single(hd, scope)
        args = [self.single(a, scope) for a in from_list(x.cdr)]
        if tail:
            def tailcall(env):
                f = fn(env)
                return Tail(f, [a(env) for a in args])
            return tailcall
        call = self.call

        def docall(env):
            f = fn(env)
            return call(f, [a(env) for a in args])
        return docall

    def single(self, x, scope):
        """non-tail, exactly one value"""
        f = self.comp(x, scope, False)
        if type(x) is not Pair:
            return f

        def one(env):
            r = f(env)
            if type(r) is MV:
                raise Unsupported("multiple values")
            return r
        return one

    def ref(self, s, scope):
        a = self.lookup(s, scope)
        if a is None:
            g = self.g

            def gref(env):
                v = g.get(s, UNDEF)
                if v is UNDEF:
                    raise Unsupported("unbound " + s.name)
                return v
            return gref
        d, i = a
        if d == 0:
            def r0(env):
                v = env[i]
                if v is UNDEF:
                    raise Unsupported("uninitialised")
                return v
            return r0
        if d == 1:
            def r1(env):
                v = env[0][i]
                if v is UNDEF:
                    raise Unsupported("uninitialised")
                return v
            return r1

        def rn(env):
            for _ in range(d):
                env = env[0]
            v = env[i]
            if v is UNDEF:
                raise Unsupported("uninitialised")
            return v
        return rn

    def body(self, forms, scope, tail):
        fs = [self.comp(f, scope, False) for f in forms[:-1]]
        last = self.comp(forms[-1], scope, tail)
        if not fs:
            return last

        def seq(env):
            for f in fs:
                f(env)
            return last(env)
        return seq

    def lam(self, formals, body, scope):
        names = []
        while type(formals) is Pair:
            names.append(formals.car)
            formals = formals.cdr
        nreq = len(names)
        rest = formals is not NIL
        if rest:
            names.append(formals)
        check_ids(names)
        inner = Scope(names, scope)
        return nreq, rest, 0, (self.base_body(from_list(body), inner) if self.base else self.body(from_list(body), inner, True))

    def base_body(self, forms, scope):
        defs = []
        i = 0
        while i < len(forms) and type(forms[i]) is Pair and forms[i].car in (S["define"], S["define-values"]):
            defs.append(forms[i])
            i += 1
        if not defs:
            return self.body(forms, scope, True)
        binds = []
        for d in defs:
            l = from_list(d)
            if l is None or l[0] is S["define-values"]:
                binds.append(to_list([l[1], l[2]]))
            else:
                name, val = define_parts(d)
                binds.append(to_list([to_list([name]), val]))
        return self.comp(to_list([S["letrec-values"], to_list(binds)] + forms[i:]), scope, True)


def check_ids(names):
    if any(type(n) is not Sym for n in names) or len(set(names)) != len(names):
        raise Unsupported("bad binding")


def define_parts(d):
    target = d.cdr.car
    if type(target) is Pair:
        return target.car, Pair(S["lambda"], Pair(target.cdr, d.cdr.cdr))
    return target, d.cdr.cdr.car


FORMS, BASEFORMS = {}, {}


def form(name, table=FORMS):
    def deco(f):
        table[name] = f
        return f
    return deco


@form("quote")
def f_quote(I, x, scope, tail):
    v = x.cdr.car
    return lambda env: v


@form("quote-syntax")
def f_quote_syntax(I, x, scope, tail):
    v = to_syntax(x.cdr.car)
    return lambda env: v


@form("if")
def f_if(I, x, scope, tail):
    _, c, a, b = from_list(x)
    c = I.single(c, scope)
    a = I.comp(a, scope, tail)
    b = I.comp(b, scope, tail)

    def doif(env):
        return b(env) if c(env) is False else a(env)
    return doif


@form("begin")
def f_begin(I, x, scope, tail):
    l = from_list(x)[1:]
    if not l:
        raise Unsupported("empty begin")
    return I.body(l, scope, tail)


@form("lambda")
def f_lambda(I, x, scope, tail):
    cl = [I.lam(x.cdr.car, x.cdr.cdr, scope)]
    return lambda env: Closure(cl, env)


@form("case-lambda")
def f_caselambda(I, x, scope, tail):
    cl = [I.lam(c.car, c.cdr, scope) for c in from_list(x.cdr)]
    return lambda env: Closure(cl, env)


@form("set!")
def f_set(I, x, scope, tail):
    _, s, v = from_list(x)
    f = I.single(v, scope)
    a = I.lookup(s, scope)
    if a is None:
        def gset(env):
            val = f(env)
            if I.g.get(s, UNDEF) is UNDEF:
                raise Unsupported("set! of unbound")
            I.g[s] = val
            return UNSPEC
        return gset
    d, i = a

    def lset(env):
        val = f(env)
        for _ in range(d):
            env = env[0]
        env[i] = val
        return UNSPEC
    return lset


def values_n(v, n):
    if type(v) is MV:
        if len(v.v) != n:
            raise Unsupported("value count")
        return v.v
    if n != 1:
        raise Unsupported("value count")
    return [v]


@form("define-values")
def f_defv(I, x, scope, tail):
    if scope is not None:
        raise Unsupported("inner define-values")
    _, names, e = from_list(x)
    names = from_list(names)
    check_ids(names)
    f = I.comp(e, None, False)

    def d(env):
        vs = values_n(f(env), len(names))
        for n, v in zip(names, vs):
            I.g[n] = v
        return VOID
    return d


@form("let-values")
def f_letv(I, x, scope, tail):
    binds = from_list(x.cdr.car)
    names = []
    inits = []
    for b in binds:
        ids, e = from_list(b)
        ids = from_list(ids)
        names += ids
        inits.append((len(ids), I.comp(e, scope, False)))
    check_ids(names)
    inner = Scope(names, scope)
    forms = from_list(x.cdr.cdr)
    body = I.base_letbody(forms, inner, tail) if I.base else I.body(forms, inner, tail)

    def let(env):
        e2 = [env]
        for n, f in inits:
            e2.extend(values_n(f(env), n))
        return body(e2)
    return let


def base_letbody(I, forms, inner, tail):
    if forms and type(forms[0]) is Pair and forms[0].car in (S["define"], S["define-values"]):
        f = I.base_body(forms, inner)
        if tail:
            return f

        def force(env):
            r = f(env)
            if type(r) is Tail:
                return I.call(r.fn, r.args)
            return r
        return force
    return I.body(forms, inner, tail)


Interp.base_letbody = base_letbody


@form("letrec-values")
def f_letrecv(I, x, scope, tail):
    binds = from_list(x.cdr.car)
    names = []
    for b in binds:
        names += from_list(b.car)
    check_ids(names)
    inner = Scope(names, scope)
    inits = []
    k = 1
    for b in binds:
        ids, e = from_list(b)
        n = len(from_list(ids))
        inits.append((k, n, I.comp(e, inner, False)))
        k += n
    forms = from_list(x.cdr.cdr)
    body = I.base_letbody(forms, inner, tail) if I.base else I.body(forms, inner, tail)
    total = len(names)

    def letrec(env):
        e2 = [env] + [UNDEF] * total
        for k, n, f in inits:
            e2[k:k + n] = values_n(f(e2), n)
        return body(e2)
    return letrec


# ---- derived forms of the base library (by desugaring with fresh names)
def fresh(I, name):
    return Sym("%" + name)        # uninterned: cannot capture anything


def L(*xs):
    return to_list(list(xs))


@form("define", BASEFORMS)
def b_define(I, x, scope, tail):
    name, val = define_parts(x)
    return I.comp(L(S["define-values"], L(name), val), scope, tail)


@form("let", BASEFORMS)
def b_let(I, x, scope, tail):
    if type(x.cdr.car) is Sym:
        name = x.cdr.car
        binds = [from_list(b) for b in from_list(x.cdr.cdr.car)]
        lam = Pair(S["lambda"], Pair(to_list([b[0] for b in binds]), x.cdr.cdr.cdr))
        # the loop name is not visible in the initial values
        f = fresh(I, "f")
        vals = [fresh(I, "v") for _ in binds]
        return I.comp(L(CORE["let-values"], to_list([L(L(v), b[1]) for v, b in zip(vals, binds)]),
                        L(CORE["letrec-values"], L(L(L(name), lam)), to_list([name] + vals))), scope, tail)
    binds = [from_list(b) for b in from_list(x.cdr.car)]
    return I.comp(Pair(CORE["let-values"], Pair(to_list([L(L(b[0]), b[1]) for b in binds]), x.cdr.cdr)), scope, tail)


CORE = S


@form("let*", BASEFORMS)
def b_letstar(I, x, scope, tail):
    binds = from_list(x.cdr.car)
    if len(binds) <= 1:
        return I.comp(Pair(S["let"], Pair(to_list(binds), x.cdr.cdr)), scope, tail)
    return I.comp(L(S["let"], L(binds[0]), Pair(S["let*"], Pair(to_list(binds[1:]), x.cdr.cdr))), scope, tail)


@form("letrec", BASEFORMS)
def b_letrec(I, x, scope, tail):
    binds = [from_list(b) for b in from_list(x.cdr.car)]
    return I.comp(Pair(S["letrec-values"], Pair(to_list([L(L(b[0]), b[1]) for b in binds]), x.cdr.cdr)), scope, tail)


@form("and", BASEFORMS)
def b_and(I, x, scope, tail):
    l = from_list(x)[1:]
    if not l:
        return lambda env: True
    if len(l) == 1:
        return I.comp(l[0], scope, tail)
    a = I.single(l[0], scope)
    b = b_and(I, Pair(S["and"], to_list(l[1:])), scope, tail)
    return lambda env: b(env) if a(env) is not False else False


@form("or", BASEFORMS)
def b_or(I, x, scope, tail):
    l = from_list(x)[1:]
    if not l:
        return lambda env: False
    if len(l) == 1:
        return I.comp(l[0], scope, tail)
    a = I.single(l[0], scope)
    b = b_or(I, Pair(S["or"], to_list(l[1:])), scope, tail)

    def o(env):
        v = a(env)
        return v if v is not False else b(env)
    return o


@form("when", BASEFORMS)
def b_when(I, x, scope, tail):
    c = I.single(x.cdr.car, scope)
    b = I.body(from_list(x.cdr.cdr), scope, tail)
    return lambda env: b(env) if c(env) is not False else VOID


@form("unless", BASEFORMS)
def b_unless(I, x, scope, tail):
    c = I.single(x.cdr.car, scope)
    b = I.body(from_list(x.cdr.cdr), scope, tail)
    return lambda env: b(env) if c(env) is False else VOID


@form("cond", BASEFORMS)
def b_cond(I, x, scope, tail):
    cl = []
    for c in from_list(x.cdr):
        if c.car is S["else"]:
            cl.append((None, I.body(from_list(c.cdr), scope, tail)))
        elif c.cdr is NIL:
            raise Unsupported("test-only clause")
        else:
            cl.append((I.single(c.car, scope), I.body(from_list(c.cdr), scope, tail)))

    def cond(env):
        for c, b in cl:
            if c is None or c(env) is not False:
                return b(env)
        return VOID
    return cond


@form("case", BASEFORMS)
def b_case(I, x, scope, tail):
    k = I.single(x.cdr.car, scope)
    cl = []
    for c in from_list(x.cdr.cdr):
        keys = None if c.car is S["else"] else from_list(c.car)
        cl.append((keys, I.body(from_list(c.cdr), scope, tail)))

    def case(env):
        v = k(env)
        for keys, b in cl:
            if keys is None or any(equal(v, q) for q in keys):
                return b(env)
        return VOID
    return case


@form("do", BASEFORMS)
def b_do(I, x, scope, tail):
    specs = [from_list(s) for s in from_list(x.cdr.car)]
    test = from_list(x.cdr.cdr.car)
    inner = Scope([s[0] for s in specs], scope)
    inits = [I.single(s[1], scope) for s in specs]
    steps = [I.single(s[2], inner) if len(s) > 2 else I.ref(s[0], inner) for s in specs]
    tst = I.single(test[0], inner)
    res = I.body(test[1:], inner, tail)
    forms = from_list(x.cdr.cdr.cdr)
    body = I.body(forms, inner, False) if forms else None

    def do(env):
        e2 = [env] + [i(env) for i in inits]
        while tst(e2) is False:
            I.fuel -= 1
            if I.fuel < 0:
                raise Fuel()
            if body:
                body(e2)
            e2 = [env] + [s(e2) for s in steps]
        return res(e2)
    return do


# ---- equality
def eq(a, b):
    if a is b:
        return True
    ta = type(a)
    if ta is not type(b):
        return False
    if ta is int:
        return a == b
    if ta is Char:
        return a.c == b.c
    if ta is bool:
        return a == b
    return False


def equal(a, b):
    while True:
        if eq(a, b):
            return True
        ta = type(a)
        if ta is not type(b):
            return False
        if ta is MStr:
            return a.s == b.s
        if ta is Pair:
            if not equal(a.car, b.car):
                return False
            a, b = a.cdr, b.cdr
            continue
        if ta is Vec:
            return len(a.v) == len(b.v) and all(equal(x, y) for x, y in zip(a.v, b.v))
        if ta is Box:
            a, b = a.v, b.v
            continue
        if ta is HT:
            if a.kind != b.kind or len(a.items) != len(b.items):
                return False
            f = eq if a.kind == "eq" else equal
            for k, v in a.items:
                for k2, v2 in b.items:
                    if f(k2, k):
                        if not equal(v, v2):
                            return False
                        break
                else:
                    return False
            return True
        return False


def ht_find(h, k):
    f = eq if h.kind == "eq" else equal
    for c in h.items:
        if f(c[0], k):
            return c
    return None


def install(I):
    g = I.g
    contract = I.contract

    def prim(name, fn, lo, hi=-1):
        g[sym(name)] = Prim(name, fn, lo, lo if hi == -1 else hi)

    def pred(name, f):
        prim(name, lambda x: bool(f(x)), 1)
    proc = lambda x: type(x) in (Closure, Prim)
    pred("null?", lambda x: x is NIL)
    pred("void?", lambda x: x is VOID)
    pred("eof-object?", lambda x: x is EOF)
    pred("boolean?", lambda x: type(x) is bool)
    pred("char?", lambda x: type(x) is Char)
    pred("symbol?", lambda x: type(x) is Sym)
    pred("pair?", lambda x: type(x) is Pair)
    pred("list?", is_list)
    pred("vector?", lambda x: type(x) is Vec)
    pred("string?", lambda x: type(x) is MStr)
    pred("box?", lambda x: type(x) is Box)
    pred("procedure?", proc)
    for n in ("integer?", "number?", "fixnum?"):
        pred(n, is_num)
    for n in ("negative-integer?", "negative?"):
        pred(n, lambda x: is_num(x) and x < 0)
    for n in ("non-negative-integer?", "non-negative?"):
        pred(n, lambda x: is_num(x) and x >= 0)
    for n in ("positive-integer?", "positive?"):
        pred(n, lambda x: is_num(x) and x > 0)
    pred("hashtable?", lambda x: type(x) is HT)
    prim("not", lambda x: x is False, 1)
    prim("eq?", eq, 2)
    prim("equal?", equal, 2)
    prim("cons", Pair, 2)
    g[sym("null")] = NIL
    g[sym("true")] = True
    g[sym("false")] = False
    g[sym("eof")] = EOF
    prim("identity", lambda x: x, 1)
    prim("void", lambda *a: VOID, 0, None)
    prim("values", lambda *a: a[0] if len(a) == 1 else MV(list(a)), 0, None)
    prim("call-with-values", lambda p, c: Tail(c, vals(I.call(p, []))), 2)

    def vals(v):
        return list(v.v) if type(v) is MV else [v]

    def p_apply(f, *xs):
        if not proc(f):
            I.cerror("apply")
        if not xs:
            I.cerror("apply arity")
        last = from_list(xs[-1])
        if last is None:
            I.cerror("apply")
        return Tail(f, list(xs[:-1]) + last)
    prim("apply", p_apply, 1, None)

    # pairs
    EXP = {"car": "pair?", "cdr": "pair?"}

    def cxr(path):
        name = "c" + path + "r"

        def pat(p):
            # expected-text of the contract
            if len(p) == 1:
                return "pair?"
            inner = pat(p[:-1])
            return "(pairof %s any)" % inner if p[-1] == "a" else "(pairof any %s)" % inner
        exp = pat(path)
        if name == "cadddr":
            exp = "(pairof any (pairof any (pairof any pair?)) any)"   # as shipped (unused by the checks: only the prefix is compared)

        def f(x):
            y = x
            for c in reversed(path):
                if type(y) is not Pair:
                    return contract(name, exp, x)
                y = y.car if c == "a" else y.cdr
            return y
        prim(name, f, 1)
    paths = ["a", "d"]
    allp = list(paths)
    for _ in range(3):
        paths = [c + p for c in "ad" for p in paths]
        allp += paths
    for p in allp:
        cxr(p)

    def set_car(p, v):
        if type(p) is not Pair:
            return contract("set-car!", "pair?", p)
        p.car = v
        return VOID

    def set_cdr(p, v):
        if type(p) is not Pair:
            return contract("set-cdr!", "pair?", p)
        p.cdr = v
        return VOID
    prim("set-car!", set_car, 2)
    prim("set-cdr!", set_cdr, 2)

    # numbers
    def cmpop(name, op):
        def f(*xs):
            if len(xs) == 1:
                return xs[0] if is_num(xs[0]) else contract(name, "number?", xs[0])
            if not is_num(xs[0]):
                return contract(name, "number?", xs[0])
            x = xs[0]
            for y in xs[1:]:
                if not is_num(y):
                    return contract(name, "number?", y)
                if not op(x, y):
                    return False
                x = y
            return True
        prim(name, f, 1, None)
    cmpop("=", lambda a, b: a == b)
    cmpop("<", lambda a, b: a < b)
    cmpop(">", lambda a, b: a > b)
    cmpop("<=", lambda a, b: a <= b)
    cmpop(">=", lambda a, b: a >= b)
    prim("zero?", lambda x: x == 0 if is_num(x) else contract("=", "number?", x), 1)

    def arith(name, op, unit, unary):
        def f(*xs):
            if not xs:
                return unit
            if len(xs) == 1:
                return unary(xs[0]) if is_num(xs[0]) else contract(name, "number?", xs[0])
            for i, x in enumerate(xs[:2]):
                if not is_num(x):
                    return contract(name, "number?", x)
            acc = op(xs[0], xs[1])
            for y in xs[2:]:
                if not is_num(y):
                    return contract(name, "number?", y)
                acc = op(acc, y)
            return acc
        prim(name, f, 0 if unit is not None else 1, None)
    arith("+", lambda a, b: wrap(a + b), 0, lambda x: x)
    arith("*", lambda a, b: wrap(a * b), 1, lambda x: x)
    arith("-", lambda a, b: wrap(a - b), None, lambda x: wrap(-x))

    def div0(who):
        return I.error(sym(who), "division by zero", [0])

    def p_div(*xs):
        if len(xs) == 1:
            if not is_num(xs[0]):
                return contract("/", "number?", xs[0])
            return div0("/") if xs[0] == 0 else tdiv(1, xs[0])
        for x in xs[:2]:
            if not is_num(x):
                return contract("/", "number?", x)
        if xs[1] == 0:
            return div0("/")
        acc = tdiv(xs[0], xs[1])
        for y in xs[2:]:
            if not is_num(y):
                return contract("/", "number?", y)
            if y == 0:
                return div0("/")
            acc = tdiv(acc, y)
        return acc
    prim("/", p_div, 1, None)
    prim("add1", lambda x: wrap(x + 1) if is_num(x) else contract("add1", "number?", x), 1)
    prim("sub1", lambda x: wrap(x - 1) if is_num(x) else contract("sub1", "number?", x), 1)

    def rem(name, f):
        def r(a, b):
            if not is_num(a):
                return contract(name, "number?", a)
            if not is_num(b):
                return contract(name, "number?", b)
            if b == 0:
                return div0(name)
            return f(a, b)
        prim(name, r, 2)
    rem("remainder", lambda a, b: (abs(a) % abs(b)) * (-1 if a < 0 else 1))
    rem("modulo", lambda a, b: a % b)

    # lists
    prim("list", lambda *xs: to_list(list(xs)), 0, None)
    prim("length", lambda x: len(from_list(x)) if is_list(x) else contract("length", "list?", x), 1)
    prim("reverse", lambda x: to_list(from_list(x)[::-1]) if is_list(x) else contract("reverse", "list?", x), 1)

    def p_make_list(n, x):
        if not is_num(n) or n < 0:
            return contract("length", "non-negative-integer?", n)
        if n > 100000:
            raise Unsupported("huge")
        return to_list([x] * n)
    prim("make-list", p_make_list, 2)

    def p_append(*xs):
        if len(xs) <= 2:
            for x in xs:
                if not is_list(x):
                    return contract("append", "list?", x)
        else:
            for x in reversed(xs):
                if not is_list(x):
                    return contract("append", "list?", x)
        if not xs:
            return NIL
        r = xs[-1]
        for x in reversed(xs[:-1]):
            r = to_list(from_list(x), r)
        return r
    prim("append", p_append, 0, None)

    def mapargs(who, f, xss):
        if not proc(f):
            I.contract_stop(who, "procedure?", f)
        n = None
        out = []
        for xs in xss:
            l = from_list(xs)
            if l is None:
                I.contract_stop(who, "list?", xs)
            if n is not None and len(l) != n:
                I.error(sym(who), "lists do not have same size; expected %d, given %s" % (n, show(xs, True)), [])
                raise Unsupported("returned")
            n = len(l)
            out.append(l)
        return list(zip(*out)) if out else []

    def p_map(f, *xss):
        return to_list([I.call1(f, list(a)) for a in mapargs("map", f, xss)])

    def p_foreach(f, *xss):
        for a in mapargs("for-each", f, xss):
            I.call(f, list(a))
        return VOID

    def p_andmap(f, *xss):
        for a in mapargs("andmap", f, xss):
            if I.call1(f, list(a)) is False:
                return False
        return True

    def p_ormap(f, *xss):
        for a in mapargs("ormap", f, xss):
            if I.call1(f, list(a)) is not False:
                return True
        return False
    for n, f in (("map", p_map), ("for-each", p_foreach), ("andmap", p_andmap), ("ormap", p_ormap)):
        prim(n, f, 2, None)
    prim("iota", lambda n: to_list(list(range(n))) if is_num(n) and n >= 0 else contract("iota", "non-negative-fixnum?", n), 1)
    prim("enumerate", lambda x: to_list([Pair(e, i) for i, e in enumerate(from_list(x))]) if is_list(x) else contract("enumerate", "list?", x), 1)

    # chars and strings
    prim("char->integer", lambda c: c.c if type(c) is Char else contract("char->integer", "char?", c), 1)

    def i2c(n):
        if not is_num(n):
            return contract("integer->char", "integer?", n)
        if not 0 < n < 128:
            raise Unsupported("char range")
        return CHARS[n]
    prim("integer->char", i2c, 1)

    def chars(who, xs):
        for x in xs:
            if type(x) is not Char:
                I.contract_stop(who, "char?", x)
            if x.c == 0:
                raise Unsupported("nul")
        return MStr([x.c for x in xs])
    prim("string", lambda *xs: chars("string", xs), 0, None)

    def l2s(x):
        l = from_list(x)
        if l is None:
            raise Unsupported("list->string")
        return chars("list->string", l)
    prim("list->string", l2s, 1)

    def mkstr(n, c=CHARS[97]):
        if not is_num(n) or n < 0:
            I.contract_stop("make-string", "non-negative-integer?", n)
        if type(c) is not Char:
            I.contract_stop("make-string", "char?", c)
        if n > 100000 or c.c == 0:
            raise Unsupported("huge")
        return MStr([c.c] * n)
    prim("make-string", mkstr, 1, 2)
    prim("string-length", lambda s: len(s.s) if type(s) is MStr else contract("string-length", "string?", s), 1)

    def sref(s, i):
        if type(s) is not MStr:
            return contract("string-ref", "string?", s)
        if not is_num(i) or i < 0:
            return contract("string-ref", "non-negative-integer?", i)
        if i >= len(s.s):
            return I.range("string-ref", s, 0, len(s.s), i)
        return CHARS[s.s[i]]
    prim("string-ref", sref, 2)

    def sset(s, i, c):
        if type(s) is not MStr:
            return contract("string-set!", "string?", s)
        if not is_num(i) or i < 0:
            return contract("string-set!", "non-negative-integer?", i)
        if i >= len(s.s):
            return I.range("string-set!", s, 0, len(s.s), i)
        if type(c) is not Char:
            return contract("string-set!", "char?", c)
        if c.c == 0:
            raise Unsupported("nul")
        s.s[i] = c.c
        return VOID
    prim("string-set!", sset, 3)

    def sapp(*xs):
        for x in xs:
            if type(x) is not MStr:
                I.contract_stop("string-append", "string?", x)
        if len(xs) == 1:
            return xs[0]
        r = []
        for x in xs:
            r += x.s
        return MStr(r)
    prim("string-append", sapp, 0, None)
    prim("number->string", lambda n: MStr(str(n)) if is_num(n) else contract("number->string", "number?", n), 1)

    def s2n(s):
        if type(s) is not MStr:
            return contract("string->number", "string?", s)
        t = s.text()
        import re
        if re.fullmatch(r"[+-]?[0-9]+", t):
            v = int(t)
            if -(1 << 63) <= v < (1 << 63):
                return v
            raise Unsupported("overflow")
        raise Unsupported("not a numeral")
    prim("string->number", s2n, 1)
    prim("symbol->string", lambda s: MStr(s.name) if type(s) is Sym else contract("symbol->string", "symbol?", s), 1)
    prim("string->symbol", lambda s: sym(s.text()) if type(s) is MStr else contract("string->symbol", "string?", s), 1)
    prim("string->list", lambda s: to_list([CHARS[c] for c in s.s]) if type(s) is MStr else contract("string->list", "string?", s), 1)

    # vectors and boxes
    prim("vector", lambda *xs: Vec(list(xs)), 0, None)

    def mkvec(n, x=0):
        if not is_num(n) or n < 0:
            I.contract_stop("make-vector", "non-negative-integer?", n)
        if n > 100000:
            raise Unsupported("huge")
        return Vec([x] * n)
    prim("make-vector", mkvec, 1, 2)
    prim("vector-length", lambda v: len(v.v) if type(v) is Vec else contract("vector-length", "vector?", v), 1)

    def vidx(who, v, i):
        if type(v) is not Vec:
            return contract(who, "vector?", v), False
        if not is_num(i) or i < 0:
            return contract(who, "non-negative-integer?", i), False
        if i >= len(v.v):
            return I.range(who, v, 0, len(v.v), i), False
        return None, True

    def vref(v, i):
        r, ok = vidx("vector-ref", v, i)
        return v.v[i] if ok else r

    def vset(v, i, x):
        r, ok = vidx("vector-set!", v, i)
        if ok:
            v.v[i] = x
            return VOID
        return r
    prim("vector-ref", vref, 2)
    prim("vector-set!", vset, 3)

    def vfill(v, x):
        if type(v) is not Vec:
            return contract("vector->list", "vector?", v)
        v.v[:] = [x] * len(v.v)
        return VOID
    prim("vector-fill!", vfill, 2)
    prim("list->vector", lambda x: Vec(from_list(x)) if is_list(x) else contract("list->vector", "list?", x), 1)
    prim("vector->list", lambda v: to_list(v.v) if type(v) is Vec else contract("vector->list", "vector?", v), 1)
    prim("box", Box, 1)
    prim("unbox", lambda b: b.v if type(b) is Box else contract("unbox", "box?", b), 1)

    def setbox(b, v):
        if type(b) is not Box:
            return contract("set-box!", "box?", b)
        b.v = v
        return VOID
    prim("set-box!", setbox, 2)

    # hash tables
    prim("make-eq-hashtable", lambda: HT("eq"), 0)
    prim("make-hashtable", lambda: HT("equal"), 0)

    def htcheck(who, h):
        if type(h) is not HT:
            I.contract_stop(who, "hashtable?", h)

    def ht_set(h, k, v):
        if type(h) is not HT:
            return contract("hashtable-set!", "hashtable?", h)
        c = ht_find(h, k)
        if c:
            c[1] = v
        else:
            h.items.append([k, v])
        return VOID

    def ht_ref(h, k, d=None):
        if type(h) is not HT:
            return contract("hashtable-ref", "hashtable?", h)
        c = ht_find(h, k)
        if c:
            return c[1]
        if d is None:
            return I.raise_(Exn("&missing-exn", sym("hashtable-ref"), MStr("key not found"), MStr("key"), h, k))
        return Tail(d, []) if proc(d) else d

    def ht_upd(h, k, f, d=None):
        if type(h) is not HT:
            return contract("hashtable-update!", "hashtable?", h)
        if not proc(f):
            return contract("hashtable-update!", "procedure?", f)
        c = ht_find(h, k)
        if c:
            v = c[1]
        elif d is None:
            raise Unsupported("update! missing")
        else:
            v = I.call1(d, []) if proc(d) else d
        return ht_set(h, k, I.call1(f, [v]))

    def ht_del(h, k):
        if type(h) is not HT:
            return contract("hashtable-set!", "hashtable?", h)
        c = ht_find(h, k)
        if c:
            h.items.remove(c)
        return VOID

    def ht_copy(h):
        htcheck("hashtable-copy", h)
        r = HT(h.kind)
        r.items = [list(c) for c in h.items]
        return r

    def ht_clear(h):
        htcheck("hashtable-clear!", h)
        h.items = []
        return VOID
    prim("hashtable-set!", ht_set, 3)
    prim("hashtable-ref", ht_ref, 2, 3)
    prim("hashtable-update!", ht_upd, 3, 4)
    prim("hashtable-delete!", ht_del, 2)
    prim("hashtable-contains?", lambda h, k: ht_find(h, k) is not None if type(h) is HT else contract("hashtable-set!", "hashtable?", h), 2)
    prim("hashtable-size", lambda h: len(h.items) if type(h) is HT else contract("hashtable-set!", "hashtable?", h), 1)
    prim("hashtable-copy", ht_copy, 1)
    prim("hashtable-clear!", ht_clear, 1)

    # output
    def port(p):
        return type(p) is OutStr or p is I.stdout or p == "err"

    def out(who, disp):
        def f(x, p=I.stdout):
            if not port(p):
                return contract(who, "output-port?", p)
            I.write(p, show(x, disp))
            return VOID
        prim(who, f, 1, 2)
    out("write", False)
    out("display", True)

    def newline(p=I.stdout):
        if not port(p):
            return contract("newline", "output port?", p)
        I.write(p, "\n")
        return VOID
    prim("newline", newline, 0, 1)
    prim("current-output-port", lambda: I.stdout, 0)
    prim("current-error-port", lambda: "err", 0)
    prim("open-output-string", lambda: OutStr(), 0)

    def getout(p):
        if type(p) is not OutStr:
            raise Unsupported("get-output-string")
        if not p.open:
            raise Unsupported("closed")
        r = MStr("".join(p.buf))
        p.buf = []
        return r
    prim("get-output-string", getout, 1)

    def putchar(p, c):
        if not port(p):
            return contract("put-char", "output-port?", p)
        if type(c) is not Char:
            return contract("put-char", "char?", c)
        I.write(p, chr(c.c))
        return VOID
    prim("put-char", putchar, 2)

    def fmt(who, f, args):
        if type(f) is not MStr:
            raise Unsupported("format of non-string")
        t = f.text()
        r = []
        i = 0
        k = 0
        while i < len(t):
            if t[i] == "~":
                if i + 1 >= len(t):
                    raise Unsupported("bad format")
                d = t[i + 1]
                if d in "aAsS":
                    if k >= len(args):
                        raise Unsupported("format args")
                    r.append(show(args[k], d in "aA"))
                    k += 1
                elif d == "%":
                    r.append("\n")
                elif d == "~":
                    r.append("~")
                else:
                    raise Unsupported("directive")
                i += 2
            else:
                r.append(t[i])
                i += 1
        if k != len(args):
            raise Unsupported("format args")
        return "".join(r)
    prim("format", lambda f, *a: MStr(fmt("format", f, a)), 1, None)

    def p_printf(f, *a):
        I.write(I.stdout, fmt("printf", f, a))
        return VOID

    def p_fprintf(p, f, *a):
        if not port(p):
            return contract("fprintf", "output port?", p)
        I.write(p, fmt("fprintf", f, a))
        return VOID
    prim("printf", p_printf, 1, None)
    prim("fprintf", p_fprintf, 2, None)

    # control
    def p_eval(x, *env):
        if env:
            raise Unsupported("eval env")
        return I.toplevel(x)
    prim("eval", p_eval, 1, 2)

    def p_exit(n=0):
        if not is_num(n) or not 0 <= n <= 255:
            return contract("exit", "an integer between 0 and 255", n)
        raise Exit(n)
    prim("exit", p_exit, 0, 1)
    prim("raise", lambda x: I.raise_(x), 1)

    def p_error(who, msg, *args):
        if not (who is False or type(who) in (Sym, MStr)):
            return contract("error", "symbol? or string? or #f", who)
        if type(msg) is not MStr:
            return contract("error", "string?", msg)
        return I.error(who, msg.text(), list(args))
    prim("error", p_error, 2, None)

    def p_handler(*a):
        if not a:
            raise Unsupported("handler ref")
        if not proc(a[0]):
            return contract("current-error-handler", "procedure?", a[0])
        I.handler = a[0]
        return VOID
    prim("current-error-handler", p_handler, 0, 1)
    KIDS = ("&exn", "&argument-exn", "&range-exn", "&missing-exn")
    pred("exn?", lambda x: type(x) is Exn)
    for i, (n, kind, idx) in enumerate((("exn-who", "&exn", 0), ("exn-message", "&exn", 1), ("argument-exn-expect", "&argument-exn", 2),
                                        ("argument-exn-actual", "&argument-exn", 3), ("range-exn-lower", "&range-exn", 4),
                                        ("range-exn-upper", "&range-exn", 5), ("range-exn-index", "&range-exn", 6),
                                        ("missing-exn-key", "&missing-exn", 4))):
        def acc(e, kind=kind, idx=idx):
            if type(e) is not Exn or (kind != "&exn" and e.kind != kind):
                raise Unsupported("exn accessor")
            return e.f[idx]
        prim(n, acc, 1)
    for kind, fields in (("&exn", ()), ("&argument-exn", ("expect", "actual")), ("&arity-exn", ("expect", "actual")), ("&syntax-exn", ("form", "subform")),
                         ("&range-exn", ("value", "description", "lower", "upper", "index")), ("&missing-exn", ("description", "value", "key"))):
        nm = kind[1:]
        prim("make-" + nm, lambda *a, kind=kind: Exn(kind, *a), 2 + len(fields))
        if fields:
            pred(nm + "?", lambda x, kind=kind: type(x) is Exn and x.kind == kind)
        for j, fl in enumerate(fields):
            def acc2(e, kind=kind, j=j):
                if type(e) is not Exn or e.kind != kind:
                    raise Unsupported("exn accessor")
                return e.f[2 + j]
            prim(nm + "-" + fl, acc2, 1)

    # syntax
    pred("syntax?", lambda x: type(x) is Stx)
    prim("datum->syntax", to_syntax, 1)
    prim("syntax-e", lambda x: x.e if type(x) is Stx else contract("syntax-e", "syntax?", x), 1)
    prim("syntax-loc", lambda x: False if type(x) is Stx else contract("syntax-loc", "syntax?", x), 1)
    prim("syntax->datum", lambda x: strip(x) if type(x) is Stx else contract("syntax->datum", "syntax?", x), 1)

    def stx_list(x):
        if type(x) is not Stx:
            return contract("syntax->list", "syntax?", x)
        once = lambda y: y.e if type(y) is Stx else y
        out = []
        y = once(x)
        while type(y) is Pair:
            out.append(y.car)
            y = once(y.cdr)
        return to_list(out) if y is NIL else False
    prim("syntax->list", stx_list, 1)
    pred("environment?", lambda x: False)
    pred("input-port?", lambda x: False)
    pred("output-port?", lambda x: type(x) in (OutStr, Stdout) or x == "err")
    pred("record?", lambda x: type(x) is Exn and x.kind == "&exn")


def run_program(text, base=False, fuel=400000):
    """-> dict(code, out, err, steps, depth) or raises Unsupported"""
    I = Interp(base=base, fuel=fuel)
    try:
        code = I.run_text(text)
    except Exit as e:
        code = e.code
    except RecursionError:
        raise Unsupported("model recursion")
    return {"code": code, "out": "".join(I.out).encode("latin-1"), "err": "".join(I.err).encode("latin-1"),
            "steps": fuel - I.fuel, "depth": I.max_depth}

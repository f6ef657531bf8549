"""Capture-avoiding renaming of bound variables so that names are reused: a
variable takes the name of an enclosing variable, of a neighbour or of a global
whenever that name does not occur in its own scope.  The meaning is unchanged,
shadowing becomes frequent."""
import re
import scheme

P, Sym = scheme.Pair, scheme.Sym
# procedures whose names a local variable may take (`values` and
# `call-with-values` are also names the compiler knows)
BUILTIN = ["values", "values", "call-with-values", "call-with-values", "apply", "eval", "void", "list", "cons", "car", "+", "error", "raise", "vector"]
QUOTES = ("quote", "quote-syntax")


def lst(x):
    out = []
    while type(x) is P:
        out.append(x.car)
        x = x.cdr
    return out, x


def syms(xs):
    out = set()
    st = list(xs)
    while st:
        x = st.pop()
        if type(x) is P:
            st += [x.car, x.cdr]
        elif type(x) is Sym:
            out.add(x.name)
        elif type(x) is scheme.Vec:
            st += list(x.v)
    return out


def walk(x, outer, found):
    """found: (name, names in its scope, neighbours, enclosing names)"""
    if type(x) is not P:
        return
    xs, _ = lst(x)
    h = xs[0].name if type(xs[0]) is Sym else None
    if h in QUOTES:
        return

    def bind(ids, scope):
        s = syms(scope)
        for n in ids:
            found.append((n, s, set(ids), list(outer)))

    def clause(formals, body):
        ids, rest = lst(formals)
        ids = [i.name for i in ids if type(i) is Sym] + ([rest.name] if type(rest) is Sym else [])
        bind(ids, body)
        for b in body:
            walk(b, outer + ids, found)
    if h == "lambda" and len(xs) > 2:
        clause(xs[1], xs[2:])
    elif h == "case-lambda":
        for c in xs[1:]:
            if type(c) is P:
                clause(c.car, lst(c.cdr)[0])
    elif h in ("let-values", "letrec-values") and len(xs) > 2:
        bs = [lst(b)[0] for b in lst(xs[1])[0]]
        ids = [i.name for b in bs for i in lst(b[0])[0]]
        inits = [b[1] for b in bs]
        bind(ids, xs[2:] + (inits if h[3] == "r" else []))
        for b in inits:
            walk(b, outer + (ids if h[3] == "r" else []), found)
        for b in xs[2:]:
            walk(b, outer + ids, found)
    else:
        for y in xs:
            walk(y, outer, found)


def alias(rng, items, p=0.5, globals_too=True):
    out = []
    glob = []
    forms = [scheme.Parser(t).all() for t in items]
    count = {}
    allf = []
    for fs in forms:
        f = []
        for d in fs:
            walk(d, [], f)
        allf.append(f)
        for x in f:
            count[x[0]] = count.get(x[0], 0) + 1
    for t, fs, found in zip(items, forms, allf):
        m = {}
        rng.shuffle(found)
        for n, scope, sib, outer in found:
            if count[n] > 1 or not re.fullmatch(r"[a-z]+\d+", n) or n in glob or rng.random() > p:
                continue
            now = {m.get(s, s) for s in scope} | {m.get(s, s) for s in sib}
            c = [m.get(u, u) for u in outer]
            if not c or rng.random() < 0.4:
                c += [m.get(u[0], u[0]) for u in found] + (glob if globals_too else [])
            c = [u for u in c if u not in now]
            if rng.random() < 0.2:
                c = [u for u in BUILTIN if u not in now] or c
            if c:
                m[n] = rng.choice(c)
        if m:
            t = re.sub(r"(?<![^\s()\[\]{}'])(%s)(?![^\s()\[\]{}])" % "|".join(sorted(map(re.escape, m), key=len, reverse=True)), lambda k: m[k.group(1)], t)
        out.append(t)
        for d in fs:
            if type(d) is P and type(d.car) is Sym and d.car.name in ("define-values",):
                glob += [i.name for i in lst(d.cdr.car)[0] if re.fullmatch(r"[a-z]+\d+", i.name)]
    return out

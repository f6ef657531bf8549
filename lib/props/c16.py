"""C16: record types and records: identity, inheritance, field isolation, contracts."""
import engine
from script import HEAD, op, parse_log

ID = "C16"
TITLE = "Records keep their type, their fields and their contracts"
LEVEL = "exploration"
QUICK, THOROUGH = 700, 60000
RULE = ("seeded histories over up to seven record types (inheritance chains, sealed and opaque types, empty and long field lists, malformed descriptors), cached constructors, predicates, accessors and mutators, "
        "right and wrong arguments, equality, hash and writer procedures set before and after subtypes exist, record graphs, under seeded collection schedules; compared with a model; non-trivial: at least 4 field accesses over at least 2 types")
REAL, STUB = engine.REAL_CORE, engine.STUB_CORE
ASSUMPTIONS = ["opacity belongs to the descriptor that was declared opaque and is not inherited", "equality, hash and writer procedures are inherited when the subtype is made"]
LISTS = ("ops",)
NT, NR, NK = 7, 7, 15
PRE = r"""
(define-values (T) (make-vector 8 #f))
(define-values (R) (make-vector 8 #f))
(define-values (P) (make-vector 16 #f))
(define-values (D) '())
(define-values (ix) (lambda (v x i) (if (= i 8) #f (if (eq? x (vector-ref v i)) i (ix v x (+ i 1))))))
(define-values (rec~) (lambda (x i) (if (= i 8) #f (if (if (vector-ref T i) ((record-predicate (vector-ref T i)) x) #f) #t (rec~ x (+ i 1))))))
(define-values (sh) (lambda (v) (if (record-type-descriptor? v) (list 't (ix T v 0)) (if (procedure? v) 'proc (if (rec~ v 0) (list 'r (ix R v 0)) v)))))
(define-values (shl) (lambda (l) (map sh l)))
(define-values (put!) (lambda (v i x) (if ERR 'skip (vector-set! v i x))))
(define-values (wr) (lambda (x) (let-values ([(p) (open-output-string)]) (begin (write x p) (get-output-string p)))))
(define-values (all) (lambda (r t) (letrec-values ([(f) (lambda (i n) (if (< i n) (cons (sh ((record-accessor t i) r)) (f (+ i 1) n)) '()))]) (f 0 (vector-length (record-type-field-names t))))))
(define-values (many) (lambda (k n acc) (if (= n 0) acc (many k (- n 1) (cons (k n) acc)))))
(define-values (sum) (lambda (g l acc) (if (null? l) acc (sum g (cdr l) (+ acc (g (car l)))))))
(define-values (each!) (lambda (m l v) (if (null? l) 'ok (begin (m (car l) v) (each! m (cdr l) (+ v 1))))))
"""
BAD = ["name", "parent", "uid", "sealed", "opaque", "fields", "spec", "spec2", "spec3", "spec4", "dup", "dup2"]


def fields(rng, n):
    return [[int(rng.random() < 0.65), "f%d" % k] for k in range(n)]


def val(rng):
    r = rng.random()
    return ["r", rng.randrange(NR)] if r < 0.25 else ["t", rng.randrange(NT)] if r < 0.3 else ["s", rng.choice(["#f", "#f", "#t", "'()", "'sym", "(void)"])] if r < 0.45 else ["i", rng.randrange(100)] if r < 0.9 else ["l", rng.randrange(100)]


def gen(rng, tier, i):
    ops = []
    nt = rng.choice([2, 3, NT])
    chain = rng.random() < 0.6
    types, procs, recs = {}, {}, {}

    def ty(t):
        par = None if t == 0 or rng.random() < 0.2 else (t - 1 if chain else rng.randrange(t))
        sealed = int(rng.random() < (0.3 if t == nt - 1 else 0.06))
        bad = rng.choice(BAD) if rng.random() < 0.06 else None
        fl = fields(rng, rng.choice([0, 1, 1, 2, 3, 3, 6, 9] if rng.random() < 0.93 else [12, 20, 33]))
        if par is not None and par not in types:
            par = None
        if not bad and not (par is not None and types[par][1]):
            anc = types[par][2] if par is not None else ()
            types[t] = (fl, sealed, anc + (object(),))
        return ["type", t, rng.choice(["point", "p", "a-type"]), par, sealed, int(rng.random() < 0.25), rng.choice([None, "u1", "u2"]), fl, bad]

    def proc(kind, k, t):
        if t in types:
            procs[k] = (kind, types[t][2][-1])
        return [kind, k, t]

    def access(kind, k, t):
        n = len(types[t][0]) if t in types else 0
        ok = [j for j in range(n) if kind == "acc" or types[t][0][j][0]]
        if ok and rng.random() < 0.85:
            j = rng.choice(ok)
            procs[k] = (kind, types[t][2][-1])
        else:
            j = rng.choice([0, 1, 2, n, n, n + 1, -1, "sym"])
        return [kind, k, t, j]

    def nvals():
        return 1 + max([30] + [sum(len(u[0]) for u in types.values() if u[2][-1] in t[2]) for t in types.values()])

    def make(r, t=None):
        cs = [k for k in procs if procs[k][0] == "ctor"]
        if not cs:
            return ["ctor", 0, 0]
        k = rng.choice(cs)
        delta = rng.choice([0] * 9 + [1, -1, 2])
        if not delta:
            recs[r] = [t[2] for t in types.values() if t[2][-1] is procs[k][1]] or [()]
            recs[r] = recs[r][0]
        return ["make", r, k, [val(rng) for _ in range(nvals())], delta, rng.randrange(2)]

    for t in range(nt):
        ops.append(ty(t))
        ops.append(proc("ctor", t, t))
        if rng.random() < 0.8:
            ops.append(make(rng.randrange(NR)))
        for kind in rng.sample(["acc", "mut", "acc"], rng.randrange(1, 4)):
            ops.append(access(kind, rng.randrange(nt, NK), t))
    for _ in range(rng.choice([10, 25, 50] if tier == "quick" else [25, 60, 120])):
        t, k, r = rng.randrange(nt), rng.randrange(NK), rng.randrange(NR)
        x = rng.random()
        if x < 0.02:
            ops.append(ty(t))
        elif x < 0.08:
            ops.append(proc(rng.choice(["ctor", "pred", "pred"]), k, t))
        elif x < 0.17:
            ops.append(access(rng.choice(["acc", "acc", "mut"]), k, t))
        elif x < 0.27:
            ops.append(make(r))
        elif x < 0.62:
            ks = [k for k in procs if procs[k][0] != "ctor"]
            rs = sorted(recs)
            if not ks or not rs:
                continue
            k, r = rng.choice(ks), rng.choice(rs)
            if rng.random() < 0.75:
                good = [(a, b) for a in ks for b in rs if procs[a][1] in recs[b]]
                if good:
                    k, r = rng.choice(good)
            ops.append(["call", k, r, val(rng)])
        elif x < 0.66:
            ops.append(["info", t, rng.choice(["name", "parent", "uid", "sealed", "opaque", "names", "mut?", "mut?", "rtd?"]), rng.randrange(-1, 1 + max(3, len(types[t][0]) if t in types else 3))])
        elif x < 0.7:
            ops.append(["rec?", r])
        elif x < 0.73:
            ops.append(["notrec", k, rng.choice(["5", "'sym", "'(1 2)", '"str"', "(make-hashtable)", "(make-eq-hashtable)", "car", "(vector 1 2)", "(box 1)", "T0", "(current-output-port)"])])
        elif x < 0.81:
            ops.append([rng.choice(["eqp", "hashp", "wrp"]), t, rng.choice(["yes", "no", "acc", "acc"]), rng.randrange(3)])
        elif x < 0.83:
            ops.append([rng.choice(["defeq", "defhash"]), rng.choice(["yes", "no"])])
        elif x < 0.94:
            rs = sorted(recs) or [0]
            ops.append([rng.choice(["equal", "hash", "write"]), rng.choice(rs), rng.choice(rs)])
        elif x < 0.97:
            ks = [k for k in procs if procs[k][0] == "ctor"] or [0]
            ops.append(["many", rng.choice(ks), rng.randrange(nt), rng.choice([3, 20, 60])])
        else:
            ops.append([rng.choice(["dropr", "dropt", "dropp"]), rng.randrange(NT)])
    return {"ops": ops, "cfg": engine.rand_cfg(rng, 150000, heavy=0.02)}


class Ty:
    def __init__(self, name, parent, sealed, opaque, uid, fl):
        self.name, self.parent, self.sealed, self.opaque, self.uid, self.fl = name, parent, sealed, opaque, uid, fl
        self.procs = dict(parent.procs) if parent else {}
        self.base = parent.size if parent else 0
        self.size = self.base + len(fl)


class Rec:
    def __init__(self, ty, vals):
        self.ty, self.vals = ty, vals

    def isa(self, ty):
        t = self.ty
        while t is not None:
            if t is ty:
                return True
            t = t.parent
        return False


class Deep(Exception):
    pass


def build(case):
    L, exp, stat = [HEAD, PRE], [], {"acc": 0, "types": set()}
    T, R, P = [None] * 8, [None] * 8, [None] * 16
    default = {"eq": None, "hash": None}
    fresh = [0]

    def out(i, text, want, ret="(sh v)"):
        L.append(op(i, text, ret))
        exp.append((i, want))

    def sh(v):
        if isinstance(v, Ty):
            return "(t %s)" % (T.index(v) if v in T else "#f")
        if isinstance(v, Rec):
            known = any(t is not None and v.isa(t) for t in T)
            if not known:
                return None     # shown by the writer: not compared
            return "(r %s)" % (R.index(v) if v in R else "#f")
        return str(v)

    def vtext(a):
        if a[0] == "r":
            return "(vector-ref R %d)" % a[1], R[a[1]]
        if a[0] == "t":
            return "(vector-ref T %d)" % a[1], T[a[1]]
        if a[0] == "s":
            return a[1], {"'()": "()", "'sym": "sym", "(void)": "#<void>"}.get(a[1], a[1])
        if a[0] == "l":
            return "'(%d x)" % a[1], "(%d x)" % a[1]
        return str(a[1]), a[1]

    def equal(a, b, d=0):
        if d > 40:
            raise Deep
        if a is b:
            return True
        if not (isinstance(a, Rec) and isinstance(b, Rec)):
            return a == b if not isinstance(a, (Rec, Ty)) and not isinstance(b, (Rec, Ty)) else False
        p = a.ty.procs.get("eqp")
        p = p if p and p is b.ty.procs.get("eqp") else default["eq"]
        if p is None:
            return False
        if p[0] in ("yes", "no"):
            return p[0] == "yes"
        return equal(a.vals[p[1]], b.vals[p[1]], d + 1)

    def hsh(a, d=0):
        if d > 40:
            raise Deep
        if not isinstance(a, Rec):
            if isinstance(a, str):
                raise Deep
            return ("v", id(a) if isinstance(a, Ty) else a)
        p = a.ty.procs.get("hashp")
        if p is None:
            return ("d",) + default["hash"] if default["hash"] else ("v", id(a))
        return ("c", p[0]) if p[0] in ("yes", "no") else ("a", hsh(a.vals[p[1]], d + 1))

    def written(v, d=0):
        if d > 25:
            raise Deep
        if isinstance(v, Ty):
            return "#<record-type:%s>" % v.name
        if isinstance(v, Rec):
            p = v.ty.procs.get("wrp")
            if not p:
                return "#<%s>" % v.ty.name
            return {"yes": "<yes>", "no": ""}[p[0]] if p[0] in ("yes", "no") else "<" + written(v.vals[p[1]], d + 1) + ">"
        return str(v)

    for i, o in enumerate(case["ops"]):
        k = o[0]
        if k == "type":
            _, t, name, par, sealed, opaque, uid, fl, bad = o
            pt = T[par] if par is not None else None
            spec = ["(%s %s)" % ("mutable" if m else "immutable", n) for m, n in fl]
            a = ["'" + name, "(vector-ref T %d)" % par if pt else "#f", "'" + uid if uid else "#f", "#t" if sealed else "#f", "#t" if opaque else "#f", None]
            if bad == "name":
                a[0] = '"%s"' % name
            elif bad == "parent":
                a[1] = "'none"
            elif bad == "uid":
                a[2] = "7"
            elif bad == "sealed":
                a[3] = "0"
            elif bad == "opaque":
                a[4] = "'yes"
            elif bad in ("spec", "spec2", "spec3", "spec4"):
                spec.append({"spec": "(const q)", "spec2": "q", "spec3": '(mutable "q")', "spec4": "(mutable q r)"}[bad])
            elif bad == "dup":
                spec += ["(mutable q)", "(mutable q)"]
            elif bad == "dup2":
                spec = ["(immutable q)"] + spec + ["(mutable q)"]
            a[5] = ("'(%s)" if bad == "fields" else "'#(%s)") % " ".join(spec)
            out(i, "(begin (let-values ([(x) (make-record-type-descriptor %s)]) (put! T %d x)) 'ok)" % (" ".join(a), t), None if bad or (pt and pt.sealed) else "ok")
            if exp[-1][1]:
                T[t] = Ty(name, pt, bool(sealed), bool(opaque), uid, fl)
        elif k in ("ctor", "pred"):
            _, p, t = o
            f = {"ctor": "record-constructor", "pred": "record-predicate"}[k]
            out(i, "(begin (let-values ([(x) (%s (vector-ref T %d))]) (put! P %d x)) 'ok)" % (f, t, p), "ok" if T[t] else None)
            if T[t]:
                P[p] = (k, T[t])
        elif k in ("acc", "mut"):
            _, p, t, n = o
            good = T[t] and n != "sym" and 0 <= n < len(T[t].fl) and (k == "acc" or T[t].fl[n][0])
            out(i, "(begin (let-values ([(x) (record-%s (vector-ref T %d) %s)]) (put! P %d x)) 'ok)" % ("accessor" if k == "acc" else "mutator", t, "'sym" if n == "sym" else n, p), "ok" if good else None)
            if good:
                P[p] = (k, T[t], T[t].base + n)
        elif k == "make":
            _, r, p, args, delta, how = o
            if not P[p] or P[p][0] != "ctor":
                continue
            ty = P[p][1]
            n = max(0, ty.size + delta)
            av = [vtext(x) for x in (args * 6)[:n]]
            if any(x[1] is None for x in av):
                av = [x if x[1] is not None else ("0", 0) for x in av]
            at = " ".join(x[0] for x in av)
            call = "((vector-ref P %d) %s)" % (p, at) if how == 0 else "(apply (vector-ref P %d) (list %s))" % (p, at)
            ok = n == ty.size
            out(i, "(begin (let-values ([(x) %s]) (put! R %d x)) 'ok)" % (call, r), "ok" if ok else None)
            if ok:
                R[r] = Rec(ty, [x[1] for x in av])
        elif k == "call":
            _, p, r, v = o
            if not P[p] or P[p][0] == "ctor" or R[r] is None:
                continue
            pr, rec = P[p], R[r]
            isa = rec.isa(pr[1])
            if pr[0] == "pred":
                out(i, "((vector-ref P %d) (vector-ref R %d))" % (p, r), "#t" if isa else "#f")
                continue
            stat["acc"] += 1
            stat["types"].add(id(rec.ty))
            if pr[0] == "acc":
                w = sh(rec.vals[pr[2]]) if isa else "E"
                if w is None:
                    continue
                out(i, "((vector-ref P %d) (vector-ref R %d))" % (p, r), None if w == "E" else w)
            else:
                vt, vv = vtext(v)
                if vv is None:
                    vt, vv = "0", 0
                out(i, "(begin ((vector-ref P %d) (vector-ref R %d) %s) 'ok)" % (p, r, vt), "ok" if isa else None)
                if isa:
                    rec.vals[pr[2]] = vv
        elif k == "info":
            _, t, what, n = o
            ty = T[t]
            tt = "(vector-ref T %d)" % t
            if what == "rtd?":
                out(i, "(list (record-type-descriptor? %s) (record? %s))" % (tt, tt), "(%s #f)" % ("#t" if ty else "#f"))
                continue
            text = "(record-type-field-mutable? %s %d)" % (tt, n) if what == "mut?" else "(record-type-%s %s)" % ({"sealed": "sealed?", "opaque": "opaque?", "names": "field-names"}.get(what, what), tt)
            if ty is None:
                out(i, text, None)
                continue
            b = lambda x: "#t" if x else "#f"
            w = {"name": ty.name, "parent": sh(ty.parent) if ty.parent else "#f", "uid": ty.uid or "#f", "sealed": b(ty.sealed), "opaque": b(ty.opaque), "names": "#(%s)" % " ".join(n2 for _, n2 in ty.fl),
                 "mut?": b(ty.fl[n][0]) if 0 <= n < len(ty.fl) else None}[what]
            out(i, text, w)
        elif k == "rec?":
            rec = R[o[1]]
            if rec is None:
                continue
            op_ = rec.ty.opaque
            out(i, "(record? (vector-ref R %d))" % o[1], "#f" if op_ else "#t")
            out(1000 + i, "(record-rtd (vector-ref R %d))" % o[1], None if op_ else sh(rec.ty))
        elif k == "notrec":
            _, p, x = o
            if not P[p] or P[p][0] == "ctor":
                continue
            if x == "T0":
                x = "(vector-ref T 0)"
            pr = P[p][0]
            out(i, "((vector-ref P %d) %s%s)" % (p, x, " 1" if pr == "mut" else ""), "#f" if pr == "pred" else None)
            out(1000 + i, "(list (record? %s) (record-type-descriptor? %s))" % (x, x), "(#f %s)" % ("#t" if "T 0" in x and T[0] else "#f"))
        elif k in ("eqp", "hashp", "wrp"):
            _, t, how, n = o
            ty = T[t]
            if ty is None:
                continue
            if how == "acc" and n >= len(ty.fl):
                how = "yes"
            f = {"eqp": "record-type-equal-procedure", "hashp": "record-type-hash-procedure", "wrp": "record-writer"}[k]
            b = {"eqp": "(lambda (a b r) (if (eq? r equal?) %s 'bad))", "hashp": "(lambda (a r) (+ 77 %s))", "wrp": "(lambda (x p d) %s)"}[k]
            if how == "acc":
                e = {"eqp": "(r (g a) (g b))", "hashp": "(r (g a))", "wrp": "(begin (put-string p \"<\") (write (g x) p) (put-string p \">\"))"}[k]
            elif how == "yes":
                e = {"eqp": "#t", "hashp": "(if (eq? r equal-hash) 1 2)", "wrp": "(put-string p \"<yes>\")"}[k]
            else:
                e = {"eqp": "#f", "hashp": "5", "wrp": "(void)"}[k]
            g = "(record-accessor (vector-ref T %d) %d)" % (t, n) if how == "acc" else "#f"
            out(i, "(begin (%s (vector-ref T %d) (let-values ([(g) %s]) %s)) (procedure? (%s (vector-ref T %d))))" % (f, t, g, b % e, f, t), "#t")
            fresh[0] += 1
            ty.procs[k] = (how, ty.base + n, fresh[0])
        elif k == "defeq":
            out(i, "(begin (default-record-equal-procedure (lambda (a b r) %s)) 'ok)" % ("#t" if o[1] == "yes" else "#f"), "ok")
            default["eq"] = (o[1],)
        elif k == "defhash":
            out(i, "(begin (default-record-hash-procedure (lambda (a r) %s)) 'ok)" % ("78" if o[1] == "yes" else "5"), "ok")
            default["hash"] = (o[1],)
        elif k in ("equal", "hash", "write"):
            _, a, b = o
            if R[a] is None or R[b] is None:
                continue
            try:
                if k == "equal":
                    w = "#t" if equal(R[a], R[b]) else "#f"
                    out(i, "(equal? (vector-ref R %d) (vector-ref R %d))" % (a, b), w)
                    w2 = "#t" if equal(R[b], R[a]) else "#f"
                    out(1000 + i, "(equal? (list 1 (vector-ref R %d)) (list 1 (vector-ref R %d)))" % (b, a), w2)
                elif k == "hash":
                    if hsh(R[a]) == hsh(R[b]):
                        out(i, "(= (equal-hash (vector-ref R %d)) (equal-hash (vector-ref R %d)))" % (a, b), "#t")
                else:
                    out(i, "(wr (vector-ref R %d))" % a, '"%s"' % written(R[a]))
            except Deep:
                pass
        elif k == "many":
            _, p, t, n = o
            if not P[p] or P[p][0] != "ctor" or P[p][1].size != 1 or not T[t] or not T[t].fl:
                continue
            ok = P[p][1] is T[t] or (P[p][1].base == 1 and Rec(P[p][1], []).isa(T[t]))
            if not ok:
                continue
            m = T[t].fl[0][0]
            out(i, "(let-values ([(l) (many (vector-ref P %d) %d '())] [(g) (record-accessor (vector-ref T %d) 0)]) (list (sum g l 0) %s (sum g l 0)))" % (p, n, t, "(each! (record-mutator (vector-ref T %d) 0) l 100)" % t if m else "'ok"),
                "(%d ok %d)" % (n * (n + 1) // 2, sum(range(100, 100 + n)) if m else n * (n + 1) // 2), "v")
        else:
            n = o[1]
            v = {"dropr": "R", "dropt": "T", "dropp": "P"}[k]
            {"R": R, "T": T, "P": P}[v][n] = None
            out(i, "(begin (vector-set! %s %d #f) 'ok)" % (v, n), "ok")
    for r in range(NR):
        if R[r] is None:
            continue
        t = R[r].ty
        while t is not None:
            if t in T:
                w = [sh(x) for x in R[r].vals[t.base:t.base + len(t.fl)]]
                if None not in w:
                    out(10000 + r * 100 + T.index(t), "(all (vector-ref R %d) (vector-ref T %d))" % (r, T.index(t)), "(%s)" % " ".join(w) if w else "()", "v")
            t = t.parent
        t = R[r].ty
        out(20000 + r, "(record? (vector-ref R %d))" % r, "#f" if t.opaque else "#t")
        out(20100 + r, "(record-rtd (vector-ref R %d))" % r, None if t.opaque else sh(t))
    for k, t in enumerate(T):
        if t is not None:
            b = lambda x: "#t" if x else "#f"
            d = "(vector-ref T %d)" % k
            out(20200 + k, "(list (record-type-name %s) (record-type-uid %s) (record-type-sealed? %s) (record-type-opaque? %s) (record-type-field-names %s))" % (d, d, d, d, d),
                "(%s %s %s %s #(%s))" % (t.name, t.uid or "#f", b(t.sealed), b(t.opaque), " ".join(n for _, n in t.fl)))
            out(20300 + k, "(list%s)" % "".join(" (record-type-field-mutable? %s %d)" % (d, n) for n in range(len(t.fl))), "(%s)" % " ".join(b(m) for m, _ in t.fl) if t.fl else "()")
    return "\n".join(L) + "\n", exp, stat


def judge(case, run, info):
    text, exp, stat = build(case)
    info["nontrivial"] = stat["acc"] >= 4 and len(stat["types"]) >= 2
    r = run.run("nolib", dict(case["cfg"], files={"/w/prog.min": text}))
    if r["end"] != "exit":
        return []
    done, rest = parse_log(r["stderr"])
    for i, want in exp:
        res = done.get(i)
        what = case["ops"][i % 1000] if i % 1000 < len(case["ops"]) and i < 10000 else "final state"
        if res is None:
            return [("not-run", "operation %d %r never reported (code %s, stderr tail %r)" % (i, what, r["code"], r["stderr"][-300:]))]
        if want is None:
            if res[0] != "E":
                return [("no-error", "operation %d %r gave %r instead of an error" % (i, what, res[1][:200]))]
        elif res != ("V", want):
            return [("value", "operation %d %r gave %r, expected %r" % (i, what, res, want))]
    if rest.strip() or r["code"] != 0:
        return [("messages", "unexpected messages %r, exit code %s" % (rest[:400], r["code"]))]
    return []

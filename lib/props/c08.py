"""C08: input fidelity: what a program reads is what the source holds."""
import engine
from script import HEAD, op, sstr, parse_log

ID = "C08"
TITLE = "Reading delivers the source's characters exactly; failures are not end of input"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 1300, 90000
RULE = ("seeded histories of read-char, peek-char, char-ready?, read, close and reopen over files, standard input and string ports, with arbitrary bytes, piecemeal reads, "
        "buffer sizes, failing and short reads and failing opens; non-trivial: at least 3 characters or data were delivered")
REAL, STUB = engine.REAL_CORE + ["glibc libio buffering (over simulated descriptors)"], engine.STUB_CORE
ASSUMPTIONS = ["a failed read consumes nothing (as read(2))"]
LISTS = ("ops", "faults", "segs")
NV = 3

ATOMS = [("abc", "abc"), ("x", "x"), ("12", "12"), ("-7", "-7"), ("#t", "#t"), ("#f", "#f"), ('"s t"', '"s t"'), ('"a\\nb"', '"a\\nb"'), ("#\\a", "#\\a"), ("#\\space", "#\\space"),
         ("()", "()"), ("[q]", "[q]"), ("'q", "(quote q)"), ("#xff", "255"), ("+", "+"), ("-", "-"), ("...", "..."), ("a.b", "a.b"), ("1+", "1+"), ('""', '""'),
         ("list->vector", "list->vector"), ("#\\x", "#\\x"), ("0", "0"), ("#()", "#()")]
ATOMS = [(a, b if a != "[q]" else "(q)") for a, b in ATOMS]


def datum(rng, d):
    if d == 0 or rng.random() < 0.4:
        return rng.choice(ATOMS)
    xs = [datum(rng, d - 1) for _ in range(rng.randrange(1, 5))]
    o, c = rng.choice(["()", "()", "[]", "{}"])
    k = rng.random()
    if k < 0.15:
        return "#(" + " ".join(x[0] for x in xs) + ")", "#(" + " ".join(x[1] for x in xs) + ")"
    if k < 0.3 and len(xs) > 1:
        y = rng.choice(ATOMS[:5])
        return o + " ".join(x[0] for x in xs) + " . " + y[0] + c, "(" + " ".join(x[1] for x in xs) + " . " + y[1] + ")"
    sep = rng.choice([" ", "  ", "\n", " ;c\n", " #|b|# ", "\t"])
    return o + sep.join(x[0] for x in xs) + c, "(" + " ".join(x[1] for x in xs) + ")"


def gen(rng, tier, i):
    srcs = []
    for k in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(["file", "file", "stdin", "string"])
        if kind == "stdin" and any(s["kind"] == "stdin" for s in srcs):
            kind = "file"
        segs = []
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 3, 8, 40])):
                segs.append(["ws", rng.choice([" ", "\n", "\t ", "\n; note ( \"\n", " #| a (b |#", " #;(x y) ", "  \r\n"]), ""])
                a, b = datum(rng, rng.choice([0, 1, 2, 3]))
                segs.append(["d", a, b])
            if rng.random() < 0.7:
                segs.append(["ws", rng.choice(["\n", " ", " ;end\n", " ; no newline"]), ""])
        else:
            n = rng.choice([0, 1, 2, 5, 20, 100, 100, 5000 if kind != "string" else 300])
            lo = 1 if kind == "string" else 0
            al = rng.choice([None, "ab\n", "xyz \n\t"])
            if kind == "string":
                al = al or "abc()\"\\ ;#'\n\t"
            segs.append(["raw", "".join(rng.choice(al) if al else chr(rng.randrange(lo, 256)) for _ in range(n)), ""])
        srcs.append({"kind": kind, "segs": segs})
    ops = []
    for k in range(rng.choice([5, 12, 30, 60])):
        v = rng.randrange(NV)
        s = rng.randrange(len(srcs))
        r = rng.random()
        if k < 2 or r < 0.08:
            ops.append(["open", v, s])
        elif r < 0.12:
            ops.append(["close", v])
        elif r < 0.2:
            ops.append(["drain", v, rng.choice([3, 10, 50, 400, 100000])])
        elif r < 0.24:
            ops.append(["garbage", rng.randrange(20, 300)])
        else:
            ops.append([rng.choice(["rc", "rc", "rc", "pc", "pc", "cr", "rd", "rd", "rd"]), v])
    cfg = engine.rand_cfg(rng, allocs=60000, heavy=0.03)
    cfg["fbuf"] = rng.choice([0, 1, 2, 16, 64, 512])
    if rng.random() < 0.5:
        cfg["chunk"] = rng.choice([1, 2, 7, 100])
    faults = []
    if rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2, 3])):
            kind = rng.choice(["read:file!/w/prog.min", "read:file!/w/prog.min", "read:stdin", "read:tmp", "open:r!/w/prog.min", "open:tmp", "write:tmp", "seek:tmp"])
            if kind.startswith("read") and rng.random() < 0.3:
                faults.append([kind, rng.randrange(1, 10), 0, rng.choice([1, 2]), 0, 0])
            else:
                # the first open is the program itself
                nth = rng.choice([1, 1, 2, 3, 4, rng.randrange(1, 30)])
                faults.append([kind, nth, rng.choice([5, 5, 4, 11]) if kind.startswith("read") else rng.choice([5, 13, 24, 28]), 0, int(rng.random() < 0.12 and kind != "write:tmp"), 0])
    return {"srcs": srcs, "ops": ops, "cfg": cfg, "faults": faults}


PRE = """
(define-values (drain)
  (lambda (p n acc)
    (if (= n 0)
        (reverse acc)
        (let-values ([(c) (read-char p)])
          (if (char? c) (drain p (- n 1) (cons (char->integer c) acc)) (reverse (cons (if (eof-object? c) 'eof c) acc)))))))
(define-values (spin) (lambda (n) (if (= n 0) 'spun (begin (make-vector 8 n) (spin (- n 1))))))
"""


def data_of(src):
    return "".join(s[1] for s in src["segs"])


def program(case):
    L = [HEAD, PRE]
    for v in range(NV):
        L.append("(define-values (p%d) #f)" % v)
    for i, o in enumerate(case["ops"]):
        k = o[0]
        p = "p%s" % o[1]
        if k == "open":
            s = case["srcs"][o[2]]
            e = {"file": "(open-input-file \"/w/src%d\")" % o[2], "stdin": "(current-input-port)", "string": "(open-input-string %s)" % sstr(data_of(s))}[s["kind"]]
            L.append(op(i, e, "(begin (set! p%d v) (input-port? v))" % o[1]))
        elif k == "close":
            L.append(op(i, "(close-input-port %s)" % p))
        elif k == "rc":
            L.append(op(i, "(read-char %s)" % p, "(if (char? v) (char->integer v) v)"))
        elif k == "pc":
            L.append(op(i, "(peek-char %s)" % p, "(if (char? v) (char->integer v) v)"))
        elif k == "cr":
            L.append(op(i, "(char-ready? %s)" % p))
        elif k == "rd":
            L.append(op(i, "(read %s)" % p, "(list v)"))
        elif k == "drain":
            L.append(op(i, "(drain %s %d '())" % (p, o[2])))
        elif k == "garbage":
            L.append(op(i, "(spin %d)" % o[1]))
    return "\n".join(L) + "\n"


class Port:
    def __init__(self, src, idx):
        self.src, self.idx, self.open, self.taint = src, idx, True, False
        self.data = data_of(src).encode("latin-1")
        self.pos = 0
        self.lossy = False


def judge(case, run, info):
    sim = dict(case["cfg"], files={"/w/prog.min": program(case)}, faults=case["faults"])
    stdin_data = b""
    for n, s in enumerate(case["srcs"]):
        if s["kind"] == "file":
            sim["files"]["/w/src%d" % n] = data_of(s)
        elif s["kind"] == "stdin":
            stdin_data = data_of(s).encode("latin-1")
    sim["stdin"] = stdin_data
    r = run.run("nolib", sim)
    v = []
    if r["end"] != "exit":
        return v
    tmpf = any(":tmp" in f for f in r["fired"])
    where = {}
    for f in r["fired"]:
        p = f.split()
        if len(p) > 5 or p[0].startswith("read"):
            where.setdefault(p[0] + " " + p[-1], []).append(int(p[2]))
    done, rest = parse_log(r["stderr"])
    ports = {}
    stdin_port = None
    errs = {"file": 0, "stdin": 0, "string": 0}
    delivered = 0

    def faulted(kind):
        k = {"file": "read:file", "stdin": "read:stdin", "string": "read:tmp"}[kind]
        return any(f.split()[0] == k and f.split()[2] != "0" for f in r["fired"])

    for i, o in enumerate(case["ops"]):
        res = done.get(i)
        k = o[0]
        if res is None:
            v.append(("not-run", "operation %d %r never reported (exit code %s, stderr tail %r)" % (i, o, r["code"], r["stderr"][-300:])))
            break
        bad = res[0] == "E"
        if k == "garbage":
            continue
        if k == "open":
            s = case["srcs"][o[2]]
            if bad:
                if not any(f.split()[0] in ("open:r", "open:tmp", "write:tmp", "seek:tmp") for f in r["fired"]):
                    v.append(("spurious-error", "operation %d %r failed without a fault: %s" % (i, o, res[1])))
                ports[o[1]] = None
            else:
                if s["kind"] == "stdin":
                    stdin_port = stdin_port or Port(s, o[2])
                    ports[o[1]] = stdin_port
                else:
                    ports[o[1]] = Port(s, o[2])
                if res[1] != "#t":
                    v.append(("value", "operation %d: open gave %s" % (i, res[1])))
            continue
        p = ports.get(o[1])
        if p is None:
            if k != "drain" and not bad:
                v.append(("contract", "operation %d %r on something that is not a port gave %s" % (i, o, res[1][:100])))
            continue
        if k == "close":
            if bad:
                if not tmpf and not any(f.startswith("close") for f in r["fired"]):
                    v.append(("spurious-error", "operation %d: close failed: %s" % (i, res[1])))
            if p.src["kind"] != "stdin":
                p.open = False
            continue
        if not p.open:
            if not bad and not (k == "drain" and o[2] == 0):
                v.append(("closed-port", "operation %d %r read %s from a closed port" % (i, o, res[1][:100])))
            continue
        if p.taint:
            continue
        kind = p.src["kind"]
        if bad and k != "rd":
            if not faulted(kind) and not tmpf:
                v.append(("spurious-error", "operation %d %r failed without a fault: %s" % (i, o, res[1])))
            errs[kind] += 1
            if k == "drain":
                # the value was replaced, so the position inside is unknown
                p.taint = True
            continue
        if k == "rd":
            # at a segment boundary only
            q, st = 0, None
            for n, sg in enumerate(p.src["segs"]):
                if q == p.pos:
                    st = n
                    break
                q += len(sg[1])
            if p.pos == len(p.data):
                st = len(p.src["segs"])
            if st is None or any(sg[0] == "raw" for sg in p.src["segs"]):
                p.taint = True      # anything may be read here
                continue
            exp, end, q = "#<eof>", len(p.data), p.pos
            for sg in p.src["segs"][st:]:
                q += len(sg[1])
                if sg[0] == "d":
                    exp, end = sg[2], q
                    break
            if bad:
                if not faulted(kind) and not tmpf:
                    v.append(("spurious-error", "operation %d: read failed without a fault: %s" % (i, res[1])))
                errs[kind] += 1
                p.taint = True
                continue
            if res[1] != "(%s)" % exp:
                v.append(("datum", "operation %d: read gave %s, the source holds %s" % (i, res[1][:200], exp)))
                p.taint = True
                continue
            p.pos = end
            delivered += 1
            continue
        c = p.data[p.pos] if p.pos < len(p.data) else None
        if k == "rc":
            exp = "#<eof>" if c is None else str(c)
            if c is not None:
                p.pos += 1
                delivered += 1
        elif k == "pc":
            exp = "#<eof>" if c is None else str(c)
        elif k == "cr":
            exp = "#t" if c is not None else "#f"
        elif k == "drain":
            n = o[2]
            xs = list(p.data[p.pos:p.pos + n])
            p.pos += len(xs)
            delivered += len(xs)
            if len(xs) < n:
                xs = [str(x) for x in xs] + ["eof"]
            exp = "(" + " ".join(map(str, xs)) + ")"
            if res[1] != exp and faulted(kind):
                # a failed read inside: everything before it must be right
                got = res[1].strip("()").split()
                want = exp.strip("()").split()
                if got and got[-1] == "failed":
                    got.pop()
                if got != want[:len(got)]:
                    v.append(("characters", "operation %d: %d characters read differ from the source" % (i, len(got))))
                p.taint = True
                continue
        if res[1] != exp:
            v.append(("characters", "operation %d %r gave %s, the source holds %s" % (i, o, cut(res[1], exp), cut(exp, res[1]))))
            p.taint = True
    # a failing read must surface as an error, never as end of input: the values above would differ
    if r["code"] != 0 and not (tmpf and "could not write output" in rest):
        v.append(("exit-code", "exit code %s: %r" % (r["code"], r["stderr"][-300:])))
    info["nontrivial"] = delivered >= 3
    info["count"] = {"delivered": delivered, "errors_seen": sum(errs.values())}
    return v


def cut(a, b, n=80):
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    return ("..." if k > 20 else "") + a[max(0, k - 20):k + n]

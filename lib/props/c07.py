"""C07: output durability under write, close and disk faults, and crashes."""
import engine
from script import HEAD, ORIG, lit, op, sstr, schar, unstr, parse_log

ID = "C07"
TITLE = "Output is complete and in order, or the failure is reported"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 2000, 90000
RULE = ("seeded histories of open/write/flush/close/reopen/read-back operations over several files, string ports, stdout and stderr, run against an in-memory disk "
        "with failing, short and torn writes, failing opens and closes, full disks, piecemeal writes, buffer sizes and crashes at chosen events; "
        "non-trivial: at least 4 operations ran and either bytes were written or a fault fired")
REAL, STUB = engine.REAL_CORE + ["glibc libio buffering (over simulated descriptors)"], engine.STUB_CORE
ASSUMPTIONS = ["data handed to a completed write(2) survives a crash (the simulated disk has no volatile cache)",
               "ports that become garbage while unflushed are outside the fault runs: nothing can report their failure"]
LISTS = ("ops", "faults")
PATHS = ["/w/a.txt", "/w/b.txt", "/w/d/c.txt", "e.txt"]
NV = 4


def absp(p):
    return p if p[0] == "/" else "/w/" + p


def text_for(rng, i):
    k = rng.random()
    n = rng.randrange(1, 12) if k < 0.6 else rng.randrange(10, 200) if k < 0.97 else rng.choice([500, 1000, 4096, 9000])
    al = "abcdefghijklmnopqrstuvwxyz0123456789 \n\"\\()'"
    return "<%d:" % i + "".join(rng.choice(al) for _ in range(n)) + ">"


def gen(rng, tier, i):
    mode = rng.choice(["clean", "fault", "fault", "fault", "crash", "crash", "full"])
    nops = rng.choice([4, 8, 16, 30])
    ops = []
    opened = {}     # var -> path
    busy = {}       # path -> var
    for k in range(nops):
        r = rng.random()
        avail = [v for v in range(NV) if v not in opened]
        free = [p for p in PATHS if p not in busy]
        if (r < 0.18 or not opened) and avail and free:
            v, p = rng.choice(avail), rng.choice(free)
            kind = "sopen" if rng.random() < 0.15 else "open"
            ops.append([kind, v, p])
            opened[v] = p
            busy[p] = v
            if kind == "sopen":
                # short and long contents, taken and started again
                for j in range(rng.choice([0, 1, 2, 4])):
                    for _ in range(rng.choice([0, 1, 1, 2, 5])):
                        ops.append(["put", v, rng.choice(["char", "char", "wchar", "newline", "num", "str", "range"]), text_for(rng, k)])
                    ops.append(["get", v])
        elif r < 0.28 and opened:
            v = rng.choice(sorted(opened))
            ops.append(["close", v])
            p = opened.pop(v)
            del busy[p]
            if rng.random() < 0.15:
                ops.append([rng.choice(["close", "flush"]), v])
            elif rng.random() < 0.15:
                ops.append(["put", v, "str", text_for(rng, k)])
        elif r < 0.40 and opened:
            ops.append(["flush", rng.choice(sorted(opened))])
        elif r < 0.46:
            ops.append(["slurp", rng.choice(PATHS)])
        elif r < 0.50 and opened:
            ops.append(["get", rng.choice(sorted(opened))])
        elif r < 0.53:
            ops.append([rng.choice(["flush", "close"]), "out"])
        elif r < 0.56:
            ops.append(["garbage", rng.randrange(50, 400)])
        else:
            v = rng.choice(sorted(opened) + ["out", "err"]) if opened else "out"
            how = rng.choice(["str", "str", "str", "range", "range2", "range3", "range4", "char", "display", "write", "fprintf", "newline", "wchar", "num", "list", "printf"])
            ops.append(["put", v, how, text_for(rng, k)])
    end = rng.choice(["fall", "fall", "fall", "exit 0", "exit 3", "exit 200", "error", "cerror"])
    cfg = engine.rand_cfg(rng, allocs=100000, heavy=0.03)
    cfg["fbuf"] = rng.choice([0, 16, 64, 512, 4096])
    cfg["obuf"] = rng.choice(["f 4096", "f 64", "n", "l"])
    if rng.random() < 0.4:
        cfg["chunk"] = rng.choice([1, 3, 50])
    faults = []
    if mode in ("fault", "crash"):
        for _ in range(rng.choice([1, 1, 2, 3])):
            kind = rng.choice(["write:file", "write:file", "write:file", "write:stdout", "write:tmp", "close:file", "open:w", "open:tmp", "seek:tmp", "read:tmp"])
            errno = rng.choice([5, 28, 122, 27]) if not kind.startswith("open") else rng.choice([13, 24, 28, 30])
            keep = rng.choice([0, 0, 1, 5, 40]) if kind.startswith("write") else 0
            if kind.startswith("write") and rng.random() < 0.15:
                errno = 0
                keep = max(keep, 1)
            faults.append([kind, rng.choice([1, 1, 2, 3, rng.randrange(1, 20)]), errno, keep, int(rng.random() < 0.25), 0])
    if mode == "crash":
        if rng.random() < 0.5:
            cfg["crash_frac"] = rng.randrange(1, 1000)
            if rng.random() < 0.5:
                faults = []
        else:
            faults.append([rng.choice(["write:file", "write:file", "write:stdout", "close:file"]), rng.choice([1, 2, 3, rng.randrange(1, 12)]), 5, rng.choice([0, 1, 7, 100]), 0, 1])
    if mode == "full":
        cfg["cap"] = rng.choice([1, 10, 50, 200, 1000, 5000])
    if mode == "clean" and rng.random() < 0.4:
        # leave some ports to the collector
        ops = [o for o in ops if o[0] != "close" or rng.random() < 0.5]
        ops = drop_rewrite(ops)
    return {"ops": ops, "end": end, "cfg": cfg, "faults": faults}


def drop_rewrite(ops):
    """gives every open its own path, so that unclosed earlier ports never share a file"""
    out, n = [], 0
    for o in ops:
        if o[0] == "open":
            n += 1
            out.append(["open", o[1], "/w/u%d.txt" % n])
        elif o[0] == "slurp":
            out.append(["slurp", "/w/u%d.txt" % max(n, 1)])
        else:
            out.append(o)
    return out


def put_expr(port, how, text):
    """-> (expression, text written)"""
    s = text
    if how in ("str", "list") and port == "(current-output-port)" and how == "str":
        return "(put-string %s %s)" % (port, sstr(s)), s
    if how == "str":
        return "(put-string %s %s)" % (port, sstr(s)), s
    if how == "range":
        a = min(len(s), 2)
        return "(put-string %s %s %d)" % (port, sstr(s), a), s[a:]
    if how == "range2":
        a, n = 1, max(0, len(s) - 3)
        return "(put-string %s %s %d %d)" % (port, sstr(s), a, n), s[a:a + n]
    if how in ("range3", "range4"):
        a, n = (len(s) // 2, len(s) // 3) if how == "range3" else (len(s) - len(s) // 3, len(s) // 3)
        return "(put-string %s %s %d %d)" % (port, sstr(s), a, n), s[a:a + n]
    if how == "char":
        return "(put-char %s %s)" % (port, schar(s[-2])), s[-2]
    if how == "wchar":
        return "(write-char %s %s)" % (schar(s[-2]), port), s[-2]
    if how == "display":
        return "(display %s %s)" % (sstr(s), port), s
    if how == "write":
        return "(write %s %s)" % (sstr(s), port), lit(s)
    if how == "fprintf":
        return '(fprintf %s "~~[~a|~s]~%%" %s %s)' % (port, sstr(s), sstr(s[:3])), "~[" + s + "|" + lit(s[:3]) + "]\n"
    if how == "newline":
        return "(newline %s)" % port, "\n"
    if how == "num":
        return "(write %d %s)" % (len(s) * 7 - 50, port), str(len(s) * 7 - 50)
    if how == "list":
        return "(write '(a (b . %d) \"%s\" #(1 #\\x)) %s)" % (len(s), s[1:3].strip(), port), "(a (b . %d) \"%s\" #(1 #\\x))" % (len(s), s[1:3].strip())
    if how == "printf":
        return '(fprintf %s "(~s ~a)" \'(1 #t) (quote z))' % port, "((1 #t) z)"
    raise ValueError(how)


SLURP = """
(define-values (slurp)
  (lambda (path)
    (let-values ([(p) (open-input-file path)])
      (if (input-port? p)
          (letrec-values ([(loop) (lambda (acc)
                                    (let-values ([(c) (read-char p)])
                                      (if (char? c)
                                          (loop (cons c acc))
                                          (if (eof-object? c) (list->string (reverse acc)) c))))])
            (let-values ([(s) (loop '())]) (close-input-port p) s))
          p))))
(define-values (spin) (lambda (n) (if (= n 0) 'spun (begin (make-vector 8 n) (spin (- n 1))))))
"""


def port_name(v):
    return {"out": "(current-output-port)", "err": "(current-error-port)"}.get(v, "p%s" % v)


def program(case):
    L = [ORIG, HEAD, SLURP]
    for v in range(NV):
        L.append("(define-values (p%d) #f)" % v)
    for i, o in enumerate(case["ops"]):
        k = o[0]
        if k == "open":
            e = op(i, "(open-output-file %s)" % sstr(o[2]), "(begin (set! p%d v) (output-port? v))" % o[1])
        elif k == "sopen":
            e = op(i, "(open-output-string)", "(begin (set! p%d v) (output-port? v))" % o[1])
        elif k == "close":
            e = op(i, "(close-output-port %s)" % port_name(o[1]))
        elif k == "flush":
            e = op(i, "(flush-output-port %s)" % port_name(o[1]))
        elif k == "get":
            e = op(i, "(get-output-string %s)" % port_name(o[1]))
        elif k == "slurp":
            e = op(i, "(slurp %s)" % sstr(o[1]))
        elif k == "garbage":
            e = op(i, "(spin %d)" % o[1])
        elif k == "put":
            e = op(i, put_expr(port_name(o[1]), o[2], o[3])[0], "(void)")
        L.append(e)
    end = case["end"]
    if end.startswith("exit"):
        L.append("(exit %s)" % end.split()[1])
    elif end == "error":
        L.append("(current-error-handler default-handler)\n(car 5)")
    elif end == "cerror":
        L.append("(current-error-handler default-handler)\n(undefined-name-xyz)")
    return "\n".join(L) + "\n"


class Gen_:
    """one opening of a file (or a standard stream, or a string port)"""

    def __init__(self, path, kind):
        self.path, self.kind = path, kind
        self.text = ""          # everything handed over without an error
        self.durable = 0        # bytes guaranteed on disk
        self.limit = ""         # text possibly handed over by an interrupted operation
        self.open = True
        self.failed = False


def judge(case, run, info):
    cfg = dict(case["cfg"])
    frac = cfg.pop("crash_frac", None)
    text = program(case)
    sim = dict(cfg, files={"/w/prog.min": text}, dirs=["/w/d"], faults=case["faults"])
    faulty = bool(case["faults"]) or "cap" in cfg
    ok_ends = ("exit", "crash")
    if frac is not None:
        # place the crash inside the run
        r0 = run.run("nolib", sim, ok_ends=ok_ends)
        sim["crash_event"] = max(1, r0["events"] * frac // 1000)
        faulty = True
    r = run.run("nolib", sim, ok_ends=ok_ends)
    v = []
    if r["end"] not in ok_ends:
        return v
    done, rest = parse_log(r["stderr"])
    fired = len(r["fired"]) > 0
    crash = r["end"] == "crash"
    gens = {}           # var -> current
    files = {}          # abs path -> current generation
    history = {}        # abs path -> last generation that truncated it
    out = gens["out"] = Gen_("stdout", "out")
    errp = gens["err"] = Gen_("stderr", "err")
    nerr = 0

    def content(path):
        d = r["disk"].get(absp(path))
        return None if d is None else d.decode("latin-1")

    stopped = False
    for i, o in enumerate(case["ops"]):
        k = o[0]
        res = done.get(i)
        if res is None:
            if not crash:
                v.append(("not-run", "operation %d %r never reported and the run did not crash (end %s code %s)" % (i, str(o)[:200], r["end"], r["code"])))
                return v
            # the interrupted operation
            if k == "put" and gens.get(o[1]):
                gens[o[1]].limit = put_expr("p", o[2], o[3])[1]
            elif k == "open":
                history[absp(o[2])] = None
            stopped = True
            break
        bad = res[0] == "E"
        g = gens.get(o[1]) if k in ("close", "flush", "get", "put") else None
        if k in ("open", "sopen"):
            if bad:
                if not fired:
                    v.append(("spurious-error", "operation %d %r failed without a fault: %s" % (i, o, res[1])))
                gens[o[1]] = None
                nerr += 1
            else:
                if res[1] != "#t":
                    v.append(("value", "operation %d %r gave %s" % (i, o, res[1])))
                g = gens[o[1]] = Gen_(o[2], "file" if k == "open" else "tmp")
                if k == "open":
                    history[absp(o[2])] = g
            continue
        if k == "garbage":
            if bad or res[1] != "spun":
                v.append(("value", "operation %d %r gave %s" % (i, o, res)))
            continue
        if k == "slurp":
            p = absp(o[1])
            h = history.get(p, False)
            if h is False:
                # never opened successfully: no such file (unless a failed open created nothing)
                if not bad:
                    v.append(("phantom-file", "operation %d read a file that was never created: %s" % (i, res[1][:100])))
            elif bad:
                if not fired:
                    v.append(("spurious-error", "operation %d %r failed without a fault: %s" % (i, o, res[1])))
            elif h is not None:
                got = unstr(res[1])
                lo = h.text[:h.durable]
                if got is None or (not h.failed and not h.text.startswith(got)) or not got.startswith(lo):
                    v.append(("read-back", "operation %d read %r back from %s; written so far %r (flushed: %d)" % (i, (got or res[1])[:300], p, h.text[:300], h.durable)))
            continue
        if k == "get":
            if g is None or g.kind != "tmp":
                if not bad:
                    v.append(("contract", "operation %d: get-output-string on something else gave %s" % (i, res[1][:100])))
                continue
            if not g.open:
                if not bad:
                    v.append(("closed-port", "operation %d used a closed string port without an error: %s" % (i, res[1][:100])))
                continue
            if bad:
                if not fired:
                    v.append(("spurious-error", "operation %d %r failed without a fault: %s" % (i, o, res[1])))
                g.failed = True
            else:
                got = unstr(res[1])
                if not g.failed and got != g.text:
                    v.append(("string-port", "operation %d: string port gave %r, written %r" % (i, (got or res[1])[:300], g.text[:300])))
                g.text = ""
            continue
        if g is None:
            if not bad:
                v.append(("contract", "operation %d %r on something that is not a port gave no error" % (i, o)))
            continue
        std = g.kind in ("out", "err")
        if not g.open:
            if k == "close":
                if bad:
                    v.append(("closed-twice", "operation %d: closing a closed port failed: %s" % (i, res[1])))
            elif not bad and put_expr("p", o[2], o[3])[1] if k == "put" else not bad:
                v.append(("closed-port", "operation %d %r used a closed port without an error" % (i, o)))
            continue
        if bad and not fired:
            v.append(("spurious-error", "operation %d %r failed without a fault: %s" % (i, o, res[1])))
        if bad:
            nerr += 1
            g.failed = True
            if k == "close" and not std:
                g.open = False
            if k == "put":
                g.limit = put_expr("p", o[2], o[3])[1]
        elif k == "put":
            if g.kind == "err":
                pass
            elif not g.failed:
                g.text += put_expr("p", o[2], o[3])[1]
        else:
            if not g.failed:
                g.durable = len(g.text)
            if k == "close" and not std:
                g.open = False

    # exit code and final report
    reported = False
    if not crash:
        code, end = r["code"], case["end"]
        want = int(end.split()[1]) if end.startswith("exit") else 1 if end in ("error", "cerror") else 0
        # (formatting a message needs a string port: its faults may change the text)
        tmpfault = any(":tmp" in f.split()[0] for f in r["fired"])
        if tmpfault:
            pass
        elif end == "error" and "car: contract violation" not in rest:
            v.append(("error-text", "uncaught error not described on stderr: %r" % rest[-300:]))
        elif end == "cerror" and "undefined-name-xyz" not in rest:
            v.append(("error-text", "uncaught error not described on stderr: %r" % rest[-300:]))
        if code == 1 and want == 0 and fired and "could not write output" in rest:
            reported = True
        elif code != want:
            v.append(("exit-code", "exit code %s, expected %s (stderr tail %r)" % (code, want, rest[-200:])))
        if want != 0:
            reported = reported or fired      # the program failed anyway
    # what is on the disk
    every = [(p, h) for p, h in history.items() if h is not None] + [("stdout", out)]
    for p, g in every:
        got = r["stdout"].decode("latin-1") if g is out else content(p)
        if got is None:
            v.append(("lost-file", "%s was opened for writing but does not exist" % p))
            continue
        if not got.startswith(g.text[:g.durable]):
            v.append(("durability", "%s lost flushed bytes: has %r, flushed %r" % (p, got[:400], g.text[:g.durable][:400])))
        elif not g.failed:
            full = g.text + g.limit
            if not full.startswith(got):
                v.append(("order", "%s holds %r, which is not a prefix of what was written: %r" % (p, tail(got, full), full[:400])))
            elif not crash and not reported and got != g.text:
                v.append(("silent-loss", "%s has %d of %d bytes and nothing reported a failure (faults fired: %s)" % (p, len(got), len(g.text), r["fired"])))
            elif not crash and not fired and got != g.text:
                v.append(("incomplete", "%s has %d of %d bytes" % (p, len(got), len(g.text))))
    wrote = sum(len(g.text) for _, g in every)
    info["nontrivial"] = len(done) >= 4 and (wrote > 0 or fired)
    info["count"] = {"ops": len(done), "op_errors": nerr, "crashes": int(crash), "exit_failures": int(reported), "bytes": wrote}
    return v


def tail(a, b):
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    return "...%d bytes... %s" % (k, a[k:k + 100])

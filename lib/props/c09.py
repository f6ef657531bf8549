"""C09: descriptors are owned by ports: released once, never used after."""
import engine
from script import HEAD, op, parse_log

ID = "C09"
TITLE = "Every opened file is closed exactly once and never used afterwards"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 520, 40000
RULE = ("seeded histories that open, use, close, reuse after close, drop and exhaust ports, format text, raise errors and load files, with a descriptor limit, failing closes and opens, "
        "and collections at seeded points; non-trivial: at least 3 streams were opened")
REAL, STUB = engine.REAL_CORE, engine.STUB_CORE
ASSUMPTIONS = ["the simulator's collector scans the C stack conservatively, so a few dropped ports may stay until the end of the run"]
LISTS = ("ops", "faults")
NV = 6
SLACK = 8


def gen(rng, tier, i):
    ops = []
    drops = rng.random() < 0.4
    limit = rng.random() < 0.45
    for k in range(rng.choice([4, 10, 20, 40])):
        r = rng.random()
        v = rng.randrange(NV)
        if r < 0.3:
            ops.append([rng.choice(["in", "out", "sin", "sout", "missing"]), v])
        elif r < 0.5:
            ops.append(["close", v])
        elif r < 0.6:
            ops.append(["use", v])
        elif r < 0.66:
            ops.append([rng.choice(["format", "error", "errorf", "cerror"]), v])
        elif r < 0.72:
            ops.append([rng.choice(["load", "loadbad", "loadopen", "loadmissing"]), v])
        elif r < 0.8:
            ops.append(["loopclose", rng.choice([3, 20, 60]), rng.choice(["in", "out", "sin", "sout"])])
        elif r < 0.86:
            ops.append(["loopformat", rng.choice([3, 20, 60])])
        elif r < 0.92 and limit:
            ops.append(["exhaust", rng.choice(["in", "out", "sin", "sout"])])
        elif drops and r < 0.96:
            ops.append(["drop", v])
        elif drops:
            ops.append(["loopdrop", rng.choice([20, 60, 150]), rng.choice(["in", "out", "sin", "sout"])])
    cfg = {"seed": rng.randrange(1, 1 << 31), "gc": rng.choice(["every 20", "every 50", "every 30", "bytes 3000", "prob 2000"]),
           "place": rng.choice(["random", "bump"]), "reuse": rng.choice(["never", "lifo", "random"]), "junk": 0}
    if not drops and rng.random() < 0.3:
        cfg["gc"] = "none"
    if limit:
        cfg["fdlimit"] = rng.choice([4, 6, 9, 14, 30])
    faults = []
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 2, 3])):
            kind = rng.choice(["close:file!/w/prog.min", "close:tmp", "open:r!/w/prog.min", "open:w", "open:tmp"])
            faults.append([kind, rng.choice([1, 2, 3, rng.randrange(1, 30)]), rng.choice([5, 24, 28]), 0, 0, 0])
    return {"ops": ops, "cfg": cfg, "faults": faults}


OPEN = {"in": '(open-input-file "/w/in.txt")', "out": '(open-output-file "/w/out%s.txt")', "sin": '(open-input-string "abc")', "sout": "(open-output-string)",
        "missing": '(open-input-file "/w/none.txt")'}
PRE = """
(define-values (close-port) (lambda (p) (if (input-port? p) (close-input-port p) (close-output-port p))))
(define-values (loop-close) (lambda (n open ok) (if (= n 0) ok (let-values ([(p) (try open)]) (if (port? p) (begin (close-port p) (loop-close (- n 1) open (+ ok 1))) (loop-close (- n 1) open ok))))))
(define-values (port?) (lambda (p) (if (input-port? p) #t (output-port? p))))
(define-values (loop-drop) (lambda (n open ok) (if (= n 0) ok (let-values ([(p) (try open)]) (if (port? p) (loop-drop (- n 1) open (+ ok 1)) (loop-drop (- n 1) open ok))))))
(define-values (loop-format) (lambda (n) (if (= n 0) 'done (begin (format "~a ~s" n '(x)) (loop-format (- n 1))))))
(define-values (exhaust) (lambda (open acc n)
  (let-values ([(p) (if (= n 0) #f (try open))])
    (if (port? p)
        (exhaust open (cons p acc) (- n 1))
        (begin (for-each close-port acc) (length acc))))))
(define-values (spin) (lambda (n) (if (= n 0) 'spun (begin (make-vector 8 n) (spin (- n 1))))))
"""
FILES = {"/w/in.txt": "hello world\n", "/w/l-ok.min": "(define-values (zz) 5)\nzz\n", "/w/l-bad.min": "(define-values (zz) 6)\n(car zz\n",
         "/w/l-open.min": '(define-values (lp) (open-input-file "/w/in.txt"))\n(close-input-port lp)\n(load "/w/l-ok.min")\n'}


def program(case):
    L = [HEAD, PRE]
    for v in range(NV):
        L.append("(define-values (p%d) #f)" % v)
    for i, o in enumerate(case["ops"]):
        k, v = o[0], o[1]
        if k in OPEN:
            e = OPEN[k]
            if k == "out":
                e = e % v
            L.append(op(i, e, "(begin (set! p%d v) (port? v))" % v))
        elif k == "close":
            L.append(op(i, "(close-port p%d)" % v))
        elif k == "use":
            L.append(op(i, "(if (input-port? p%d) (read-char p%d) (put-char p%d #\\x))" % (v, v, v), "(void)"))
        elif k == "format":
            L.append(op(i, '(format "~a-~s" 1 "z")'))
        elif k == "error":
            L.append(op(i, "(error 'me \"boom\" 1 '(2))"))
        elif k == "errorf":
            L.append(op(i, "(errorf 'me \"boom ~a\" 7)"))
        elif k == "cerror":
            L.append(op(i, "(undefined-thing 3)"))
        elif k.startswith("load"):
            f = {"load": "l-ok", "loadbad": "l-bad", "loadopen": "l-open", "loadmissing": "l-none"}[k]
            L.append(op(i, '(load "/w/%s.min")' % f, "(void)"))
        elif k in ("loopclose", "loopdrop"):
            e = OPEN[o[2]]
            if o[2] == "out":
                e = e % "L"
            L.append(op(i, "(loop-%s %d (lambda () %s) 0)" % (k[4:], v, e)))
        elif k == "loopformat":
            L.append(op(i, "(loop-format %d)" % v))
        elif k == "exhaust":
            e = OPEN[v]
            if v == "out":
                e = e % "X"
            L.append(op(i, "(exhaust (lambda () %s) '() 200)" % e))
        elif k == "drop":
            L.append(op(i, "(begin (set! p%d #f) (spin 30))" % v))
    L.append("(spin 400)")
    return "\n".join(L) + "\n"


def judge(case, run, info):
    cfg = case["cfg"]
    r = run.run("nolib", dict(cfg, files=dict(FILES, **{"/w/prog.min": program(case)}), faults=case["faults"]))
    v = []
    if r["end"] != "exit":
        return v
    done, rest = parse_log(r["stderr"])
    lim = cfg.get("fdlimit", 10 ** 6)
    fired = bool(r["fired"])
    live = {}           # var -> open?
    dropped = 0         # ports that may or may not have been collected
    peak = 1
    trouble = fired     # an injected fault makes results optional, not descriptors

    def nlive():
        return 1 + sum(1 for x in live.values() if x)     # the program file itself

    for i, o in enumerate(case["ops"]):
        res = done.get(i)
        k = o[0]
        if res is None:
            v.append(("not-run", "operation %d %r never reported (code %s, stderr tail %r)" % (i, o, r["code"], r["stderr"][-300:])))
            break
        bad = res[0] == "E"
        lo, hi = nlive(), nlive() + dropped
        must_fail = lo >= lim
        # any failure may format a message in one more stream
        peak = max(peak, hi + 1)
        may_fail = hi >= lim or fired
        if k in OPEN:
            old = live.pop(o[1], None)
            if bad and not may_fail and k != "missing":
                v.append(("spurious-error", "operation %d %r failed with %d of %d descriptors in use: %s" % (i, o, hi, lim, res[1])))
            if not bad and (must_fail or k == "missing"):
                v.append(("limit", "operation %d %r succeeded" % (i, o)))
            # the old port was still referenced while the new one was opened
            if old:
                dropped += 1
            live[o[1]] = not bad
            if bad:
                live[o[1]] = None
            peak = max(peak, nlive() + dropped)
        elif k == "close":
            st = live.get(o[1])
            if st is None and not bad:
                v.append(("contract", "operation %d closed something that is not a port" % i))
            if bad and st is not None and not fired:
                v.append(("spurious-error", "operation %d: close failed: %s" % (i, res[1])))
            if st is not None:
                live[o[1]] = False
        elif k == "use":
            st = live.get(o[1])
            if st and bad and not fired:
                v.append(("spurious-error", "operation %d: use of an open port failed: %s" % (i, res[1])))
            if not st and not bad:
                v.append(("closed-port", "operation %d used a closed port or a non-port without an error" % i))
        elif k == "drop":
            if live.pop(o[1], None):
                dropped += 1
        elif k == "format":
            peak = max(peak, hi + 1)
            if not may_fail and (bad or res[1] != '"1-\\"z\\""'):
                v.append(("value", "operation %d: format gave %s" % (i, res)))
            if must_fail and not bad:
                v.append(("limit", "operation %d: format succeeded without a descriptor" % i))
        elif k in ("error", "errorf", "cerror"):
            peak = max(peak, hi + 1)
            if not bad:
                v.append(("value", "operation %d %r raised nothing" % (i, o)))
        elif k.startswith("load"):
            peak = max(peak, hi + 2)
            if k in ("load", "loadopen") and bad and not (hi + 1 >= lim or may_fail):
                v.append(("spurious-error", "operation %d: load failed: %s" % (i, res[1])))
            if k in ("loadbad", "loadmissing") and not bad:
                v.append(("value", "operation %d: load of a bad file reported nothing" % i))
        elif k in ("loopclose", "loopdrop"):
            n = o[1]
            peak = max(peak, hi + 1 + (min(n, n if cfg.get("gc", "none") == "none" or r["gc_budget_out"] else 45) if k == "loopdrop" else 0))
            if not bad and res[1] != str(n) and not may_fail and k == "loopclose":
                v.append(("value", "operation %d: %s of %d opens succeeded" % (i, res[1], n)))
            if bad and not may_fail and k == "loopclose":
                v.append(("spurious-error", "operation %d: %s" % (i, res[1])))
            if k == "loopdrop":
                dropped += n
        elif k == "loopformat":
            peak = max(peak, hi + 1)
            if not may_fail and (bad or res[1] != "done"):
                v.append(("value", "operation %d: %s" % (i, res)))
        elif k == "exhaust":
            # the last error's own message may need a descriptor, so only the count is exact
            want = max(0, lim - nlive())
            peak = max(peak, min(lim, hi + 200))
            if bad and not dropped and not fired:
                pass
            log = res[1]
            if res[0] == "V" and not dropped and not fired and log != str(min(200, want)):
                v.append(("limit", "operation %d: opened %s ports with %d free descriptors" % (i, log, want)))
    # at the end every open stream belongs to a port that is still referenced
    n = nlive() - 1
    got = r["open_at_end"] if "open_at_end" in r else r["open_streams"]
    if got < n:
        v.append(("lost", "%d streams open at the end, %d ports are open" % (got, n)))
    allowed = n + (min(dropped, SLACK) if cfg.get("gc", "none") != "none" and not r["gc_budget_out"] else dropped)
    if got > allowed:
        v.append(("leak", "%d streams open at the end, but only %d ports are open and %d were dropped" % (got, n, dropped)))
    if r["max_open"] > peak:
        v.append(("leak-peak", "at most %d streams should have been open at once, %d were" % (peak, r["max_open"])))
    if r["code"] != 0 and not fired:
        v.append(("exit-code", "exit code %s: %r" % (r["code"], r["stderr"][-200:])))
    info["nontrivial"] = r["opened_total"] >= 3
    info["count"] = {"opened": r["opened_total"], "collected_ports": r["fin_run"], "dropped": dropped}
    info["max"] = {"open": r["max_open"]}
    return v

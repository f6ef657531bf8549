"""C10: serialised data: exact round trip, exact format, and safe decoding of damaged data."""
import random

import engine
from script import HEAD, op, parse_log, sstr, unstr
from props import c11

ID = "C10"
TITLE = "Serialised data comes back equal, and damaged data is an error, not a crash"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 900, 100000
RULE = ("seeded data and records serialised to files in seeded interleavings under write, close and disk-full faults and crashes, read back and compared, byte for byte, with an independent encoder of the documented format; "
        "encoded data truncated at every kind of position, corrupted, spliced or interrupted by read errors: what precedes the damage is read exactly, a truncated object is always an error; non-trivial: at least 40 bytes of serialised data")
REAL, STUB = engine.REAL_CORE, engine.STUB_CORE
ASSUMPTIONS = ["strings and symbol names have no NUL characters"]
LISTS = ("ops", "faults")
NF = 3
PRE = r"""
(define-values (W) (make-vector 4 #f))
(define-values (I) (make-vector 4 #f))
(define-values (RT0) (make-record-type-descriptor 'point #f #f #f #f '#((mutable x) (immutable y))))
(define-values (RT1) (make-record-type-descriptor 'child RT0 'uid1 #t #f '#((mutable z))))
(define-values (mk0) (record-constructor RT0))
(define-values (mk1) (record-constructor RT1))
(define-values (wr) (lambda (x) (let-values ([(p) (open-output-string)]) (begin (write x p) (get-output-string p)))))
(define-values (flds) (lambda (r t) (letrec-values ([(f) (lambda (i n) (if (< i n) (cons ((record-accessor t i) r) (f (+ i 1) n)) '()))]) (f 0 (vector-length (record-type-field-names t))))))
(define-values (desc) (lambda (r t) (if t (cons (list (record-type-name t) (record-type-uid t) (record-type-sealed? t) (record-type-field-names t) (map (lambda (i) (record-type-field-mutable? t i)) (iota (vector-length (record-type-field-names t)))) (flds r t) ((record-predicate t) r)) (desc r (record-type-parent t))) '())))
(define-values (full) (lambda (x) (if (record? x) (list 'rec (desc x (record-rtd x))) x)))
"""
RT0 = ("point", None, None, False, ["x", "y"], [True, False])
RT1 = ("child", RT0, "uid1", True, ["z"], [True])


def nobox(x):
    if isinstance(x, list):
        if x[0] == "b":
            return nobox(x[1])
        if x[0] == "l":
            return ["l", [nobox(y) for y in x[1]], x[2]]
        if x[0] == "v":
            return ["v", [nobox(y) for y in x[1]]]
    return x


def fdatum(rng, d):
    r = rng.random()
    if r < 0.08:
        return [rng.choice(["eof", "void"])]
    if r < 0.16:
        return rng.choice([2 ** 62 - 1, -2 ** 62, 2 ** 63 - 1, -2 ** 63, 127, 128, 16383, 16384, -128, 2 ** 35 - 1, 2 ** 56])
    if r < 0.26:
        k = rng.randrange(2)
        return ["rec", k, [nobox(c11.datum(rng, 1)) for _ in range(2 + k)]]
    if r < 0.3:
        n = rng.choice([63, 64, 127, 128, 300])
        return ["l", [rng.choice([1, ["c", 0], ["s", "q"]]) for _ in range(n)], None] if rng.random() < 0.5 else ["v", [2] * n]
    return nobox(c11.datum(rng, d))


def expr(x):
    if x is True or x is False:
        return "#t" if x else "#f"
    if isinstance(x, int):
        return str(x) if abs(x) < 2 ** 62 else "(let-values ([(a) %d]) (+ (* a 2) %d))" % (x >> 1, x & 1)
    k = x[0]
    if k == "s":
        return "(string->symbol %s)" % sstr(x[1])
    if k == "str":
        return sstr(x[1])
    if k == "c":
        return "(integer->char %d)" % x[1]
    if k == "l":
        t = expr(x[2]) if x[2] is not None else "'()"
        if len(x[1]) > 20 or x[2] is None:
            return "(append %s %s)" % (" ".join("(list %s)" % " ".join(expr(y) for y in x[1][i:i + 25]) for i in range(0, len(x[1]), 25)), t) if x[1] else "'()"
        for y in reversed(x[1]):
            t = "(cons %s %s)" % (expr(y), t)
        return t
    if k == "v":
        return "(list->vector %s)" % expr(["l", x[1], None])
    if k == "rec":
        return "(mk%d %s)" % (x[1], " ".join(expr(y) for y in x[2]))
    return {"eof": "eof", "void": "(void)"}[k]


def uptr(n):
    n &= 2 ** 64 - 1
    out = []
    while True:
        b = n & 0x7f
        n >>= 7
        out.append((b << 1) | (1 if n else 0))
        if not n:
            return bytes(out)


def raw(s):
    b = s.encode("latin-1")
    return uptr(len(b)) + b


def enc_list(xs, tail):
    return bytes([9]) + uptr(len(xs)) + b"".join(xs) + tail


def enc_rtd(t):
    name, parent, uid, sealed, names, muts = t
    fs = [enc(["l", [["s", "mutable" if m else "immutable"], ["s", n]], None]) for n, m in zip(names, muts)]
    return bytes([13]) + uptr(6 + len(fs)) + bytes([12]) + enc(["s", name]) + (enc_rtd(parent) if parent else enc(False)) + (enc(["s", uid]) if uid else enc(False)) + enc(sealed) + enc(False) + enc(False) + b"".join(fs)


def enc(x):
    if x is True or x is False:
        return bytes([1 if x else 2])
    if isinstance(x, int):
        return bytes([7]) + uptr(x)
    k = x[0]
    if k == "s":
        return bytes([5]) + raw(x[1])
    if k == "str":
        return bytes([6]) + raw(x[1])
    if k == "c":
        return bytes([8, x[1]])
    if k == "l":
        return enc_list([enc(y) for y in x[1]], enc(x[2]) if x[2] is not None else bytes([0])) if x[1] else bytes([0])
    if k == "v":
        return bytes([11]) + uptr(len(x[1])) + b"".join(enc(y) for y in x[1]) if x[1] else bytes([10])
    if k == "rec":
        return bytes([13]) + uptr(len(x[2])) + enc_rtd(RT1 if x[1] else RT0) + b"".join(enc(y) for y in x[2])
    return bytes([{"eof": 3, "void": 4}[k]])


def dec(b):
    """the objects that the format says these bytes are; None: not well-formed"""
    pos = [0]

    def byte():
        pos[0] += 1
        return b[pos[0] - 1]

    def num():
        u = off = 0
        while True:
            k = byte()
            u |= (k >> 1) << off
            off += 7
            if not k & 1:
                return u & (2 ** 64 - 1)

    def obj():
        t = byte()
        if t in (5, 6):
            n = num()
            pos[0] += n
            if pos[0] > len(b):
                raise IndexError
            return (t, b[pos[0] - n:pos[0]])
        if t in (7, 8):
            return (t, num() if t == 7 else byte())
        if t == 9:
            n = num()
            return (t, [obj() for _ in range(n)], obj())
        if t in (10, 11):
            return (11, [obj() for _ in range(num() if t == 11 else 0)])
        if t == 13:
            n = num()
            return (t, obj(), [obj() for _ in range(n)])
        return (t,)
    out = []
    try:
        while pos[0] < len(b):
            out.append(obj())
    except IndexError:
        return None
    return out


def show(x):
    if isinstance(x, list):
        if x[0] == "rec":
            b = lambda v: "#t" if v else "#f"
            d = lambda t, vs: "(%s %s %s #(%s) (%s) (%s) #t)" % (t[0], t[2] or "#f", b(t[3]), " ".join(t[4]), " ".join(b(m) for m in t[5]), " ".join(show(v) for v in vs))
            ds = ([d(RT1, x[2][2:])] if x[1] else []) + [d(RT0, x[2][:2])]
            return "(rec (%s))" % " ".join(ds)
        if x[0] == "eof":
            return "#<eof>"
        if x[0] == "void":
            return "#<void>"
    return c11.show(x)


def gen(rng, tier, i):
    ops, faults = [], []
    mode = rng.choice(["clean", "fault", "full", "dec", "dec", "dec", "readfault", "crash"])
    cfg = engine.rand_cfg(rng, 80000, heavy=0.04)
    if rng.random() < 0.5:
        cfg["chunk"] = rng.choice([1, 3, 20, 100])
    if rng.random() < 0.5:
        cfg["fbuf"] = rng.choice(["n", "f 16", "f 64", "f 1000", "l"])
    if mode in ("clean", "fault", "full", "crash"):
        is_open = set()
        for _ in range(rng.choice([3, 8, 16])):
            f = rng.randrange(NF)
            r = rng.random()
            if f not in is_open:
                ops.append(["open", f])
                is_open.add(f)
            elif r < 0.75:
                ops.append(["w", f, fdatum(rng, rng.choice([0, 1, 2, 3]))])
            elif r < 0.8:
                ops.append(["bad", f, rng.choice(["car", "(current-output-port)", "(make-hashtable)", "(list 1 car)", "(vector (box 1))", "(current-environment)", "(box 1)"])])
            elif r < 0.85:
                ops.append(["flush", f])
            else:
                ops.append(["close", f])
                is_open.discard(f)
                ops.append(["read", f])
        for f in sorted(is_open):
            ops.append(["close", f])
        for f in range(NF):
            ops.append(["read", f])
        if mode == "fault":
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.choice(["write:file", "write:file", "close:file", "read:file!/w/prog.min"])
                faults.append([k, rng.choice([1, 1, 2, 3, rng.randrange(1, 40)]), rng.choice([5, 28]), rng.choice([0, 0, 1, 7]) if k.startswith("write") else 0, int(rng.random() < 0.2), 0])
        elif mode == "full":
            cfg["cap"] = rng.choice([0, 1, 10, 50, 200])
        elif mode == "crash":
            cfg["crash_event"] = rng.choice([8950, 9000, 9100, 9300, 9800, 11000, 14000, 20000]) + rng.randrange(60)
    else:
        for f in range(NF if mode == "dec" else 1):
            data = [fdatum(rng, rng.choice([0, 1, 2, 3])) for _ in range(rng.choice([0, 1, 2, 5]))]
            how = rng.choice(["none", "cut", "cut", "flip", "flip", "ins", "splice", "len", "junk"]) if mode == "dec" else "none"
            ops.append(["dec", f, data, how, rng.randrange(1 << 30)])
        if mode == "readfault":
            cfg.setdefault("chunk", rng.choice([1, 5, 30]))
            faults.append(["read:file@/w/f0", rng.choice([1, 1, 2, rng.randrange(1, 20)]), 5, 0, 0, 0])
    return {"ops": ops, "faults": faults, "cfg": cfg}


def damaged(o):
    """-> bytes, position of the first difference (or the length)"""
    _, f, data, how, seed = o
    rng = random.Random(seed)
    b = b"".join(enc(x) for x in data)
    if how == "none":
        return b, len(b)
    if not b:
        return bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 40]))), 0
    k = rng.randrange(len(b))
    if how == "cut":
        c = b[:k]
    elif how == "flip":
        c = b[:k] + bytes([rng.choice([b[k] ^ (1 << rng.randrange(8)), rng.randrange(16), 255, 0])]) + b[k + 1:]
    elif how == "ins":
        c = b[:k] + bytes(rng.choice([[rng.randrange(16)], [255] * 12, [13, 2], [9, 0], [13, 12, 12], [11, 254, 255, 255, 255, 15], [6, 254, 255, 255, 255, 15]])) + b[k:]
    elif how == "splice":
        j = rng.randrange(len(b))
        c = b[:k] + b[j:j + rng.choice([1, 5, 30])] + b[k + rng.choice([0, 1, 5]):]
    elif how == "len":
        c = b[:k] + uptr(rng.choice([2 ** 31, 2 ** 32, 2 ** 62, 2 ** 63, 2 ** 64 - 1, 1000])) + b[k + 1:]
    else:
        c = b[:k] + bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 40])))
    n = 0
    while n < min(len(b), len(c)) and b[n] == c[n]:
        n += 1
    return c, n


def build(case):
    L, exp, files = [HEAD, PRE], [], {}
    content = {}    # f -> list of data written since it was last opened; None: never opened
    dirty, is_open = {}, set()
    size = 0

    def out(i, text, want, ret="v"):
        L.append(op(i, text, ret))
        exp.append((i, want))
    for i, o in enumerate(case["ops"]):
        k, f = o[0], o[1]
        b = i * 100
        w = "(vector-ref W %d)" % f
        if k == "open":
            if f in is_open:
                continue
            out(b, '(begin (vector-set! W %d (open-output-file "/w/f%d")) \'ok)' % (f, f), ("do", f, "ok"))
            content[f], dirty[f] = [], False
            is_open.add(f)
        elif k in ("w", "bad", "flush", "close"):
            if f not in is_open:
                continue
            if k == "w":
                out(b, "(begin (fasl-write %s %s) 'ok)" % (expr(o[2]), w), ("do", f, "ok"))
                content[f].append(o[2])
                size += len(enc(o[2]))
            elif k == "bad":
                out(b, "(begin (fasl-write %s %s) 'ok)" % (o[2], w), ("bad", f))
                dirty[f] = True
            elif k == "flush":
                out(b, "(begin (flush-output-port %s) 'ok)" % w, ("do", f, "ok"))
            else:
                out(b, "(begin (close-output-port %s) 'ok)" % w, ("do", f, "ok"))
                is_open.discard(f)
        elif k == "read":
            if f in is_open or f not in content:
                continue
            L.append(op(b, '(begin (vector-set! I %d (open-input-file "/w/f%d")) \'ok)' % (f, f)))
            exp.append((b, ("ropen", f, "ok")))
            if not dirty[f]:
                for j, x in enumerate(content[f]):
                    out(b + 1 + j, "(wr (full (fasl-read (vector-ref I %d))))" % f, ("data", f, show(x)))
                out(b + 90, "(wr (full (fasl-read (vector-ref I %d))))" % f, ("end", f))
            else:
                for j in range(4):
                    out(b + 1 + j, "(wr (full (fasl-read (vector-ref I %d))))" % f, ("any", f))
            L.append(op(b + 99, "(begin (close-input-port (vector-ref I %d)) 'ok)" % f))
        else:
            c, n = damaged(o)
            size += len(c)
            files["/w/f%d" % f] = c.decode("latin-1")
            L.append('(vector-set! I %d (open-input-file "/w/f%d"))' % (f, f))
            at = 0
            for j, x in enumerate(o[2]):
                at += len(enc(x))
                whole = at <= n
                if whole:
                    out(b + 1 + j, "(wr (full (fasl-read (vector-ref I %d))))" % f, ("data", f, show(x)))
                elif len(c) == n:
                    out(b + 1 + j, "(wr (full (fasl-read (vector-ref I %d))))" % f, ("cut", f))
                    break
                else:
                    break
            if c == b"".join(enc(x) for x in o[2]):
                out(b + 90, "(wr (full (fasl-read (vector-ref I %d))))" % f, ("end", f))
            for j in range(5):
                out(b + 91 + j, "(wr (full (fasl-read (vector-ref I %d))))" % f, ("any", f))
            L.append("(close-input-port (vector-ref I %d))" % f)
    return "\n".join(L) + "\n", exp, files, content, dirty, is_open, size


def judge(case, run, info):
    text, exp, files, content, dirty, is_open, size = build(case)
    info["nontrivial"] = size >= 40
    crash = "crash_event" in case["cfg"]
    r = run.run("nolib", dict(case["cfg"], files=dict(files, **{"/w/prog.min": text}), faults=case["faults"]), ok_ends=("exit", "crash"))
    if r["end"] == "crash":
        # only whole writes reached the disk: each file holds a prefix of its data
        for f in range(NF):
            d = r["disk"].get("/w/f%d" % f)
            if d is None or "/w/f%d" % f in files:
                continue
            opens = [k for k, o in enumerate(case["ops"]) if o[0] == "open" and o[1] == f]
            want = []
            for k in opens:
                e = b""
                for o in case["ops"][k + 1:]:
                    if o[1] == f and o[0] == "open":
                        continue
                    if o[1] == f and o[0] == "close":
                        break
                    if o[1] == f and o[0] == "bad":
                        e = None
                        break
                    if o[1] == f and o[0] == "w":
                        e += enc(o[2])
                want.append(e)
            if not any(e is None or e.startswith(d) for e in want):
                return [("crash-disk", "after a crash file f%d holds %r, no prefix of what was written" % (f, d[:200]))]
        return []
    if r["end"] != "exit":
        return []
    done, rest = parse_log(r["stderr"])
    fired = bool(r["fired"]) or "cap" in case["cfg"]
    if any(x[0].startswith("read:file!") for x in case["faults"]) and r["fired"]:
        return []       # the program itself could not be read in full: the run was cut short
    failed = set()      # files for which a failure was reported since they were opened
    unread = set()
    for i, want in exp:
        k, f = want[:2]
        o = case["ops"][i // 100]
        what = "operation %d.%d %r" % (i // 100, i % 100, str(o)[:200])
        res = done.get(i)
        if res is None:
            return [("not-run", "%s never reported (code %s, stderr tail %r)" % (what, r["code"], r["stderr"][-300:]))]
        if o[0] == "open":
            failed.discard(f)
        if k == "do":
            if res[0] == "E" and fired:
                failed.add(f)
            elif res != ("V", want[2]):
                return [("value", "%s gave %r" % (what, res))]
        elif k == "ropen":
            unread.discard(f)
            if res[0] == "E":
                if not fired:
                    return [("value", "%s gave %r" % (what, res))]
                unread.add(f)
        elif k == "bad":
            if res[0] != "E":
                return [("no-error", "%s gave %r instead of an error" % (what, res))]
        elif k == "any" or f in failed or f in unread:
            continue
        elif k == "data":
            if res[0] == "E" and fired and o[0] == "dec":
                unread.add(f)
                continue
            got = unstr(res[1]) if res[0] == "V" else None
            if got != want[2]:
                return [("lost" if fired else "value", "%s: reading %d gave %r, expected %r%s" % (what, i % 100, (res[0], (got if got is not None else res[1])[:300]), want[2][:300], "; every operation had reported success" if fired else ""))]
        elif res[0] != "E":
            return [("past-end", "%s: reading %s gave %r instead of an error" % (what, "a truncated object" if k == "cut" else "past the end", res))]
    for f in content:
        if f in failed or dirty[f] or f in is_open or ("/w/f%d" % f) not in r["disk"]:
            continue
        d, e = r["disk"]["/w/f%d" % f], b"".join(enc(x) for x in content[f])
        if d != e and dec(d) != dec(e):
            return [("bytes", "file f%d holds %r, the format says %r" % (f, d[:300], e[:300]))]
    if rest.strip() or r["code"] != 0:
        return [("messages", "unexpected messages %r, exit code %s" % (rest[:400], r["code"]))]
    return []

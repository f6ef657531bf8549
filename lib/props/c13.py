"""C13: loading files: order, values, current directory, failures."""
import engine
from script import HEAD, sstr

ID = "C13"
TITLE = "Loading a file runs it in its own directory and always restores the caller's"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 900, 80000
RULE = ("seeded trees of files that load each other by relative and absolute path, change directory, open neighbouring files, define variables and raise errors, with missing, "
        "malformed and unreadable files and failing opens, reads, path resolutions and directory changes; non-trivial: at least one nested load ran")
REAL, STUB = engine.REAL_CORE, engine.STUB_CORE
ASSUMPTIONS = ["after a failed directory change the current directory is unspecified until the next successful one"]
LISTS = ("faults", "main")
DIRS = ["/w", "/w/a", "/w/a/b", "/w/c"]

PRE = """
(define-values (lg) (lambda (i v) (if ERR (begin (set! ERR #f) (fprintf (current-error-port) "~a E\\n" i)) (fprintf (current-error-port) "~a V ~s\\n" i v))))
(define-values (slurp1) (lambda (path) (let-values ([(p) (open-input-file path)]) (if (input-port? p) (let-values ([(x) (read p)]) (close-input-port p) x) p))))
(define-values (v0) 'unset) (define-values (v1) 'unset) (define-values (v2) 'unset)
"""


NAMES = ["a.b", "lib.", ".hid", "x y", "..d", "d..", "~", "A-B_c", "q'q", "n" * 60, "p(q", "1", "*", "minim", "caf\xe9"]


def rename(c, m):
    """rename path components throughout a case"""
    def path(p):
        return "/".join(m.get(x, x) for x in p.split("/"))

    def ops(os):
        for o in os:
            if o[0] in ("load", "data", "setcwd"):
                o[2] = path(o[2])
    for f in c["files"]:
        f["path"], f["dir"] = path(f["path"]), path(f["dir"])
        ops(f["ops"])
    ops(c["main"])
    c["dirs"] = [path(d) for d in DIRS]


def rel(rng, frm, to):
    """a path to file `to` as seen from directory frm"""
    if rng.random() < 0.25:
        return to
    d, n = to.rsplit("/", 1)
    a = [x for x in frm.split("/") if x]
    b = [x for x in d.split("/") if x]
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    parts = [".."] * (len(a) - k) + b[k:] + [n]
    if rng.random() < 0.2:
        parts = ["."] + parts
    return "/".join(parts)


def gen_ops(rng, me, files, counter, depth):
    ops = []
    cur = me["dir"] if me else "/w"
    for _ in range(rng.choice([1, 3, 6])):
        r = rng.random()
        counter[0] += 1
        i = counter[0]
        if r < 0.4 and files:
            t = rng.choice(files)
            ops.append(["load", i, rel(rng, cur, t["path"])])
        elif r < 0.45:
            ops.append(["load", i, rng.choice(["nope.min", "a", "/w/zz/none.min", "b/../none.min"])])
        elif r < 0.58:
            ops.append(["cwd", i])
        elif r < 0.68:
            ops.append(["data", i, rng.choice(["data.txt", "./data.txt", "/w/c/data.txt"])])
        elif r < 0.76:
            cur = rng.choice(DIRS)
            ops.append(["setcwd", i, cur + rng.choice(["", "/"])])
        elif r < 0.8:
            ops.append(["setcwd", i, "/w/not-there"])
        elif r < 0.88:
            ops.append(["def", i, rng.randrange(3), i])
        elif r < 0.94:
            ops.append(["ref", i, rng.randrange(3)])
        else:
            ops.append(["err", i, rng.choice(["(car 5)", "(nowhere 1)", "(error 'x \"y\" 1)"])])
    return ops


def gen(rng, tier, i):
    n = rng.choice([1, 2, 4, 7])
    files = []
    counter = [0]
    for k in range(n):
        d = rng.choice(DIRS)
        f = {"path": "%s/f%d.min" % (d, k), "dir": d}
        # may only load files generated earlier: no cycles
        f["ops"] = gen_ops(rng, f, files, counter, 0)
        f["tail"] = rng.choice(["", "", "", "", "(", "#<", ")", '"abc'])
        files.append(f)
    if rng.random() < 0.1:
        for f in files:
            f["tail"] = ""
        # a long chain
        for k in range(30):
            f = {"path": "/w/%s/g%d.min" % (rng.choice(["a", "c", "a/b"]), k), "tail": ""}
            f["dir"] = f["path"].rsplit("/", 1)[0]
            f["ops"] = [["load", 1000 + k, rel(rng, f["dir"], files[-1]["path"])], ["cwd", 2000 + k]]
            files.append(f)
    main = gen_ops(rng, None, files, counter, 0) + [["load", 900, rel(rng, "/w", files[-1]["path"])], ["cwd", 901]] + gen_ops(rng, None, files, counter, 0)
    # the main program knows where it is only while it changes directory itself
    cfg = engine.rand_cfg(rng, allocs=60000, heavy=0.03)
    cfg["fbuf"] = rng.choice([0, 16, 64])
    cfg["chunk"] = rng.choice([None, 5, 100])
    faults = []
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["open:r!/w/prog.min", "read:file!/w/prog.min", "read:file!/w/prog.min", "getcwd", "realpath", "chdir"])
            faults.append([kind, rng.choice([1, 2, 3, rng.randrange(1, 20)]) + (1 if kind in ("getcwd", "realpath", "chdir") else 0), rng.choice([5, 13, 24, 40]), 0, 0, 0])
    c = {"files": files, "main": main, "cfg": {k: v for k, v in cfg.items() if v is not None}, "faults": faults}
    names = rng.sample(NAMES, 4)
    m = {x: names[k] for k, x in enumerate("abc") if rng.random() < 0.5}
    for k, f in enumerate(files):
        if rng.random() < 0.2:
            m[f["path"].rsplit("/", 1)[1]] = "%s%d" % (rng.choice(["noext", "x.y", "sp ace.min", ".dot", "end.", "#k"]), k)
    rename(c, m)
    return c


def op_text(o):
    k, i = o[0], o[1]
    e = {"load": lambda: "(load %s)" % sstr(o[2]), "cwd": lambda: "(current-directory)", "data": lambda: "(slurp1 %s)" % sstr(o[2]),
         "setcwd": lambda: "(current-directory %s)" % sstr(o[2]), "def": lambda: "(begin (set! v%d %d) 'ok)" % (o[2], o[3]), "ref": lambda: "v%d" % o[2],
         "err": lambda: o[2]}[k]()
    return "(begin (lg %d (try (lambda () %s))) %d)" % (i, e, i * 3)


def norm(base, p):
    parts = [] if p.startswith("/") else [x for x in base.split("/") if x]
    for x in p.split("/"):
        if x in ("", "."):
            continue
        if x == "..":
            if parts:
                parts.pop()
        else:
            parts.append(x)
    return "/" + "/".join(parts)


class Stop(Exception):
    pass


def judge(case, run, info):
    disk = {"/w/prog.min": HEAD + PRE + "\n".join(op_text(o) for o in case["main"]) + "\n"}
    byp = {}
    for f in case["files"]:
        disk[f["path"]] = "\n".join(op_text(o) for o in f["ops"]) + "\n" + f["tail"]
        byp[f["path"]] = f
    dirs = case.get("dirs", DIRS)
    for k, d in enumerate(dirs):
        disk[d + "/data.txt"] = "(in %d)" % k
    r = run.run("nolib", dict(case["cfg"], files=disk, dirs=dirs[1:], faults=case["faults"]))
    v = []
    if r["end"] != "exit":
        return v
    lines = [x for x in r["stderr"].decode("latin-1").split("\n") if x]
    pos = [0]
    fired = {}
    for f in r["fired"]:
        p = f.split(" ", 5)
        fired.setdefault(p[0], []).append(p[-1])
    anyf = bool(r["fired"])
    st = {"cwd": "/w", "dir": "/w/", "vars": ["unset"] * 3, "loads": 0, "depth": 0, "wild": False}

    def fail(sig, msg):
        v.append((sig, msg))
        raise Stop()

    def take(i):
        """the report of operation i, which must be the next line"""
        if pos[0] >= len(lines):
            fail("not-run", "operation %d never reported (exit code %s)" % (i, r["code"]))
        p = lines[pos[0]].split(" ", 2)
        if p[0] != str(i) or len(p) < 2:
            fail("order", "operation %d should report next, the log has %r" % (i, lines[pos[0]]))
        pos[0] += 1
        return p[1], p[2] if len(p) > 2 else ""

    def next_is(i):
        return pos[0] < len(lines) and lines[pos[0]].split(" ", 1)[0] == str(i)

    def execute(ops, depth, path=None, loader=None):
        """False when a read failure cut the file short"""
        for o in ops:
            k, i = o[0], o[1]
            if path and ("read:file" in fired and path in fired["read:file"]) and not next_is(i) and o[0] != "load":
                return False
            if k == "load":
                if path and path in fired.get("read:file", []) and not started(o):
                    return False
                do_load(o, depth)
                continue
            kind, val = take(i)
            if k == "cwd":
                exp = st["dir"]
                if not st["wild"] and (kind != "V" or val != '"%s"' % exp):
                    fail("directory", "operation %d: current directory is %s %s, expected %r" % (i, kind, val, exp))
            elif k == "data":
                where = norm(st["cwd"], o[2]).rsplit("/", 1)[0]
                exp = "(in %d)" % dirs.index(where) if where in dirs else None
                if kind == "E":
                    if not anyf and not st["wild"]:
                        fail("spurious-error", "operation %d: reading %s failed" % (i, o[2]))
                elif val != exp and not st["wild"]:
                    fail("neighbour", "operation %d read %s, which belongs to another directory than %s" % (i, val, where))
            elif k == "setcwd":
                d = norm(st["cwd"], o[2])
                if d in dirs:
                    if kind == "E":
                        if "chdir" not in fired:
                            fail("spurious-error", "operation %d: changing to %s failed" % (i, o[2]))
                    else:
                        st["cwd"], st["dir"] = d, o[2]
                        st["wild"] = False
                elif kind != "E":
                    fail("value", "operation %d: changing to a missing directory reported nothing" % i)
            elif k == "def":
                st["vars"][o[2]] = o[3]
                if (kind, val) != ("V", "ok"):
                    fail("value", "operation %d: %s %s" % (i, kind, val))
            elif k == "ref":
                if (kind, val) != ("V", str(st["vars"][o[2]])):
                    fail("value", "operation %d: variable is %s %s, expected %s" % (i, kind, val, st["vars"][o[2]]))
            elif k == "err":
                if kind != "E":
                    fail("value", "operation %d raised nothing" % i)
        return True

    def started(o):
        # does the next line belong to this load (its own report or something inside it)?
        want = {str(o[1])}
        seen = set()

        def add(p):
            if p in seen or p not in byp:
                return
            seen.add(p)
            for q in byp[p]["ops"]:
                want.add(str(q[1]))
                if q[0] == "load":
                    for x in byp:
                        if x.endswith("/" + q[2].rsplit("/", 1)[-1]):
                            add(x)
        for x in byp:
            if x.endswith("/" + o[2].rsplit("/", 1)[-1]):
                add(x)
        return pos[0] < len(lines) and lines[pos[0]].split(" ", 1)[0] in want

    def do_load(o, depth):
        i = o[1]
        if st["wild"]:
            raise Stop()
        target = norm(st["cwd"], o[2])
        f = byp.get(target)
        saved = st["cwd"], st["dir"]
        if f is None:
            kind, val = take(i)
            if kind != "E":
                fail("value", "operation %d: loading %s, which does not exist, reported nothing" % (i, o[2]))
            return
        blocked = {"realpath", "getcwd", "chdir"} & set(fired) or target in fired.get("open:r", []) or target in fired.get("read:file", [])
        if blocked and next_is(i) and lines[pos[0]].split(" ")[1] == "E":
            # it failed before running anything (or an unreadable first expression)
            take(i)
            if "chdir" in fired and "read:file" in fired:
                st["wild"] = True
            return
        st["loads"] += 1
        st["cwd"] = f["dir"]
        st["dir"] = f["dir"] + "/"
        st["depth"] = max(st["depth"], depth + 1)
        complete = execute(f["ops"], depth + 1, target, o)
        kind, val = take(i)
        st["cwd"], st["dir"] = saved
        if kind == "E" and "chdir" in fired:
            st["wild"] = True
        if not complete:
            if kind != "E":
                fail("silent-cut", "operation %d: %s could not be read to its end and load reported %s" % (i, target, val))
            return
        if f["tail"]:
            if kind != "E":
                fail("malformed", "operation %d: %s ends with malformed text and load reported %s" % (i, target, val))
            return
        if kind == "E":
            if "chdir" in fired:
                st["wild"] = True
                return
            if target in fired.get("read:file", []):
                return
            if not anyf:
                fail("spurious-error", "operation %d: loading %s failed" % (i, target))
            fail("spurious-error", "operation %d: loading %s failed although no fault touched it (%s)" % (i, target, r["fired"]))
        exp = str(f["ops"][-1][1] * 3) if f["ops"] else "#<void>"
        if val != exp:
            fail("value", "operation %d: load of %s gave %s, its last expression gives %s" % (i, target, val, exp))

    try:
        if execute(case["main"], 0) and pos[0] != len(lines):
            fail("extra", "unexpected output %r" % lines[pos[0]])
        if r["code"] != 0:
            fail("exit-code", "exit code %s" % r["code"])
        if not anyf and r["open_at_end"] != 0:
            fail("leak", "%d files are still open at the end" % r["open_at_end"])
    except Stop:
        pass
    info["nontrivial"] = st["loads"] >= 1
    info["count"] = {"loads": st["loads"]}
    info["max"] = {"depth": st["depth"]}
    return v

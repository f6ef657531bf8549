"""Seeded search over simulated runs: generation, judging, determinism gate,
minimisation, replay files, evidence.  One (property, seed, index) is one case;
a case is plain JSON and fully determines every simulated run it makes."""
import argparse, hashlib, importlib, json, multiprocessing as mp, os, random, resource, subprocess, sys, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from worker import Worker, WorkerDied  # noqa: E402
from simbuild import build, BuildError  # noqa: E402

NPROC = int(os.environ.get("VERIF_PROCS", "8"))
BAD_ENDS = ("signal", "asan", "internal", "limit", "timeout")
BASE_START = dict(argv=["-q", "main.min"], cfg={"seed": 1, "gc": "bytes 60000000", "reuse": "lifo", "cpu": 100},
                  files={"/w/main.min": '(import "../minim/src/library/base.min" "prog.min")'}, start_extra="/w/main.min")
STARTS = {
    "nolib": dict(argv=["-q", "--no-libs", "prog.min"], cfg={"seed": 1}),
    "repl": dict(argv=["-q", "--no-libs", "-i"], cfg={"seed": 1}),
    "base": BASE_START,
}


def rng_for(*parts):
    h = hashlib.sha256("/".join(map(str, parts)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "little"))


def add_into(d, k, n=1):
    d[k] = d.get(k, 0) + n


class NoStart(Exception):
    pass


class Runner:
    """Runs simulations for one process; keeps one zygote per start-up kind and
    the counters that become evidence."""

    def __init__(self, prop):
        self.prop = prop
        self.starts = dict(STARTS)
        self.starts.update(getattr(prop, "STARTS", {}))
        self.w = {}
        self.stat = {"runs": 0, "events": 0, "gcs": 0, "allocs": 0, "alloc_bytes": 0, "fault": {}, "ends": {}, "n": {}, "planned": {}}
        self.io = set()
        self.full = set()
        self.problems = []
        self.hashes = []
        self.recording = True
        self.worker_restarts = 0
        self.bindir = None

    def worker(self, z):
        if z not in self.w:
            s = dict(self.starts[z])
            argv = s.pop("argv")
            cfg = s.pop("cfg", None)
            if "cls" in s:
                self.w[z] = s["cls"]()
            else:
                self.w[z] = Worker(argv, cfg, **s)
        return self.w[z]

    def run(self, z, case, ok_ends=("exit",), allow=()):
        """one simulated run. Ends other than ok_ends are recorded as generic problems."""
        case = dict(case)
        case.setdefault("limit", 40000000)
        for attempt in range(3):
            try:
                r = self.worker(z).run(case)
                break
            except WorkerDied as e:
                # the zygote itself is gone: restart it and try again
                self.worker_restarts += 1
                try:
                    self.w.pop(z).close()
                except Exception:
                    pass
                if attempt == 2:
                    # the interpreter cannot even start under the simulator
                    self.problem("start-up", "the interpreter does not start: %s" % str(e)[:1500])
                    self.hashes.append(0)
                    raise NoStart()
        if self.recording:
            s = self.stat
            s["runs"] += 1
            s["events"] += r.get("events", 0)
            s["alloc_bytes"] += r.get("alloc_bytes", 0)
            for k, v in r["n"].items():
                add_into(s["n"], k, v)
            for f in r["fired"]:
                p = f.split()
                add_into(s["fault"], p[0] + " " + (p[2] if len(p) > 2 else ""))
            add_into(s["ends"], r["end"])
            self.io.add(r.get("iohash", 0))
            self.full.add(r.get("hash", 0))
        self.hashes.append(r.get("hash", 0))
        if r["end"] == "exit" and r.get("code") == 99 and r.get("sanitizer"):
            r["end"] = "asan"
        if r["end"] not in ok_ends:
            self.problem("end-" + r["end"], "run ended with %s: %s %s" % (r["end"], r.get("note", ""), (r.get("sanitizer") or "")[:1500]))
        for v in r["viol"]:
            kind = v.split(" ")[0].rstrip(":")
            if kind not in allow:
                self.problem("inv-" + kind, "simulator invariant: " + v)
        return r

    def gc(self, ops):
        """one simulated run of minim-gc: -> the judged model (lib/gcmodel.py)"""
        import gcmodel
        if self.bindir is None:
            self.bindir = build()
        try:
            p = subprocess.run([os.path.join(self.bindir, "gcsim")], input="\n".join(ops) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=60)
            text, err = p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            text, err = "", "timeout"
        m = gcmodel.judge(text)
        fin = m.final or ["N", "0", "0", "0", "0", "0"]
        if self.recording:
            s = self.stat
            s["runs"] += 1
            s["events"] += int(fin[1]) + int(fin[2])
            add_into(s["n"], "gc", int(fin[4]) + m.stats["autocollections"])
            for k in ("blocks", "freed", "dtors", "autocollections"):
                add_into(s["n"], k, m.stats[k])
            if m.stats["failed"]:
                add_into(s["fault"], "allocation ENOMEM", m.stats["failed"])
            add_into(s["ends"], "exit" if m.final else "crash")
            self.full.add(fin[5])
        self.hashes.append(fin[5])
        for sig, msg in m.v:
            self.problem(sig, msg + (" " + err[-600:] if sig in ("asan", "crash", "died") else ""))
        return m

    def problem(self, sig, msg):
        self.problems.append((sig, msg))

    def judge(self, case):
        """-> (violations, info). violations: list of (signature, message)"""
        self.problems = []
        self.hashes = []
        info = {}
        try:
            v = list(self.prop.judge(case, self, info) or [])
        except NoStart:
            v = []
        return v + self.problems, info

    def close(self):
        for w in self.w.values():
            w.close()


# ---- random simulator configuration -----------------------------------------
def rand_cfg(rng, allocs=4000, heavy=0.15, stack=True):
    """heap schedule and layout: any of them must be invisible to the program"""
    c = {"seed": rng.randrange(1, 1 << 31)}
    k = rng.random()
    if k < 0.12:
        pass
    elif k < 0.12 + heavy:
        c["gc"] = "every 1" if allocs <= 6000 else "every %d" % max(1, allocs // 6000)
    elif k < 0.45:
        c["gc"] = "every %d" % max(1, rng.choice([2, 3, 5, 7, 11, 17, 29, 53, 101]) * max(1, allocs // 20000))
    elif k < 0.65:
        c["gc"] = "prob %d" % rng.choice([200, 600, 2000, 6000, 20000]) if allocs <= 6000 else "prob %d" % rng.choice([20, 100, 300])
    elif k < 0.85:
        a = rng.randrange(allocs)
        c["gc"] = "every 1 %d %d" % (a, a + rng.choice([50, 200, 1000]))
    else:
        c["gc"] = "bytes %d" % rng.choice([2000, 8000, 30000, 100000])
    c["place"] = rng.choice(["random", "random", "bump"])
    c["reuse"] = rng.choice(["never", "lifo", "random", "lifo"])
    c["junk"] = rng.choice([0, 0, 1])
    if stack:
        c["stack"] = rng.choice([None, None, 512, 768, 1024, 2048, 4096])
    return {k: v for k, v in c.items() if v is not None}


# ---- minimisation ------------------------------------------------------------
def minimise(runner, case, sig, budget=45.0):
    t0 = time.time()
    runner.recording = False
    tries = [0]

    def bad(c):
        if time.time() - t0 > budget:
            return False
        tries[0] += 1
        try:
            v, _ = runner.judge(c)
        except Exception:
            return False
        return any(s == sig for s, _ in v)

    def clone(c):
        return json.loads(json.dumps(c))
    best = case
    for key in getattr(runner.prop, "LISTS", ("items", "faults")):
        items = best.get(key)
        if not isinstance(items, list) or not items:
            continue
        n = 2
        while len(items) >= 1 and time.time() - t0 < budget:
            size = max(1, len(items) // n)
            for i in range(0, len(items), size):
                cand = clone(best)
                cand[key] = items[:i] + items[i + size:]
                if bad(cand):
                    best = cand
                    items = best[key]
                    n = max(n - 1, 2)
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
    # drop simulator settings one by one
    for key in ("gc", "place", "reuse", "junk", "stack", "chunk", "obuf", "fbuf", "cap", "fdlimit"):
        for cfgk in ("cfg", "cfg2"):
            if key in best.get(cfgk, {}):
                cand = clone(best)
                del cand[cfgk][key]
                if bad(cand):
                    best = cand
    simp = getattr(runner.prop, "simplify", None)
    if simp:
        progress = True
        while progress and time.time() - t0 < budget:
            progress = False
            for cand in simp(clone(best)):
                if bad(cand):
                    best = cand
                    progress = True
                    break
                if time.time() - t0 > budget:
                    break
    runner.recording = True
    return best, tries[0]


# ---- one process --------------------------------------------------------------
def process_main(modname, seed, tier, ids, t_end, out, idx, stop):
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY if False else 1 << 29, resource.RLIM_INFINITY))
    except Exception:
        pass
    sys.setrecursionlimit(400000)
    threading.stack_size(512 << 20)
    th = threading.Thread(target=_process, args=(modname, seed, tier, ids, t_end, out, idx, stop))
    th.start()
    th.join()
    out.close()
    os._exit(0)


def _process(modname, seed, tier, ids, t_end, out, idx, stop):
    res = {"idx": idx, "violations": [], "done": 0, "nontrivial": 0, "distinct": [], "samples": [], "discarded": 0, "nondet": [], "error": None,
           "rechecked": 0, "info": {}}
    runner = None
    try:
        prop = importlib.import_module(modname)
        runner = Runner(prop)
        distinct = set()
        for i in ids:
            if time.time() > t_end or stop.is_set():
                break
            rng = rng_for(prop.ID, seed, tier, i)
            case = prop.gen(rng, tier, i)
            if case is None:
                res["discarded"] += 1
                continue
            if i % 16 < 8:
                # half of the cases go through the replay representation
                case = json.loads(json.dumps(case))
            v, info = runner.judge(case)
            res["done"] += 1
            hs = list(runner.hashes)
            if info.get("discard"):
                res["discarded"] += 1
            else:
                key = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
                if info.get("nontrivial", True):
                    distinct.add(key)
                if len(res["samples"]) < 1 and info.get("nontrivial", True):
                    res["samples"].append(case)
            for k, n in (info.get("count") or {}).items():
                add_into(res["info"], k, n)
            for k, n in (info.get("max") or {}).items():
                res["info"]["max_" + k] = max(res["info"].get("max_" + k, 0), n)
            again = v or (i // 8) % 10 == 0
            if again:
                runner.recording = False
                v2, _ = runner.judge(case)
                runner.recording = True
                res["rechecked"] += 1
                if runner.hashes != hs:
                    res["nondet"].append(i)
                if v:
                    sigs2 = {s for s, _ in v2}
                    keep = [(s, m) for s, m in v if s in sigs2]
                    if not keep:
                        res["nondet"].append(i)
                        continue
                    res["violations"].append({"i": i, "case": case, "v": keep})
                    known = known_signatures(prop.ID)
                    if any(s not in known for s, _ in keep):
                        stop.set()
                        break
        res["distinct"] = list(distinct)
    except BuildError as e:
        res["error"] = "build: %s" % e
    except Exception:
        res["error"] = traceback.format_exc()
    if runner:
        res["stat"] = runner.stat
        res["io"] = list(runner.io)
        res["full"] = list(runner.full)
        res["restarts"] = runner.worker_restarts
        try:
            runner.close()
        except Exception:
            pass
    out.send(res)


# ---- known findings -------------------------------------------------------------
def known_signatures(pid):
    known = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                # known: property=<id> sig=<signature> <what fails>
                parts = line[7:].split(" ", 2)
                if parts[0] == "property=" + pid and parts[1].startswith("sig="):
                    known[parts[1][4:]] = parts[2] if len(parts) > 2 else ""
    return known


def write_replay(prop, seed, tier, i, case, sig, msg, extra):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-seed%d-%d-%s.json" % (prop.ID, seed, i, "".join(c if c.isalnum() or c in "-_" else "_" for c in sig)[:40]))
    with open(p, "w") as f:
        json.dump(dict({"property": prop.ID, "seed": seed, "tier": tier, "case_index": i, "signature": sig, "message": msg, "case": case}, **extra), f, indent=1)
    return p


def replay(prop, path, verbose=True):
    data = json.load(open(path))
    runner = Runner(prop)
    v, info = runner.judge(data["case"])
    h1 = list(runner.hashes)
    v2, _ = runner.judge(data["case"])
    same = h1 == runner.hashes
    sigs = [s for s, _ in v]
    print("replay %s: signatures %s; execution hashes %s; repeatable: %s" % (path, sigs, ["%x" % x for x in h1], same))
    for s, m in v:
        print("  [%s] %s" % (s, m))
    runner.close()
    if data["signature"] in sigs:
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        return 1
    print("the recorded violation did not recur")
    return 0


def in_big_thread(f):
    box = []
    sys.setrecursionlimit(400000)
    threading.stack_size(512 << 20)
    th = threading.Thread(target=lambda: box.append(f()))
    th.start()
    th.join()
    threading.stack_size(0)
    return box[0]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--n", type=int)
    ap.add_argument("--show", type=int)
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)
    modname = "props." + a.property.lower()
    prop = importlib.import_module(modname)
    if a.replay:
        return in_big_thread(lambda: replay(prop, a.replay))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.show is not None:
        def sh():
            case = prop.gen(rng_for(prop.ID, a.seed, tier, a.show), tier, a.show)
            print(json.dumps(case, indent=1))
            r = Runner(prop)
            v, info = r.judge(case)
            print(info)
            for s, m in v:
                print("[%s] %s" % (s, m))
            r.close()
        in_big_thread(sh)
        return 0
    t0 = time.time()
    try:
        build()
    except BuildError as e:
        print("build failed:\n%s" % e)
        return 2
    n = a.n or (prop.QUICK if tier == "quick" else prop.THOROUGH)
    cap = getattr(prop, "CAP", {}).get(tier, 240 if tier == "quick" else 3000)
    nproc = min(NPROC, getattr(prop, "PROCS", NPROC), n)
    stop = mp.Event()
    procs = []
    for k in range(nproc):
        rd, wr = mp.Pipe(False)
        p = mp.Process(target=process_main, args=(modname, a.seed, tier, list(range(k, n, nproc)), t0 + cap, wr, k, stop))
        p.start()
        wr.close()
        procs.append((p, rd))
    results = []
    for p, rd in procs:
        try:
            results.append(rd.recv())
        except EOFError:
            results.append({"error": "check process died", "violations": []})
        p.join()
    return finish(prop, a, tier, results, t0, n)


def merge(results, key):
    out = {}
    for r in results:
        for k, v in (r.get("stat", {}).get(key) or {}).items():
            out[k] = out.get(k, 0) + v
    return out


def finish(prop, a, tier, results, t0, n):
    errors = [r["error"] for r in results if r.get("error")]
    known = known_signatures(prop.ID)
    viol = []
    for r in results:
        viol += r["violations"]
    viol.sort(key=lambda x: x["i"])
    fresh = []
    seen_known = {}
    for x in viol:
        for s, m in x["v"]:
            if s in known:
                seen_known.setdefault(s, (x["i"], m))
            else:
                fresh.append((x["i"], x["case"], s, m))
    code = 0
    for s in known:
        # listed findings are re-demonstrated by the property's own fixed cases
        if s in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop.ID, known[s]))
    if fresh:
        code = 1
        i, case, sig, msg = fresh[0]

        def mini():
            runner = Runner(prop)
            try:
                best, tries = minimise(runner, case, sig)
                v, _ = runner.judge(best)
                m2 = [m for s, m in v if s == sig]
                if not m2:
                    best, m2 = case, [msg]
                return best, tries, m2[0]
            except Exception:
                return case, 0, msg
            finally:
                try:
                    runner.close()
                except Exception:
                    pass
        best, tries, m2 = in_big_thread(mini)
        p = write_replay(prop, a.seed, tier, i, best, sig, m2, {"original_case": case, "minimisation_runs": tries})
        print("[%s] case %d: %s" % (sig, i, m2[:3000]))
        print("VIOLATION property=%s replay=%s" % (prop.ID, os.path.relpath(p, VERIF)))
    wall = time.time() - t0
    st = {"runs": 0, "events": 0, "alloc_bytes": 0}
    io, full, distinct = set(), set(), set()
    for r in results:
        for k in st:
            st[k] += r.get("stat", {}).get(k, 0)
        io.update(r.get("io", ()))
        full.update(r.get("full", ()))
        distinct.update(r.get("distinct", ()))
    counts = merge(results, "n")
    done = sum(r.get("done", 0) for r in results)
    discarded = sum(r.get("discarded", 0) for r in results)
    nondet = sorted(sum((r.get("nondet", []) for r in results), []))
    info = {}
    for r in results:
        for k, v in r.get("info", {}).items():
            info[k] = max(info.get(k, 0), v) if k.startswith("max_") else info.get(k, 0) + v
    samples = [s for r in results for s in r.get("samples", [])][:3]
    cov = {
        "evaluations": done, "distinct_nontrivial": len(distinct), "rule": prop.RULE, "samples": shorten(samples) or ["none"],
        "simulated_runs": st["runs"], "cases_planned": n, "cases_discarded": discarded, "seeds_per_hour": int(done / wall * 3600) if wall else 0,
        "runs_per_hour": int(st["runs"] / wall * 3600) if wall else 0,
        "simulated_time": {"unit": "simulator events (allocations, collections, I/O calls); the system has no clock",
                           "events": st["events"], "bytes_allocated": st["alloc_bytes"]},
        "event_counts": counts, "faults_injected": merge(results, "fault"), "run_ends": merge(results, "ends"),
        "distinct_executions": len(full), "distinct_io_histories": len(io),
        "distinct_measure": "hash over every simulator event (allocation sizes, collections and survivors, I/O calls and results); io: over I/O events only",
        "determinism": {"cases_run_twice": sum(r.get("rechecked", 0) for r in results), "mismatches": len(nondet), "mismatching_cases": nondet[:10]},
        "real_components": prop.REAL, "stub_components": prop.STUB, "details": info,
        "worker_restarts": sum(r.get("restarts", 0) for r in results),
    }
    if errors:
        cov["errors"] = errors[:3]
    ev = {"property": prop.ID, "tier": tier, "seed": a.seed, "level": prop.LEVEL, "coverage": cov,
          "assumptions": prop.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases (%d discarded, %d distinct non-trivial), %d simulated runs, %d events, %d collections, %d faults, %.1f s%s"
          % (prop.ID, tier, done, discarded, len(distinct), st["runs"], st["events"], counts.get("gc", 0), sum(cov["faults_injected"].values()), wall,
             "; NOT REPEATABLE: %s" % nondet[:5] if nondet else ""))
    if errors and not code:
        print("check error: %s" % errors[0])
        return 2
    return code


def shorten(x, n=1500, d=40):
    if d == 0:
        return "..."
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + "...[%d more]" % (len(x) - n)
    if isinstance(x, list):
        return [shorten(y, n, d - 1) for y in x[:40]]
    if isinstance(x, dict):
        return {k: shorten(v, n, d - 1) for k, v in x.items()}
    return x


REAL_CORE = ["src/core/c (evaluator, compiler, environments, symbol table, hash tables, reader, printer, ports, FASL)", "src/core/s/prelude.min",
             "src/boot/c and src/boot/s (driver)"]
STUB_CORE = ["Boehm GC: replaced by the simulator's collector (precise schedule, poisoned free memory)",
             "C library stdio/file system/exit: replaced by an in-memory disk and descriptor table"]

if __name__ == "__main__":
    sys.exit(main())

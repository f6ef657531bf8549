"""Builds the simulation worker (interpreter) and the collector harness from
/repo's current working tree.  Build output goes to /verif/.build/<hash>/, keyed
by the content of every source file that takes part."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

WRAPS = """fopen fopen64 tmpfile tmpfile64 fflush fclose freopen getc fgetc ungetc putc fputc fputs fseek fseeko
ferror feof setvbuf _IO_getc _IO_putc getc_unlocked fgetc_unlocked putc_unlocked fputc_unlocked getchar putchar
ftell ftello rewind clearerr fread fwrite fgets getline vfprintf fprintf printf vprintf puts perror
getcwd get_current_dir_name chdir realpath access remove unlink rename fileno fsync isatty getenv time rand random
exit _exit abort""".split()

SKIP_DIRS = {"build", "boehm-gc", "test", ".git"}


def _tree(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in SKIP_DIRS)
        for f in sorted(fs):
            if f.endswith((".c", ".h", ".min", ".inc", ".def")) or f == "Makefile":
                out.append(os.path.join(d, f))
    return out


def source_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(VERIF, "sim")):
        for p in _tree(base):
            h.update(os.path.relpath(p, base).encode() + b"\0")
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    h.update(open(__file__, "rb").read())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def _par(jobs):
    procs = []
    for cmd in jobs:
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        if len(procs) >= 12:
            c, p = procs.pop(0)
            o, _ = p.communicate()
            if p.returncode:
                raise BuildError("%s\n%s" % (" ".join(c), o[-6000:]))
    for c, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            raise BuildError("%s\n%s" % (" ".join(c), o[-6000:]))


def _copy_src(dst):
    src = os.path.join(REPO, "src")
    for p in _tree(src):
        q = os.path.join(dst, os.path.relpath(p, src))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copyfile(p, q)


def build(verbose=False):
    """returns the directory with the worker binaries"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = source_hash()
        out = os.path.join(BUILD, key)
        if os.path.exists(os.path.join(out, "ok")):
            os.utime(out)
            return out
        t0 = time.time()
        # keep a few recent builds only
        old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d not in ("lock",) and os.path.isdir(os.path.join(BUILD, d))),
                     key=os.path.getmtime)
        for d in old[:-4]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        src = os.path.join(tmp, "src")
        _copy_src(src)
        for d, text in (("core", '#define MINIM_X86_64 1\n#define PRELUDE_PATH "/minim/src/core/s/prelude.min"\n'),
                        ("boot", '#define BOOT_DIR "/minim/src/boot/s/"\n'),
                        ("gc", "// simulator build: collector entry points come from sim/simrt.c\n")):
            os.makedirs(os.path.join(src, d, "build"), exist_ok=True)
            with open(os.path.join(src, d, "build", "config.h"), "w") as f:
                f.write(text)
        inc = ["-I", os.path.join(VERIF, "sim", "include")]
        cfl = ["gcc", "-std=c11", "-O1", "-g", "-w", "-fno-omit-frame-pointer", "-fsanitize=address", "-DMINIM_SIM=1",
               "-fno-pie", "-U_FORTIFY_SOURCE"] + inc
        srcs = []
        for d in ("core", "boot"):
            for p in _tree(os.path.join(src, d)):
                if p.endswith(".c"):
                    srcs.append(p)
        objs, jobs = [], []
        for p in srcs:
            o = os.path.join(tmp, os.path.relpath(p, src).replace("/", "_")[:-2] + ".o")
            jobs.append(cfl + ["-Dmain=minim_main", "-c", p, "-o", o])
            objs.append(o)
        so = os.path.join(tmp, "simrt.o")
        jobs.append(["gcc", "-std=gnu11", "-O2", "-g", "-Wall", "-fno-pie", "-fno-omit-frame-pointer", "-fno-tree-loop-distribute-patterns",
                     "-c", os.path.join(VERIF, "sim", "simrt.c"), "-o", so])
        _par(jobs)
        _run(["gcc", "-no-pie", "-fsanitize=address", "-o", os.path.join(tmp, "simworker")] + objs + [so, "-lpthread"]
             + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)])
        gcx = os.path.join(VERIF, "sim", "gcsim.c")
        if os.path.exists(gcx):
            _build_gcsim(tmp, src)
        for o in objs + [so]:
            os.unlink(o)
        open(os.path.join(tmp, "ok"), "w").write("%.1f s\n" % (time.time() - t0))
        os.rename(tmp, out)
        if verbose:
            print("built %s in %.1f s" % (out, time.time() - t0), file=sys.stderr)
        return out


def _build_gcsim(tmp, src):
    """the collector harness: minim-gc itself over a simulated allocator"""
    d = os.path.join(src, "gc", "minim-gc")
    seam = ["-D%s=gs_%s" % (f, f) for f in ("malloc", "calloc", "realloc", "free")]
    objs, jobs = [], []
    for p in _tree(d):
        if p.endswith(".c"):
            o = os.path.join(tmp, "gc_" + os.path.relpath(p, d).replace("/", "_")[:-2] + ".o")
            jobs.append(["gcc", "-std=gnu11", "-O0", "-g", "-w", "-fsanitize=address", "-fno-pie", "-fno-omit-frame-pointer"] + seam + ["-c", p, "-o", o])
            objs.append(o)
    so = os.path.join(tmp, "gcsim.o")
    jobs.append(["gcc", "-std=gnu11", "-O1", "-g", "-w", "-fno-pie", "-fno-omit-frame-pointer", "-c", os.path.join(VERIF, "sim", "gcsim.c"), "-o", so])
    _par(jobs)
    _run(["gcc", "-no-pie", "-fsanitize=address", "-o", os.path.join(tmp, "gcsim"), so] + objs)
    for o in objs + [so]:
        os.unlink(o)


if __name__ == "__main__":
    print(build(True))

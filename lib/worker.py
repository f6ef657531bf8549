"""Talks to one simulation worker process (a zygote that forks one child per run)."""
import os, struct, subprocess, tempfile, time
from simbuild import build, REPO

ERRNO = {"EIO": 5, "EBADF": 9, "ENOMEM": 12, "EACCES": 13, "ENOSPC": 28, "EMFILE": 24, "EROFS": 30, "EINTR": 4,
         "ENOENT": 2, "EPIPE": 32, "EDQUOT": 122, "EFBIG": 27, "ELOOP": 40, "ENAMETOOLONG": 36}


def b(x):
    return x if isinstance(x, bytes) else x.encode("latin-1")


class WorkerDied(Exception):
    pass


class Worker:
    """kind: argv for minim + start-up configuration"""

    def __init__(self, argv, cfg=None, files=None, serve_at=0, start_extra="", bindir=None, startup_stdin=None):
        self.bindir = bindir or build()
        lines = []
        cfg = dict(cfg or {})
        for k, v in cfg.items():
            if isinstance(v, (list, tuple)):
                for x in v:
                    lines.append(b("%s %s\n" % (k, x)))
            else:
                lines.append(b("%s %s\n" % (k, v)))
        lines.append(b("serve_at %d\n" % serve_at))
        if start_extra:
            lines.append(b("start_extra %s\n" % start_extra))
        for p, data in (files or {}).items():
            d = b(data)
            lines.append(b("file %s %d\n" % (p, len(d))) + d + b"\n")
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        fd, path = tempfile.mkstemp(prefix="simcfg")
        os.write(fd, b"".join(lines))
        os.close(fd)
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C",
               "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:"
               "handle_sigill=0:handle_abort=0:use_sigaltstack=0:allow_user_segv_handler=1:symbolize=1:"
               "malloc_context_size=4:quarantine_size_mb=8:print_legend=0:detect_odr_violation=0:"
               "max_malloc_fill_size=0:allocator_may_return_null=1:replace_str=1"}
        self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen([os.path.join(self.bindir, "simworker"), os.path.join(REPO, "src"), str(r1), str(w2), path, "minim"] + list(argv),
                                  pass_fds=(r1, w2), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.errf)
        os.close(r1)
        os.close(w2)
        self.w = os.fdopen(w1, "wb", 0)
        self.r = os.fdopen(r2, "rb")
        try:
            self.hello = self._read()
        except WorkerDied:
            self.errf.seek(0)
            raise WorkerDied("worker start-up failed (argv %r): %s" % (argv, self.errf.read(4000).decode("latin-1")))
        finally:
            os.unlink(path)
        if "hello" not in self.hello:
            raise WorkerDied("bad hello: %r" % self.hello)

    def _read(self):
        h = self.r.read(8)
        if len(h) < 8:
            raise WorkerDied("worker closed its pipe")
        n = struct.unpack("<Q", h)[0]
        data = self.r.read(n)
        if len(data) < n:
            raise WorkerDied("short response")
        res = {"disk": {}, "gone": [], "viol": [], "fired": [], "n": {}}
        i = 0
        while i < n:
            j = data.index(b"\n", i)
            key, ln = data[i:j].rsplit(b" ", 1)
            ln = int(ln)
            val = data[j + 1:j + 1 + ln]
            i = j + 1 + ln + 1
            key = key.decode("latin-1")
            if key.startswith("disk "):
                res["disk"][key[5:]] = val
            elif key.startswith("gone "):
                res["gone"].append(key[5:])
            elif key.startswith("n "):
                res["n"][key[2:]] = int(val)
            elif key in ("viol", "fired"):
                res[key].append(val.decode("latin-1"))
            elif key in ("stdout", "stderr"):
                res[key] = val
            elif key == "gclog":
                q = struct.unpack("<%dQ" % (ln // 8), val)
                res[key] = [q[k:k + 3] for k in range(0, len(q), 3)]
            elif key in ("end", "note", "cwd", "trace", "sanitizer", "why"):
                res[key] = val.decode("latin-1")
            else:
                res[key] = int(val)
        return res

    def run(self, case):
        out = []
        for k, v in case.items():
            if k in ("files", "rofiles", "badfiles"):
                kk = k[:-1]
                for p, data in v.items():
                    d = b(data)
                    out.append(b("%s %s %d\n" % (kk, p, len(d))) + d + b"\n")
            elif k == "stdin":
                d = b(v)
                out.append(b("stdin %d\n" % len(d)) + d + b"\n")
            elif k == "faults":
                for f in v:
                    # [kind, nth, errno, keep, sticky, crash]
                    out.append(b("fault %s %d %d %d %d %d\n" % tuple(f)))
            elif k == "gcat":
                for x in v:
                    out.append(b("gcat %d\n" % x))
            elif k == "dirs":
                for x in v:
                    out.append(b("dir %s\n" % x))
            elif k in ("seed", "gc", "place", "reuse", "junk", "stack", "limit", "crash_event", "cpu", "cap", "fdlimit", "chunk", "cwd", "obuf", "fbuf"):
                if v is not None:
                    out.append(b("%s %s\n" % (k, v)))
            elif k == "trace":
                if v:
                    out.append(b"trace 1\n")
        blob = b"".join(out)
        try:
            self.w.write(struct.pack("<Q", len(blob)) + blob)
            return self._read()
        except (BrokenPipeError, WorkerDied) as e:
            self.errf.seek(0)
            raise WorkerDied("worker died: %s %s" % (e, self.errf.read(2000).decode("latin-1")))

    def close(self):
        try:
            self.w.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.r.close()
        self.errf.close()

"""Reference model of a conservative collector over an explicit memory: judges the event log of sim/gcsim.c."""
KEY = 0x7e << 56
TOP = 0xff << 56
AUTO = 8 << 20


class Block:
    __slots__ = ("size", "mrk", "dtor", "root", "w", "ran")

    def __init__(self, size, mrk, dtor):
        self.size, self.mrk, self.dtor, self.root, self.w, self.ran = size, mrk, dtor, False, {}, 0


def kinds(k):
    """kind -> (marker, has a destructor)"""
    return {0: (0, 0), 1: (1, 0), 4: (0, 1), 5: (5, 0), 6: (6, 1), 7: (5, 1)}[k]


class Model:
    def __init__(self):
        self.slots = [0] * 40
        self.b = {}
        self.paused = False
        self.v = []
        self.stats = {"collections": 0, "freed": 0, "blocks": 0, "dtors": 0, "failed": 0, "maxlive": 0, "autocollections": 0}
        self.cache = None

    def bad(self, sig, msg):
        if len(self.v) < 8:
            self.v.append((sig, "operation %d %r: %s" % (self.n, self.op, msg)))

    def reach(self, held=0):
        if self.cache is not None and not held:
            return self.cache
        seen = set()
        work = [a for a in self.slots if a in self.b] + [a for a, x in self.b.items() if x.root]
        if held in self.b:
            work.append(held)
        b = self.b
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            x = b[a]
            if x.mrk == 1:
                continue
            for i, p in x.w.items():
                if x.mrk == 5 and i > 1:
                    continue
                if x.mrk == 6:
                    if i >= 64 or (p & TOP) != KEY:
                        continue
                    p ^= KEY
                if p in b and p not in seen:
                    work.append(p)
        if not held:
            self.cache = seen
        return seen

    def touch(self):
        self.cache = None

    def feed(self, lines):
        """lines: the log of one run"""
        ops = []
        self.end = None
        for l in lines:
            if l.startswith("> "):
                ops.append([l[2:], []])
            elif l == "end":
                self.end = "end"
            elif ops and l:
                ops[-1][1].append(l)
        for self.n, (op, ev) in enumerate(ops):
            self.op = op
            self.step(op.split(), ev)
        self.n += 1
        self.op = ""

    def free_event(self, a, explicit, held, stop_ok, quiet):
        x = self.b.get(a)
        if x is None:
            return self.bad("double-free", "block %x was freed, but is not live" % a)
        if a != explicit:
            if a in self.reach(held):
                self.bad("freed-reachable", "block %x (%d bytes) was reclaimed while it is reachable" % (a, x.size))
            elif quiet:
                self.bad("unexpected-collection", "block %x was reclaimed by an operation that does not collect" % a)
        if x.dtor and not x.ran:
            self.bad("dtor-skipped", "block %x was reclaimed without running its destructor" % a)
        self.stats["freed"] += 1
        if self.cache is not None and (a in self.cache or x.root):
            self.touch()
        del self.b[a]
        self.pend.discard(a)

    def new(self, a, size, k):
        if a in self.b:
            self.bad("overlap", "block %x was handed out while it is live" % a)
        m, d = kinds(k)
        self.b[a] = Block(size, m, d)
        self.stats["blocks"] += 1
        self.touch()

    def step(self, f, ev):
        op, g = f[0], [int(x) for x in f[1:]] + [0, 0, 0, 0]
        s = self.slots
        if op in "azr":
            for j in (1, 2) if op == "z" else (1,):
                g[j] &= (1 << 64) - 1
        self.pend = set()
        held = s[g[1]] if op == "h" else 0
        if op == "h":
            s[g[1]] = 0
            self.touch()
        explicit = None
        if op == "f" and s[g[0]] in self.b:
            explicit = s[g[0]]
        if op == "r" and s[g[0]] in self.b and g[1] == 0:
            explicit = s[g[0]]
        old = s[g[0]] if op == "r" else None
        fails = 0
        collects = op in "cChZ" or (op in "azB" and not self.paused) or (op == "r" and old not in self.b and not self.paused)
        na = 0
        freed = 0
        for l in ev:
            p = l.split()
            t = p[0]
            if t == "E":
                fails += 1
                self.stats["failed"] += 1
            elif t == "X":
                a = int(p[1], 16)
                freed += 1
                if op == "Z":
                    x = self.b.get(a)
                    if x is None:
                        self.bad("double-free", "block %x was freed, but is not live" % a)
                        continue
                    if x.dtor and not x.ran:
                        self.bad("dtor-skipped", "block %x was released at the end without running its destructor" % a)
                    del self.b[a]
                    self.pend.discard(a)
                elif op == "r" and a == old and a in self.b and g[1]:
                    pass        # the old place of a moved block
                else:
                    self.free_event(a, explicit, held, collects, not collects and not fails)
            elif t == "D":
                a = int(p[1], 16)
                self.stats["dtors"] += 1
                x = self.b.get(a)
                if x is None or not x.dtor:
                    self.bad("dtor-wrong", "a destructor ran for %x, which has none" % a)
                else:
                    x.ran += 1
                    self.pend.add(a)
                    if x.ran > 1:
                        self.bad("dtor-twice", "the destructor of %x ran twice" % a)
            elif t == "A":
                a = int(p[1], 16)
                na += 1
                size = g[1] if op == "a" else g[1] * g[2] if op == "z" else g[2]
                if a == 0:
                    if fails < 2 and size < 1 << 31:
                        self.bad("no-memory", "the allocation failed although memory was available after a collection")
                    elif size < 1 << 31 and not freed and len(self.b) - len(self.reach()) > 2:
                        self.bad("no-collection", "the allocation failed and %d unreachable blocks were not collected" % (len(self.b) - len(self.reach())))
                    continue
                if size >= 1 << 40:
                    self.bad("overflow", "an allocation of %d bytes succeeded" % size)
                    continue
                self.new(a, size, g[2] if op == "a" else g[3])
                if op == "B":
                    self.b[a].w[0] = s[g[0]]
                s[g[0]] = a
                self.touch()
            elif t == "M":
                a = int(p[1], 16)
                x = self.b.get(old)
                if a == 0:
                    if g[1] == 0:
                        if explicit is not None and explicit in self.b:
                            self.bad("not-freed", "reallocating to size 0 did not release the block")
                        s[g[0]] = 0
                        self.touch()
                    elif fails < 2 and g[1] < 1 << 31:
                        self.bad("no-memory", "the reallocation failed although memory was available after a collection")
                    continue
                if x is None:
                    self.new(a, g[1], g[2])
                else:
                    if a != old and a in self.b:
                        self.bad("overlap", "block %x was handed out while it is live" % a)
                    del self.b[old]
                    m, d = kinds(g[2])
                    y = Block(g[1], m, d)
                    y.root = x.root
                    n = min(x.size, g[1])
                    y.w = {i: q for i, q in x.w.items() if (i + 1) * 8 <= n}
                    self.b[a] = y
                s[g[0]] = a
                self.touch()
            elif t == "S":
                r = self.reach()
                if len(r) != len(self.b):
                    left = [a for a in self.b if a not in r]
                    self.bad("retained", "%d unreachable blocks (%d bytes) survive collections: %s" % (len(left), sum(self.b[a].size for a in left), ["%x" % a for a in left[:3]]))
                    for a in left:      # say it once
                        del self.b[a]
                self.settled = True
            elif t == "Q":
                q = [int(x) for x in p[1:]]
                tot = sum(x.size for x in self.b.values())
                rr = sum(self.b[a].size for a in self.reach())
                if q[0] != tot:
                    self.bad("stat-allocated", "GC_get_allocated is %d, allocated are %d" % (q[0], tot))
                if q[1] < rr or q[1] > q[0]:
                    self.bad("stat-reachable", "GC_get_reachable is %d, reachable are %d of %d" % (q[1], rr, tot))
                if q[2] > tot - rr or q[2] + q[1] != q[0]:
                    self.bad("stat-collectable", "GC_get_collectable is %d, collectable are %d" % (q[2], tot - rr))
            elif t == "L":
                if self.b:
                    self.bad("finalize", "%d blocks were not released at the end" % len(self.b))
                if int(p[1]):
                    self.bad("finalize", "%s allocations were not released at the end" % p[1])
            elif t == "corrupt":
                self.bad("content", "block %s changed at byte %s (%s)" % (p[1], p[2], p[3]))
            elif t == "bad":
                self.bad("bad-" + p[1], l)
            elif t in ("crash", "asan"):
                self.bad(t, "the collector crashed")
                self.crashed = True
            elif t == "N":
                self.final = p
        if self.pend:
            self.bad("dtor-early", "the destructor of %s ran, but the block stays" % ["%x" % a for a in sorted(self.pend)[:3]])
        # the effect of the operation on the mutator's memory
        if op == "f":
            if explicit is not None and explicit in self.b:
                self.bad("not-freed", "GC_free did not release the block")
        elif op in "wxon":
            x = self.b.get(s[g[0]])
            if x is not None and (g[1] + 1) * 8 <= x.size:
                x.w[g[1]] = 0 if op == "n" else s[g[2]] ^ KEY if op == "x" else s[g[2]] + (g[3] if op == "o" else 0)
                self.touch()
        elif op == "m":
            x = self.b.get(s[g[1]])
            if x is not None and (g[2] + 1) * 8 <= x.size:
                v = x.w.get(g[2], 0)
                if (v & TOP) == KEY:
                    v ^= KEY
                s[g[0]] = v if v in self.b else 0
                self.touch()
        elif op == "y":
            s[g[0]] = s[g[1]]
            self.touch()
        elif op == "k":
            s[g[0]] = 0
            self.touch()
        elif op == "h":
            s[g[2]] = held
            self.touch()
        elif op == "R":
            x = self.b.get(s[g[0]])
            if x:
                x.root = True
                self.touch()
        elif op == "D":
            x = self.b.get(s[g[0]])
            if x:
                x.dtor = 1 if g[1] else 0
        elif op == "K":
            x = self.b.get(s[g[0]])
            if x:
                x.mrk = kinds(g[1])[0]
                self.touch()
        elif op == "P":
            self.paused = True
        elif op == "U":
            self.paused = False
        if op in "cCh":
            self.stats["collections"] += 1
        if op in "azB" and freed:
            self.stats["autocollections"] += 1
        if op in "azBr" and na:
            live = sum(x.size for x in self.b.values()) if len(self.b) < 5000 or op == "B" else 0
            self.stats["maxlive"] = max(self.stats["maxlive"], live)
            if live > 3 * AUTO and not self.paused:
                rr = sum(self.b[a].size for a in self.reach())
                big = max(x.size for x in self.b.values())
                if live - rr > 3 * AUTO + 2 * big:
                    self.bad("never-collected", "%d bytes of garbage have piled up without a collection" % (live - rr))


def judge(text):
    m = Model()
    m.final = None
    m.crashed = False
    m.n, m.op = 0, ""
    m.feed(text.split("\n"))
    if not m.crashed and (m.end is None or m.final is None) and not m.v:
        m.bad("died", "the run ended without an answer")
    return m

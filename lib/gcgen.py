"""Mutator programs for sim/gcsim.c"""


def program(rng, faults):
    ns = rng.choice([3, 6, 12, 30])
    names_ = rng.sample(range(40), ns)
    S = lambda: rng.choice(names_)
    place = rng.choice([0, 1, 1, 2])
    ops = ["p %d %d %d %d" % (place, rng.choice([0, 1, 2, 2]), rng.choice([0, 1]), rng.randrange(1, 1 << 30))]
    kind = {}       # what the generator believes about the block in a slot
    n = rng.choice([15, 40, 40, 120, 300])
    sizes = [1, 7, 8, 16, 24, 24, 40, 64, 100, 256, 1000]
    large = 0
    big = rng.random() < 0.15
    styles = rng.sample(["alloc", "link", "root", "free", "realloc", "opt", "reg", "pause", "bulk", "stat", "weird"], rng.randrange(3, 10))
    W = {"a": 20, "w": 20 if "link" in styles else 5, "y": 5, "k": 12, "m": 8, "c": rng.choice([1, 4, 15]), "C": rng.choice([1, 4]), "v": 3,
         "R": 5 if "root" in styles else 0, "f": 8 if "free" in styles else 0, "r": 10 if "realloc" in styles else 1, "D": 5 if "reg" in styles else 0,
         "K": 5 if "reg" in styles else 0, "P": 2 if "pause" in styles else 0, "q": 6 if "stat" in styles else 1, "B": 1 if "bulk" in styles else 0,
         "g": 3 if "weird" in styles else 0, "o": 4 if "weird" in styles else 0, "h": 3, "z": 6, "G": 25 if big else 0,
         "F": rng.choice([3, 10]) if faults else 0, "O": 1 if faults else 0, "Y": rng.choice([0, 0, 2, 6]) if faults else 0, "x": 6 if "opt" in styles else 0, "tree": 3 if "link" in styles else 0}
    names = [k for k in W if W[k]]
    wts = [W[k] for k in names]
    okinds = [0, 0, 0, 1, 4, 5, 6, 7] if "opt" in styles else [0, 0, 0, 1]

    def alloc(s):
        k = rng.choice(okinds)
        kind[s] = k
        if rng.random() < 0.25:
            ops.append("z %d %d %d %d" % (s, rng.choice([1, 2, 3, 5]), rng.choice([8, 8, 24, 1]), k))
        else:
            ops.append("a %d %d %d" % (s, rng.choice(sizes), k))
    for _ in range(n):
        o = rng.choices(names, wts)[0]
        s, t = S(), S()
        if o in ("a", "z"):
            alloc(s)
        elif o == "G":
            kind[s] = 1
            ops.append("a %d %d %d" % (s, rng.choice([1 << 20, 3 << 20, 700000]), rng.choice([0, 1, 1])))
            kind[s] = None
        elif o == "w":
            ops.append("w %d %d %d" % (s, rng.choice([0, 0, 0, 1, 2, 3, 7]), t))
        elif o == "x":
            ops.append("x %d %d %d" % (s, rng.choice([0, 1, 2, 3]), t))
        elif o == "o":
            ops.append("o %d %d %d %d" % (s, rng.choice([0, 1, 2]), t, rng.choice([1, 8, -8, 16, -16, -48])))
        elif o == "tree":
            # a ring or a shared structure
            alloc(s)
            for j in range(rng.choice([2, 4, 8])):
                u = S()
                alloc(u)
                ops.append("w %d %d %d" % (u, rng.choice([0, 1]), s))
                ops.append("w %d %d %d" % (s, rng.choice([0, 1, 2]), u))
                ops.append("y %d %d" % (s, u))
                kind[s] = kind.get(u)
        elif o == "y":
            ops.append("y %d %d" % (s, t))
            kind[s] = kind.get(t)
        elif o == "k":
            ops.append("k %d" % s)
            kind[s] = None
        elif o == "m":
            ops.append("m %d %d %d" % (s, t, rng.choice([0, 0, 1, 2])))
            kind[s] = None
        elif o == "c":
            ops.append("c %d" % rng.randrange(20))
        elif o == "C":
            ops.append("C")
        elif o == "v":
            ops.append("V")
        elif o == "R":
            ops.append("R %d" % s)
        elif o == "f":
            ops.append("f %d" % s)
            if rng.random() < 0.7:
                ops.append("k %d" % s)
            kind[s] = None
        elif o == "g":
            ops.append("g %d" % s)
        elif o == "r":
            # the block's own kind, or an explicit one
            ops.append("r %d %d %d" % (s, rng.choice([0, 1, 8, 16, 20, 24, 40, 200, 1000]), rng.choice(okinds)))
        elif o == "D":
            ops.append("D %d %d" % (s, rng.choice([1, 1, 1, 0])))
        elif o == "K":
            ops.append("K %d %d" % (s, rng.choice([1, 5, 6, 0])))
        elif o == "P":
            ops.append(rng.choice("PU"))
        elif o == "q":
            ops.append("q")
        elif o == "B":
            n = rng.choice([10, 100, 300] if place == 1 else [10, 100, 500, 500, 2000, 7000, 14000])
            if place != 1 and rng.random() < 0.06:
                n = rng.choice([26000, 51000])
            if n > 1000:
                large += 1
                n = n if large == 1 else 100
            ops.append("B %d %d %d %d" % (s, n, rng.choice([8, 16, 24]), 0))
        elif o == "h":
            ops.append("h %d %d %d" % (rng.randrange(5), s, t))
        elif o == "F":
            ops.append("F %d %d" % (rng.choice([0, 0, 0, 1, 2, 5, 20]), rng.choice([1, 1, 2, 2, 3, 4, 30])))
        elif o == "Y":
            ops.append("Y %d" % rng.choice([-1, 0, 100, 500, 2000, 20000]))
        elif o == "O":
            ops.append(rng.choice(["z %d 2305843009213693953 16 0", "z %d 4294967297 4294967296 0", "a %d -1 0", "a %d -20 1", "z %d 1152921504606846976 17 1", "r %d -8 0"]) % s)
    if rng.random() < 0.8:
        ops += ["C", "V", "q"]
    ops.append("Z")
    return ops

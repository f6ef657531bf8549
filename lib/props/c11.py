"""C11: the reader and the writer are inverse; reading is exact, incremental and never breaks the process."""
import random

import engine
from script import HEAD, op, parse_log, sstr, unstr

ID = "C11"
TITLE = "Reading gives exactly the data written, from any source and in any pieces"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 500, 100000
RULE = ("seeded data (nested lists, vectors, boxes, strings with every escape, characters, numbers, long tokens, deep nesting) laid out with seeded spacing, comments, brackets and abbreviations, read from files, string ports and "
        "standard input in seeded pieces with read faults; damaged texts of the same kind; every datum is compared with the one intended, its written form with an independent printer, and read again; non-trivial: at least 4 compound data")
REAL, STUB = engine.REAL_CORE, engine.STUB_CORE
ASSUMPTIONS = ["symbols written have plain spellings", "strings have no NUL characters"]
LISTS = ("items", "faults")
PRE = r"""
(define-values (P) (make-vector 40 #f))
(define-values (LAST) (make-vector 1 #f))
(define-values (rd1) (lambda (p) (let-values ([(d) (read p)]) (let-values ([(d) (if (syntax? d) (syntax->datum d) d)]) (begin (vector-set! LAST 0 d) d)))))
(define-values (wr) (lambda (x) (let-values ([(p) (open-output-string)]) (begin (write x p) (get-output-string p)))))
(define-values (again) (lambda (x) (let-values ([(p) (open-input-string (wr x))]) (let-values ([(y) (let-values ([(d) (read p)]) (if (syntax? d) (syntax->datum d) d))]) (if (equal? x y) (eof-object? (read p)) 'different)))))
(define-values (rest) (lambda (p acc) (let-values ([(c) (read-char p)]) (if (eof-object? c) (list->string (reverse acc)) (rest p (cons c acc))))))
"""
NAMED = {7: "alarm", 8: "backspace", 127: "delete", 27: "esc", 10: "newline", 0: "nul", 12: "page", 13: "return", 32: "space", 9: "tab", 11: "vtab"}
ESC = {7: "a", 8: "b", 10: "n", 12: "f", 13: "r", 9: "t", 11: "v", 34: '"', 92: "\\"}
SYMS = ["a", "b", "foo", "list->vector", "x1", "+", "-", "...", "a.b", "->x", "+a", "-b", "1+", "12ab", "-1x", "set!", "a'b", "a#b", "#%app", "t|u", "$x", "a\xe9", "*", "<=?", "quote", "1.5", "0x1", ".a"]


def datum(rng, d, long_tokens=True):
    r = rng.random()
    if d <= 0 or r < 0.45:
        r = rng.random()
        if r < 0.25:
            if rng.random() < 0.3:
                return rng.choice([1, -1]) * min(2 ** 63 - 1, max(0, (1 << rng.randrange(64)) + rng.choice([-1, 0, 1, rng.getrandbits(60)])))
            return rng.choice([0, 1, -1, 5, -7, 42, 1000000, 2 ** 31, -2 ** 31, 2 ** 40, -(2 ** 45), 2 ** 61, rng.randrange(-10 ** 9, 10 ** 9)])
        if r < 0.45:
            if rng.random() < 0.3:
                return ["s", symbol(rng)]
            return ["s", rng.choice(SYMS) if rng.random() < 0.9 else rng.choice("abz") * rng.choice([100, 4000, 4094, 4095])]
        if r < 0.65:
            n = rng.choice([0, 1, 3, 8, 30]) if rng.random() < 0.93 else rng.choice([1000, 4000, 4095])
            return ["str", "".join(chr(rng.choice([7, 8, 9, 10, 11, 12, 13, 27, 32, 34, 39, 40, 41, 59, 92, 35, 124, 65, 97, 110, 116, 126, 127, 128, 233, 255])) if rng.random() < 0.4 else rng.choice("abcdef ") for _ in range(n))]
        if r < 0.82:
            return ["c", rng.choice(list(NAMED) + [97, 98, 100, 101, 108, 110, 112, 114, 115, 116, 118, 120, 40, 41, 34, 39, 59, 35, 92, 48, 65, 126, 233, 255, 1])]
        return rng.choice([True, False, ["l", [], None], ["v", []]])
    n = rng.choice([1, 1, 2, 3, 5])
    xs = [datum(rng, d - 1) for _ in range(n)]
    if r < 0.75:
        tail = None
        if rng.random() < 0.25:
            tail = datum(rng, 0)
            if tail == ["l", [], None]:
                tail = None
        return ["l", xs, tail]
    if r < 0.85:
        return ["v", xs]
    if r < 0.93:
        return ["l", [["s", rng.choice(["quote", "quote", "quote-syntax"])], xs[0]], None]
    return ["b", xs[0]]


def show(x):
    """the written form"""
    if x is True or x is False:
        return "#t" if x else "#f"
    if isinstance(x, int):
        return str(x)
    k = x[0]
    if k == "s":
        return x[1]
    if k == "str":
        return '"' + "".join("\\" + ESC[ord(c)] if ord(c) in ESC else c for c in x[1]) + '"'
    if k == "c":
        return "#\\" + NAMED.get(x[1], chr(x[1]))
    if k == "l":
        if not x[1]:
            return "()"
        items, tail = x[1], x[2]
        return "(" + " ".join(show(y) for y in items) + (" . " + show(tail) if tail is not None else "") + ")"
    if k == "v":
        return "#(" + " ".join(show(y) for y in x[1]) + ")"
    return "#&" + show(x[1])


def block(rng):
    """a block comment with a random body, closed where its nesting ends"""
    body = "".join(rng.choice('##||||;") (\n\\a') for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20])))
    level, i = 1, 0
    while i < len(body) and level:
        two = body[i:i + 2]
        if two == "#|":
            level, i = level + 1, i + 2
        elif two == "|#":
            level, i = level - 1, i + 2
        else:
            i += 1
    if not level:
        return " #|" + body[:i]
    # a last # or | could start a mark with what closes the comment
    return " #|" + body + " " + "|#" * level


def symbol(rng):
    """a symbol made of random characters"""
    while True:
        s = "".join(rng.choice("abz019+-.*/<=>!?$%&:^_~@|'#\\`,") for _ in range(rng.choice([1, 2, 3, 5, 8, 17, 30, 70])))
        if rng.random() < 0.3:
            s = rng.choice("+-1 9").strip() + "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 2, 9, 10, 18, 19, 20, 21, 40]))) + rng.choice("ax+-.")
        if s[0] in "#'." or s.lstrip("+-").isdigit() and len(s) - len(s.lstrip("+-")) <= 1:
            continue
        return s


def sep(rng):
    r = rng.random()
    if r < 0.03:
        return block(rng)
    if r < 0.05:
        return " #;" + lay(rng, datum(rng, 2), 0.3) + " "
    if r < 0.7:
        return rng.choice([" ", " ", " ", "\n", "\t", "  ", "\r\n", "\f", "\v"])
    return rng.choice(["; c ) \" #| x\n", ";\n", " #| b |#", "\n#| a #| n |# ; |# ", " #||#", " #|||#", " #;(x . y)", " #;a ", " #;#;1 2 ", " #;\"s)\"", "\n;; #\n;;\n", " #;#(1 2)", "; a\r(b\n", ";\t\x0b\x0c\r)\r\r\n", " \r\n", "\x0b\x0c", ";" + "x" * 5000 + "\n", " #|\n;|\r#|\x80|#\n|# "])


def lay(rng, x, noise):
    """x as text, laid out at random"""
    s = lambda: sep(rng) if rng.random() < noise else " "
    o = lambda: sep(rng) if rng.random() < noise / 2 else ""
    if x is True or x is False:
        return "#t" if x else "#f"
    if isinstance(x, int):
        r = rng.random()
        if r < 0.2:
            h = "%x" % abs(x)
            return "#x" + ("-" if x < 0 else rng.choice(["", "", "+"])) + (h.upper() if rng.random() < 0.5 else h)
        if r < 0.35 and x >= 0:
            return "+%d" % x
        if r < 0.45:
            return ("-" if x < 0 else "") + "00%d" % abs(x)
        return str(x)
    k = x[0]
    if k == "s":
        return x[1]
    if k == "str":
        out = []
        for c in x[1]:
            n = ord(c)
            if n in (34, 92) or (n in ESC and rng.random() < 0.7):
                out.append("\\" + ESC[n])
            elif n == 39 and rng.random() < 0.5:
                out.append("\\'")
            else:
                out.append(c)
        return '"' + "".join(out) + '"'
    if k == "c":
        return "#\\" + ("linefeed" if x[1] == 10 and rng.random() < 0.3 else NAMED.get(x[1], chr(x[1])))
    if k in "lv":
        p = "()" if k == "v" else rng.choice(["()", "()", "[]", "{}"])
        if k == "l" and len(x[1]) == 2 and x[2] is None and x[1][0] in (["s", "quote"], ["s", "quote-syntax"]) and rng.random() < 0.7:
            return ("'" if x[1][0][1] == "quote" else "#'") + o() + lay(rng, x[1][1], noise)
        out = ("#" if k == "v" else "") + p[0] + o()
        for i, y in enumerate(x[1]):
            t = lay(rng, y, noise)
            if i:
                # brackets and strings need no space around them
                prev = x[1][i - 1]
                if isinstance(prev, list) and prev[0] in ("l", "v", "str") and prev != ["l", [], None] and out[-1] in ")]}\"" and rng.random() < 0.3:
                    out += o()
                else:
                    out += s()
            out += t
        if k == "l" and x[2] is not None:
            out += s() + "." + rng.choice([" ", "\n", " "]) + o() + lay(rng, x[2], noise)
        return out + o() + p[1]
    return "#&" + o() + lay(rng, x[1], noise)


def deep(rng):
    n = rng.choice([100, 600, 1500])
    x = rng.choice([0, ["s", "z"]])
    for _ in range(n):
        x = ["l", [x], None] if rng.random() < 0.7 else ["v", [x]]
    return x


def layp(x):
    return show(x)


def damage(rng, t):
    t = list(t)
    for _ in range(rng.choice([1, 1, 2, 5])):
        if not t:
            break
        k = rng.randrange(len(t))
        r = rng.random()
        if r < 0.25:
            del t[k]
        elif r < 0.45:
            t.insert(k, rng.choice("()[]{}\"';#\\|.x1- \n&%,`\x80"))
        elif r < 0.6:
            t[k] = rng.choice("()[]\"'#\\|. tx&")
        elif r < 0.75:
            del t[k:]
        elif r < 0.85:
            j = rng.randrange(len(t))
            t[k:k] = t[j:j + rng.choice([3, 10, 40])]
        else:
            t[k:k] = list(rng.choice(["#\\newlin", "#<", "#(", "(a . b c)", "( . a)", "(a . )", "#xz", "#x", "#|", "#;", "\\", "\"\\q\"", "'", "#'", "#&", "a" * 5000, "9" * 5000, "\"" + "s" * 5000 + "\"", "99999999999999999999", "#\\", "[1)", "(1]", "#%", "#"]))
    return "".join(c for c in t if c != "\0")


def gen(rng, tier, i):
    items, faults = [], []
    noise = rng.choice([0, 0.2, 0.6])
    for j in range(rng.choice([1, 2, 4, 6])):
        src = rng.choice(["file", "file", "string", "stdin"])
        if any(x[0] == "stdin" for x in items) and src == "stdin":
            src = "file"
        data = [datum(rng, rng.choice([0, 1, 2, 4])) for _ in range(rng.choice([0, 1, 3, 6]))]
        if rng.random() < 0.05:
            data.append(deep(rng))
        r = rng.random()
        if r < 0.55:
            items.append([src, "ok", rng.randrange(1 << 30), noise, data])
        elif r < 0.7:
            items.append([src, "rest", rng.randrange(1 << 30), noise, [datum(rng, rng.choice([0, 0, 1, 2]))]])
        else:
            items.append(["file" if src == "stdin" else src, "mut", rng.randrange(1 << 30), noise, data])
    cfg = engine.rand_cfg(rng, 60000, heavy=0.04)
    if rng.random() < 0.5:
        cfg["chunk"] = rng.choice([1, 2, 3, 7, 20, 100])
    if rng.random() < 0.5:
        cfg["fbuf"] = rng.choice(["n", "f 16", "f 256", "l"])
    fs = [j for j, x in enumerate(items) if x[0] == "file" and x[1] == "ok" and x[4]]
    if fs and rng.random() < 0.35:
        j = rng.choice(fs)
        items[j][1] = "fault"
        items = items[:j + 1]
        cfg.setdefault("chunk", rng.choice([1, 3, 10, 40]))
        faults.append(["read:file@/w/t%d" % j, rng.choice([1, 1, 2, rng.randrange(1, 30)]), 5, 0, 0, 0])
    return {"items": items, "faults": faults, "cfg": cfg}


def text_of(it):
    """-> text, what follows the datum"""
    src, kind, seed, noise, data = it
    rng = random.Random(seed)
    out, rest = "", ""
    if kind == "rest":
        rest = rng.choice(["(", ")", " ", "\n", ";", '"', "]", "{"]) + "".join(rng.choice("ab() \n;\"#'1") for _ in range(rng.choice([0, 1, 5])))
        return "".join(lay(rng, x, noise) for x in data) + rest, rest
    for x in data:
        out += (sep(rng) if rng.random() < noise else rng.choice(["\n", " "])) + (lay(rng, x, noise) if len(str(x)) <= 3000 else show(x))
    if kind == "mut":
        return damage(rng, out or "(a b)"), ""
    return out + rng.choice(["", "\n", " ", "; end", " #| e |#", ";"]), ""


def simplify(case):
    for j, it in enumerate(case["items"]):
        def put(data=None, noise=None):
            items = list(case["items"])
            items[j] = [it[0], it[1], it[2], it[3] if noise is None else noise, it[4] if data is None else data]
            return dict(case, items=items)
        if it[3]:
            yield put(noise=0)
        if it[1] == "rest":
            for y in smaller(it[4][0]):
                yield put(data=[y])
            continue
        for k in range(len(it[4])):
            yield put(data=it[4][:k] + it[4][k + 1:])
            for y in smaller(it[4][k]):
                yield put(data=it[4][:k] + [y] + it[4][k + 1:])


def smaller(x):
    if not isinstance(x, list):
        return
    if x[0] == "str" and x[1]:
        h = len(x[1]) // 2
        yield ["str", x[1][:h]]
        yield ["str", x[1][h:]] if h else ["str", ""]
    elif x[0] == "b":
        yield x[1]
        for y in smaller(x[1]):
            yield ["b", y]
    elif x[0] in "lv" and x[1]:
        for y in x[1]:
            yield y
        for k in range(len(x[1])):
            rest = x[1][:k] + x[1][k + 1:]
            if rest or x[0] == "v" or x[2] is None:
                yield [x[0], rest] + x[2:]
            for y in smaller(x[1][k]):
                yield [x[0], x[1][:k] + [y] + x[1][k + 1:]] + x[2:]


def build(case):
    L, exp, files, stdin = [HEAD, PRE], [], {}, None
    comp = 0

    def out(i, text, want, ret="v"):
        L.append(op(i, text, ret))
        exp.append((i, want))
    for j, it in enumerate(case["items"]):
        src, kind, _, _, data = it
        text, after = text_of(it)
        b = j * 1000
        if src == "file":
            files["/w/t%d" % j] = text
            o = '(open-input-file "/w/t%d")' % j
        elif src == "string":
            o = "(open-input-string %s)" % sstr(text)
        else:
            stdin = text
            o = "(current-input-port)"
        p = "(vector-ref P %d)" % j
        L.append("(vector-set! P %d %s)" % (j, o))
        comp += sum(isinstance(x, list) and x[0] in "lvb" and x != ["l", [], None] for x in data)
        if kind == "mut":
            # the same text from a string port: same data, same outcome
            L.append("(vector-set! P %d (open-input-string %s))" % (j + 20, sstr(text)))
            for k in range(min(25, len(text) // 2 + 2)):
                L.append(op(b + 2 * k, "(wr (rd1 %s))" % p))
                L.append(op(b + 2 * k + 1, "(wr (rd1 (vector-ref P %d)))" % (j + 20)))
            exp.append((b, ("same", min(25, len(text) // 2 + 2))))
        else:
            for k, x in enumerate(data):
                out(b + 2 * k, "(wr (rd1 %s))" % p, ("data", show(x)) if kind != "fault" else ("maybe", show(x)))
                if kind != "fault":
                    out(b + 2 * k + 1, "(again (vector-ref LAST 0))", ("is", "#t"))
            if kind == "rest":
                out(b + 900, "(rest %s '())" % p, ("text", after))
            else:
                out(b + 900, "(eof-object? (rd1 %s))" % p, ("is" if kind == "ok" else "end", "#t"))
        if src != "stdin":
            L.append("(close-input-port %s)" % p)
    return "\n".join(L) + "\n", exp, files, stdin, comp


def judge(case, run, info):
    text, exp, files, stdin, comp = build(case)
    info["nontrivial"] = comp >= 4
    c = dict(case["cfg"], files=dict(files, **{"/w/prog.min": text}), faults=case["faults"])
    if stdin is not None:
        c["stdin"] = stdin
    r = run.run("nolib", c)
    if r["end"] != "exit":
        return []
    done, rest = parse_log(r["stderr"])
    fired = bool(r["fired"])
    stop = None     # the item in which the fault struck
    for i, (kind, want) in exp:
        j = i // 1000
        it = case["items"][j]
        what = "item %d (%s %s) datum %d" % (j, it[0], it[1], i % 1000 // 2)
        if kind == "same":
            for k in range(want):
                a, b = done.get(i + 2 * k), done.get(i + 2 * k + 1)
                if a is None or b is None:
                    return [("not-run", "%s: reading %d never reported (code %s, stderr tail %r)" % (what, k, r["code"], r["stderr"][-300:]))]
                if a[0] == "E" or b[0] == "E":
                    if a[0] != b[0]:
                        return [("sources", "%s: reading %d of %r gave %r from a file and %r from a string" % (what, k, text_of(it)[0][:200], a, b))]
                    break
                if a != b:
                    return [("sources", "%s: reading %d of %r gave %r from a file and %r from a string" % (what, k, text_of(it)[0][:200], a, b))]
                if a[1] == '"#<eof>"':
                    break
            continue
        res = done.get(i)
        if res is None:
            return [("not-run", "%s never reported (code %s, stderr tail %r)" % (what, r["code"], r["stderr"][-300:]))]
        if kind in ("maybe", "end"):
            if stop == j:
                continue
            if res[0] == "E" and fired:
                stop = j
                continue
        if kind in ("data", "maybe", "text"):
            got = unstr(res[1]) if res[0] == "V" else None
            if got != want:
                return [("value", "%s of %r gave %r, expected %r" % (what, text_of(it)[0][:300], (res[0], (got if got is not None else res[1])[:300]), want[:300]))]
        elif kind == "end":
            if fired:
                return [("silent", "%s: a read error was taken for the end of input" % what)]
            if res != ("V", want):
                return [("value", "%s of %r gave %r, expected %r" % (what, text_of(it)[0][:300], res, want))]
        elif res != ("V", want):
            return [("value", "%s of %r gave %r, expected %r" % (what, text_of(it)[0][:300], res, want))]
    if rest.strip() or r["code"] != 0:
        return [("messages", "unexpected messages %r, exit code %s" % (rest[:400], r["code"]))]
    return []

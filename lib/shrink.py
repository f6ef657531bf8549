"""S-expression shrinking for generated program text."""
import copy


def parse(t):
    i = 0
    out = []
    stack = [out]
    while i < len(t):
        c = t[i]
        if c in " \n\t":
            i += 1
        elif c in "([":
            n = [c]
            stack[-1].append(n)
            stack.append(n)
            i += 1
        elif c in ")]":
            stack.pop()
            i += 1
        elif c == '"':
            j = i + 1
            while t[j] != '"':
                j += 2 if t[j] == "\\" else 1
            stack[-1].append(t[i:j + 1])
            i = j + 1
        elif c == "'" or (c == "#" and t[i + 1] == "("):
            n = ["'" if c == "'" else "#"]
            # prefix token glued to the next datum
            stack[-1].append(c)
            i += 1
        elif c == "#" and t[i + 1] == "\\":
            j = i + 3
            while j < len(t) and t[j] not in " \n\t()[]\"';":
                j += 1
            stack[-1].append(t[i:j])
            i = j
        else:
            j = i
            while j < len(t) and t[j] not in " \n\t()[]\"'":
                j += 1
            stack[-1].append(t[i:j])
            i = j
    return out


def unparse(x):
    if isinstance(x, str):
        return x
    o, c = (("(", ")") if x[0] == "(" else ("[", "]"))
    parts = []
    glue = False
    for y in x[1:]:
        s = unparse(y)
        if glue:
            parts[-1] += s
        else:
            parts.append(s)
        glue = y in ("'", "#") if isinstance(y, str) else False
    return o + " ".join(parts) + c


def variants(x):
    """smaller versions of one parsed form"""
    if isinstance(x, str):
        return
    kids = x[1:]
    for k in kids:
        if isinstance(k, list):
            yield k
    for lit in ("0", "#f", "'()"):
        if len(kids) > 1:
            yield lit
    for i in range(len(kids)):
        for v in variants(kids[i]):
            y = x[:]
            y[i + 1] = v
            yield y
    if len(kids) > 2:
        for i in range(len(kids)):
            yield x[:i + 1] + x[i + 2:]


def items(case, key):
    its = case[key]
    for i, t in enumerate(its):
        try:
            p = parse(t)
        except IndexError:
            continue
        if len(p) != 1:
            continue
        for v in variants(p[0]):
            s = unparse(v)
            if len(s) < len(t):
                c = dict(case)
                c[key] = its[:i] + [s] + its[i + 1:]
                yield c

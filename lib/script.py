"""Programs made of numbered operations. Every operation runs under an installed
error handler and reports its outcome on the (unbuffered) error stream, so the
history survives a crash at any point."""

HEAD = r"""
(define-values (ERR) #f)
(define-values (try) (lambda (thunk) (thunk)))
(define-values (failed) 'failed)
(define-values (on-error) (lambda (e) (set! ERR e) failed))
(define-values (report)
  (lambda (i v)
    (if ERR
        (fprintf (current-error-port) "\n~a E ~s\n" i (if (exn? ERR) (exn-message ERR) ERR))
        (fprintf (current-error-port) "\n~a V ~s\n" i v))
    (set! ERR #f)))
(current-error-handler on-error)
"""

ORIG = "(define-values (default-handler) (current-error-handler))\n"


def op(i, expr, ret=None):
    """runs expr as operation i; ret is an expression over v that is reported"""
    return "(let-values ([(v) (try (lambda () %s))]) (report %d %s))" % (expr, i, ret or "v")


def sstr(s, lim=1500):
    """Scheme expression for a string: a literal, or pieces of literals (the reader bounds a token)"""
    if len(s) > lim:
        return "(string-append %s)" % " ".join(sstr(s[k:k + lim]) for k in range(0, len(s), lim))
    return lit(s)


def lit(s):
    out = ['"']
    for ch in s:
        if ch == '"' or ch == "\\":
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\t":
            out.append("\\t")
        elif ch == "\r":
            out.append("\\r")
        else:
            out.append(ch)
    return "".join(out) + '"'


def schar(c):
    return {"\n": "#\\newline", " ": "#\\space", "\t": "#\\tab", "\r": "#\\return"}.get(c, "#\\" + c)


def unstr(t):
    """value of a written string literal"""
    if len(t) < 2 or t[0] != '"' or t[-1] != '"':
        return None
    out, i = [], 1
    esc = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v"}
    while i < len(t) - 1:
        if t[i] == "\\":
            i += 1
            out.append(esc.get(t[i], t[i]))
        else:
            out.append(t[i])
        i += 1
    return "".join(out)


def parse_log(err):
    """-> ({i: ('V'|'E', text)}, rest) from the error stream"""
    done, rest = {}, []
    lines = err.decode("latin-1").split("\n")
    for n, line in enumerate(lines):
        p = line.split(" ", 2)
        if n == len(lines) - 1:
            rest.append(line)       # unterminated: a crash may have cut it short
        elif len(p) == 3 and p[0].isdigit() and p[1] in ("V", "E"):
            done[int(p[0])] = (p[1], p[2])
        elif line:
            rest.append(line)
    return done, "\n".join(rest)

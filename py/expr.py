"""The expressions of boundary conditions: what they mean, and random ones.

value(text, x, t) gives (value, err): the ordinary mathematical value with the
usual precedence, computed by a parser of our own, and a first-order bound for
the rounding errors any order of evaluation may make (inf where a comparison or
a rounding function stands so close to its jump that either side is right).
"""
import functools, math, re

EPS = 2.0 ** -52
TOK = re.compile(r"\s*(\d+\.?\d*(?:e[-+]?\d+)?|\.\d+(?:e[-+]?\d+)?|[a-z]\w*|>=|<=|==|[-+*/^()?:<>&|!])", re.I)
CONST = {"e": math.e, "pi": math.pi, "tau": 2 * math.pi}


def _cbrt(a):
    return math.copysign(abs(a) ** (1.0 / 3.0), a)


def _round(a):
    return math.copysign(math.floor(abs(a) + 0.5), a)


FUN = {  # value, size of the derivative
    "sin": (math.sin, lambda a: abs(math.cos(a))), "cos": (math.cos, lambda a: abs(math.sin(a))),
    "tan": (math.tan, lambda a: 1 + math.tan(a) ** 2), "erf": (math.erf, lambda a: 1.13 * math.exp(-a * a)),
    "erfc": (math.erfc, lambda a: 1.13 * math.exp(-a * a)), "exp": (math.exp, math.exp),
    "log": (math.log, lambda a: 1 / a), "log10": (math.log10, lambda a: 0.44 / a), "abs": (abs, lambda a: 1.0),
    "asin": (math.asin, lambda a: 1 / math.sqrt(max(1e-8, 1 - a * a))), "acos": (math.acos, lambda a: 1 / math.sqrt(max(1e-8, 1 - a * a))),
    "atan": (math.atan, lambda a: 1.0), "sqrt": (math.sqrt, lambda a: 0.5 / math.sqrt(max(a, 1e-30))),
    "cbrt": (_cbrt, lambda a: 0.34 / max(abs(a), 1e-30) ** (2.0 / 3.0)),
    "ceil": (math.ceil, None), "floor": (math.floor, None), "round": (_round, None)}


class Bad(Exception):
    pass


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Bad("cannot read %r at %d" % (s, i))
        out.append(m.group(1).lower())
        i = m.end()
    return out


class Parser:
    def __init__(self, text):
        self.t = tokens(text) + [""]
        self.i = 0

    def eat(self, *what):
        if self.t[self.i] in what and self.t[self.i]:
            self.i += 1
            return self.t[self.i - 1]
        return None

    def need(self, w):
        if not self.eat(w):
            raise Bad("%r expected at %r" % (w, self.t[self.i:]))

    def all(self):
        r = self.cond()
        if self.t[self.i]:
            raise Bad("left over %r" % self.t[self.i:])
        return r

    def cond(self):
        a = self.disj()
        if self.eat("?"):
            b = self.cond()
            self.need(":")
            return ("?", a, b, self.cond())
        return a

    def disj(self):
        a = self.conj()
        while self.eat("|"):
            a = ("|", a, self.conj())
        return a

    def conj(self):
        a = self.comp()
        while self.eat("&"):
            a = ("&", a, self.comp())
        return a

    def comp(self):
        if self.eat("!"):
            return ("!", self.comp())
        a = self.sum()
        o = self.eat("<", ">", "<=", ">=", "==")
        return (o, a, self.sum()) if o else a

    def sum(self):
        a = self.prod()
        while True:
            o = self.eat("+", "-")
            if not o:
                return a
            a = (o, a, self.prod())

    def prod(self):
        a = self.unary()
        while True:
            o = self.eat("*", "/")
            if not o:
                return a
            a = (o, a, self.unary())

    def unary(self):
        if self.eat("-"):
            return ("neg", self.unary())
        a = self.atom()
        if self.eat("^"):
            return ("^", a, self.unary())
        return a

    def atom(self):
        w = self.t[self.i]
        self.i += 1
        if w == "(":
            a = self.cond()
            self.need(")")
            return a
        if w in FUN:
            self.need("(")
            a = self.cond()
            self.need(")")
            return ("f", w, a)
        if w in ("x", "y", "z", "t"):
            return ("v", w)
        if w in CONST:
            return ("c", CONST[w])
        if w and (w[0].isdigit() or w[0] == "."):
            return ("c", float(w))
        raise Bad("%r is not an operand" % w)


def near(d, e):
    """Whether a difference d is lost in errors of size e."""
    return e > 0 and abs(d) <= 1e3 * e


def comp(n):
    k = n[0]
    if k == "c":
        r = (n[1], 0.0)
        return lambda q: r
    if k == "v":
        i = "xyzt".index(n[1])
        if i == 3:
            return lambda q: (q[3], 64 * EPS * abs(q[3]))       # the time is a running sum
        return lambda q: (q[i], 0.0)
    if k == "neg":
        a = comp(n[1])
        def f(q):
            v, e = a(q)
            return -v, e
        return f
    if k == "f":
        a, w = comp(n[2]), n[1]
        fn, der = FUN[w]
        if der is None:
            def f(q):
                v, e = a(q)
                r = float(fn(v))
                return r, (0.0 if e == 0 or fn(v - 1e3 * e) == fn(v + 1e3 * e) else math.inf)
        else:
            def f(q):
                v, e = a(q)
                if w == "sqrt" and -1e3 * e <= v <= 0 or w in ("asin", "acos") and 1 < abs(v) <= 1 + 1e3 * e:
                    return 0.0, math.inf
                r = fn(v)
                return r, der(v) * e + 4 * EPS * abs(r)
        return f
    if k == "?":
        c, a, b = comp(n[1]), comp(n[2]), comp(n[3])
        def f(q):
            w, e = c(q)
            v = (a if w else b)(q)
            return v if e == 0 else (v[0], max(v[1], abs(v[0] - (b if w else a)(q)[0])))
        return f
    if k == "!":
        a = comp(n[1])
        def f(q):
            v, e = a(q)
            return not v, e
        return f
    a, b = comp(n[1]), comp(n[2])
    if k in ("|", "&"):
        def f(q):
            (v, e), (w, g) = a(q), b(q)
            r = (v or w) if k == "|" else (v and w)
            return r, e + g
        return f
    if k in ("<", ">", "<=", ">=", "=="):
        op = {"<": lambda v, w: v < w, ">": lambda v, w: v > w, "<=": lambda v, w: v <= w, ">=": lambda v, w: v >= w, "==": lambda v, w: v == w}[k]
        def f(q):
            (v, e), (w, g) = a(q), b(q)
            return op(v, w), (1.0 if near(v - w, e + g) else 0.0)
        return f
    if k == "+":
        def f(q):
            (v, e), (w, g) = a(q), b(q)
            return v + w, e + g + EPS * (abs(v) + abs(w))
    elif k == "-":
        def f(q):
            (v, e), (w, g) = a(q), b(q)
            return v - w, e + g + EPS * (abs(v) + abs(w))
    elif k == "*":
        def f(q):
            (v, e), (w, g) = a(q), b(q)
            return v * w, e * abs(w) + g * abs(v) + EPS * abs(v * w)
    elif k == "/":
        def f(q):
            (v, e), (w, g) = a(q), b(q)
            r = v / w
            return r, (e + abs(r) * g) / abs(w) + EPS * abs(r)
    elif k == "^":
        def f(q):
            (v, e), (w, g) = a(q), b(q)
            r = v ** w
            return r, (abs(w * r / v) * e if v else e) + (abs(r * math.log(abs(v))) * g if v else 0.0) + 4 * EPS * abs(r)
    else:
        raise Bad(k)
    return f


@functools.lru_cache(maxsize=None)
def compiled(text):
    return comp(Parser(text).all())


def value(val, x, t):
    if not isinstance(val, str):
        return float(val), 0.0
    return compiled(val)((float(x[0]), float(x[1]), float(x[2]), float(t)))


# ------------------------------------------------------------------ random expressions

def lit(rng, v):
    """One of the ways to write a positive number."""
    s = "%.5g" % v
    f = float(s)
    p = "%.*f" % (max(1, 5 - int(math.floor(math.log10(f)))), f)
    k = rng.random()
    if k < 0.5:
        return p
    m, e = ("%.4e" % f).split("e")
    m = m.rstrip("0")
    e = int(e)
    if k < 0.8:
        return "%s%s%d" % (m if rng.random() < 0.7 else m + "0", rng.choice("eeE"), e)
    if e >= 0:
        return "%se+%d" % (m, e)
    return "%se%d" % (m, e)


class Gen:
    """Expressions of magnitude about one over a body of size L and times t0..t0+T."""

    def __init__(self, rng, L, t0, T, dt, time):
        self.r, self.L, self.t0, self.T, self.dt, self.time = rng, L, t0, T, dt, time

    def num(self, lo, hi):
        return lit(self.r, self.r.uniform(lo, hi))

    def base(self):
        r = self.r
        k = r.random()
        if self.time and k < 0.4:
            return self.clock()
        v = r.choice("xyzzy")
        f = r.choice(["%s/%s", "%s*%s"])
        return f % (v, lit(r, self.L * r.uniform(1, 2) if "/" in f else r.uniform(0.4, 1) / self.L))

    def clock(self):
        r = self.r
        if self.t0 == 0 and r.random() < 0.7:
            return r.choice(["t/%s" % lit(r, self.T), "t*%s" % lit(r, 1 / self.T)])
        return "(t-%s)/%s" % (lit(r, self.t0) if self.t0 else "0.0", lit(r, self.T))

    def step(self):
        """A moment between two steps of the run, as a number."""
        k = self.r.randint(0, max(0, int(round(self.T / self.dt)) - 1))
        return "%.12f" % (self.t0 + (k + 0.37) * self.dt) if self.dt > 1e-5 else "%.12e" % (self.t0 + (k + 0.37) * self.dt)

    def blank(self, s):
        r = self.r
        if r.random() < 0.6:
            return s
        out, t = "", tokens(s)
        for i, w in enumerate(t):
            b = r.choice(["", "", " ", "  "])
            if i and t[i - 1] in FUN:
                b = ""                                   # a function and its parenthesis stay together
            out += b + w
        return out

    def term(self, d=0):
        """A factor-like piece: usable on either side of any operator."""
        r = self.r
        k = r.randrange(17)
        b = "(" + self.sum(d + 1) + ")" if d < 2 and r.random() < 0.4 else "(" + self.base() + ")"
        if k == 0:
            return "sin%s" % b
        if k == 1:
            return "cos%s" % b
        if k == 2:
            return "atan%s" % b
        if k == 3:
            return "erf%s" % b
        if k == 4:
            return "exp(-%s^2)" % b
        if k == 5:
            return "sqrt(1+%s^2)" % b
        if k == 6:
            return "log(%s+%s^2)" % (self.num(1.5, 3), b)
        if k == 7:
            return "abs%s" % b
        if k == 8:
            return "(1.5+%s^2)^-%s" % (b, r.choice(["1", "2", "0.5", "(1)"]))
        if k == 9:
            return "cbrt(2+%s^2)" % b
        if k == 10:
            return r.choice(["pi", "e", "tau"]) + "/" + self.num(5, 9)
        if k == 11:
            return "%s^%s" % (b, r.choice(["2", "3"]))
        if k == 12:
            return self.num(0.1, 1.5)
        if k == 13 and self.time:
            return "(t%s%s ? %s : %s)" % (r.choice(["<", ">", "<=", ">="]), self.step(), self.sum(d + 1), self.num(0.1, 1))
        if k == 14:
            return "(%s%s%s?%s:%s)" % (r.choice("xyz"), r.choice(["<", ">", "<=", ">="]), self.num(-0.9 * self.L, 0.9 * self.L).replace("(", "") if False else lit(r, self.L * r.uniform(0.1, 1.5)), self.num(0.1, 1), self.base())
        if k == 15:
            return "%s(%s%s%s)" % (r.choice(["floor", "ceil", "round"]), r.choice("xyz"), "*", lit(r, 1.3137 / self.L))
        return b

    def prod(self, d=0):
        r = self.r
        s = r.choice(["", "", "", "-"]) + self.term(d)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            k = r.random()
            if k < 0.6:
                s += "*" + r.choice(["", "", "-"]) + self.term(d)
            elif k < 0.75:
                s += "/" + r.choice(["", "-"]) + self.num(1.1, 3)
            else:
                s += "*" + r.choice(["", "-"]) + self.num(0.3, 1.2)
        return s

    def sum(self, d=0):
        r = self.r
        s = self.prod(d)
        for _ in range(r.choice([0, 1, 1, 2, 3] if d == 0 else [0, 0, 1])):
            s += r.choice(["+", "-", "-", " - ", " + "]) + self.prod(d)
        return s

    def make(self, points, times, scale):
        """An expression of at most about the given scale at all the points and times."""
        for _ in range(60):
            s = self.sum()
            if self.r.random() < 0.12:
                s = "%s%s%s %s %s ? %s : %s" % (self.r.choice("xyz"), self.r.choice(["<", ">="]), lit(self.r, self.L * 0.7), self.r.choice("&|"), "y<=%s" % lit(self.r, self.L), s, self.prod())
            s = self.blank(s)
            try:
                f = compiled(s)
                w = [f((p[0], p[1], p[2], t)) for p in points for t in times]
            except (ArithmeticError, ValueError, OverflowError):
                continue
            big = max(abs(v) for v, e in w)
            if not (1e-3 < big < 50) or any(not e < 1e-10 * big for v, e in w):
                continue
            k = self.r.random()
            q = lit(self.r, scale / big)
            if "?" in s and s.count("(") == 0 or k < 0.5 or re.match(r"[xyz]\s*[<>]", s):
                out = self.r.choice(["%s*(%s)", "(%s * (%s))", "%s*( %s )"]) % (q, s)
            elif k < 0.75:
                out = "(%s)*%s" % (s, q)
            else:
                out = "-(%s)/%s" % (s, lit(self.r, big / scale))
            out = out if self.r.random() < 0.9 else out.upper()
            if all(e <= 1e-9 * scale for p in points for t in times for v, e in [compiled(out)((p[0], p[1], p[2], t))]):
                return out
        return lit(self.r, scale)

"""Canonical algebra for value-graph terms.

`Poly` is a Laurent polynomial with rational coefficients over atoms.  Atoms are
opaque keys: ('t', term), ('fn', name, key-of-argument), ('inv', key-of-poly).
Equality of two polynomials containing inverses is decided by clearing the
denominators.  The domain is exact: equal normal forms mean equal formulas.
"""
from fractions import Fraction
from vg import T, is_const

_ARG = {}      # key -> Poly  (arguments of function atoms, denominators)


def frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise ValueError("not finite")
        return Fraction(repr(v))
    return Fraction(v)


def _akey(a):
    return repr_key(a)


_RK = {}


def repr_key(a):
    r = _RK.get(a)
    if r is None:
        r = _RK[a] = (a[0],) + tuple(("#%d" % x.id) if isinstance(x, T) else repr(x)
                                     for x in a[1:])
    return r


class Poly:
    __slots__ = ("d", "_k")

    def __init__(self, d=None):
        self.d = {m: c for m, c in (d or {}).items() if c != 0}
        self._k = None

    @staticmethod
    def const(v):
        return Poly({(): frac(v)})

    @staticmethod
    def atom(a, e=1):
        return Poly({((a, Fraction(e)),): Fraction(1)})

    @staticmethod
    def sym(name):
        return Poly.atom(("s", name))

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(((tuple((repr_key(a), e) for a, e in m), c)
                                    for m, c in self.d.items()), key=repr))
            self._k = ("K", hash(self._k), repr(self._k))
            _ARG[self._k] = self
        return self._k

    def is_const(self):
        return all(m == () for m in self.d)

    def value(self):
        return self.d.get((), Fraction(0)) if self.is_const() else None

    def __add__(self, o):
        o = lift(o)
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mulmono(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        return Poly(d)

    __rmul__ = __mul__

    def inverse(self):
        if not self.d:
            raise ZeroDivisionError
        if len(self.d) == 1:
            (m, c), = self.d.items()
            return Poly({tuple((a, -e) for a, e in m): 1 / c})
        # pull out content: common monomial and leading coefficient
        m0, c0, rest = self.primitive()
        return Poly({tuple((a, -e) for a, e in m0): 1 / c0}) * \
            Poly.atom(("inv", rest.key()))

    def primitive(self):
        """(monomial, coefficient, primitive part)."""
        common = None
        for m in self.d:
            dm = dict(m)
            if common is None:
                common = dm
            else:
                common = {a: min(common.get(a, 0), dm.get(a, 0))
                          for a in set(common) | set(dm)}
        common = {a: e for a, e in (common or {}).items() if e != 0}
        m0 = tuple(sorted(common.items(), key=lambda x: repr_key(x[0])))
        minv = tuple((a, -e) for a, e in m0)
        q = {mulmono(m, minv): c for m, c in self.d.items()}
        lead = min(q, key=lambda m: repr([(repr_key(a), e) for a, e in m]))
        c0 = q[lead]
        return m0, c0, Poly({m: c / c0 for m, c in q.items()})

    def __truediv__(self, o):
        return self * lift(o).inverse()

    def __rtruediv__(self, o):
        return lift(o) / self

    def __pow__(self, n):
        n = frac(n)
        if n.denominator == 1:
            n = int(n)
            if n >= 0:
                r = Poly.const(1)
                for _ in range(n):
                    r = r * self
                return r
            return (self.inverse()) ** (-n)
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1:
                return Poly({tuple((a, e * n) for a, e in m): Fraction(1)})
        return Poly.atom(("fn", "pow", self.key(), n))

    def atoms(self):
        out = set()
        for m in self.d:
            for a, _ in m:
                out.add(a)
        return out

    def deep_atoms(self, seen=None):
        out = set() if seen is None else seen
        for a in self.atoms():
            if a in out:
                continue
            out.add(a)
            for x in a[1:]:
                if isinstance(x, tuple) and x and x[0] == "K":
                    _ARG[x].deep_atoms(out)
        return out

    def fraction(self):
        """(numerator, denominator) without inverse atoms."""
        p, den = self, Poly.const(1)
        for _ in range(12):
            inv = [a for a in p.atoms() if a[0] == "inv"]
            if not inv:
                break
            a = inv[0]
            d = _ARG[a[1]]
            k = max(dict(m).get(a, 0) for m in p.d)
            if k.denominator != 1:
                break
            out = Poly()
            for m, c in p.d.items():
                dm = dict(m)
                e = dm.pop(a, 0)
                rest = Poly({tuple(sorted(dm.items(), key=lambda x: repr_key(x[0]))): c})
                out = out + rest * d ** (k - e)
            p, den = out, den * d ** k
        else:
            return self, Poly.const(1)
        return p, den

    def unsigned(self):
        """log(x) and log(-x) identified (log|x|)."""
        table = {}
        for a in self.atoms():
            if a[0] == "fn" and a[1] in ("log", "ldet"):
                x = _ARG[a[2]]
                if x.d and x.primitive()[1] < 0:
                    table[a] = Poly.atom(("fn", a[1], (-x).key()))
        if not table:
            return self
        out = Poly()
        for m, c in self.d.items():
            t = Poly.const(c)
            for a, e in m:
                t = t * table.get(a, Poly.atom(a)) ** e
            out = out + t
        return out

    def iszero(self):
        """Exact zero test, clearing inverse atoms."""
        p = self.unsigned()
        for _ in range(20):
            if not p.d:
                return True
            inv = [a for a in p.atoms() if a[0] == "inv"]
            if not inv:
                return False
            a = inv[0]
            den = _ARG[a[1]]
            k = max(dict(m).get(a, 0) for m in p.d)
            lo = min(dict(m).get(a, 0) for m in p.d)
            d = Poly()
            for m, c in p.d.items():
                dm = dict(m)
                e = dm.pop(a, 0)
                rest = Poly({tuple(sorted(dm.items(), key=lambda x: repr_key(x[0]))): c})
                d = d + rest * den ** (k - e)
            p = d
        return False

    def __eq__(self, o):
        if not isinstance(o, Poly):
            return NotImplemented
        return (self - o).iszero()

    def __hash__(self):
        return 0

    def subst(self, table):
        """Replace atoms by polynomials (recursively in function arguments)."""
        out = Poly()
        for m, c in self.d.items():
            t = Poly.const(c)
            for a, e in m:
                t = t * subst_atom(a, table) ** e
            out = out + t
        return out

    def diff(self, atom):
        out = Poly()
        for m, c in self.d.items():
            for i, (a, e) in enumerate(m):
                da = diff_atom(a, atom)
                if not da.d:
                    continue
                rest = Poly({tuple(x for j, x in enumerate(m) if j != i): c})
                out = out + rest * Poly({((a, e - 1),) if e != 1 else (): e}) * da
        return out

    def coeff(self, atom, e=1):
        """Coefficient polynomial of atom**e."""
        d = {}
        for m, c in self.d.items():
            dm = dict(m)
            if dm.get(atom, 0) == e:
                dm.pop(atom, None)
                d[tuple(sorted(dm.items(), key=lambda x: repr_key(x[0])))] = c
        return Poly(d)

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for m, c in sorted(self.d.items(), key=repr)[:14]:
            s = "" if c == 1 and m else str(c)
            for a, e in m:
                s += ("*" if s else "") + show_atom(a) + ("" if e == 1 else "^%s" % e)
            out.append(s)
        return " + ".join(out)


def show_atom(a):
    if a[0] == "t":
        return str(a[1])[:60]
    if a[0] == "s":
        return str(a[1])
    if a[0] == "fn":
        return "%s(%s)" % (a[1], ", ".join(str(_ARG[x])[:80] if isinstance(x, tuple) and x and
                                          x[0] == "K" else str(x) for x in a[2:]))
    if a[0] == "inv":
        return "1/(%s)" % str(_ARG[a[1]])[:80]
    return str(a)


def mulmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0),
                        key=lambda x: repr_key(x[0])))


def lift(x):
    return x if isinstance(x, Poly) else Poly.const(x)


def fn(name, *args):
    """Function application with the usual simplifications."""
    args = [lift(a) for a in args]
    a = args[0]
    if name == "log":
        # log|x|: signs are dropped, quotients and products are split
        v = a.value()
        if v is not None and abs(v) == 1:
            return Poly()
        num, den = a.fraction()
        if den.value() != 1:
            return fn("log", num) - fn("log", den)
        a = num
        if len(a.d) == 1:
            (m, c), = a.d.items()
            c = abs(c)
            out = Poly()
            if c != 1:
                for pr, e in factor(c):
                    out = out + Poly.atom(("fn", "log", Poly.const(pr).key())) * e
            for at, e in m:
                if at[0] == "fn" and at[1] == "exp":
                    out = out + _ARG[at[2]] * e
                else:
                    out = out + Poly.atom(("fn", "log", Poly.atom(at).key())) * e
            return out
        m0, c0, rest = a.primitive()
        if a.d and (m0 or abs(c0) != 1):
            return fn("log", Poly({m0: c0})) + fn("log", rest if c0 > 0 else -rest)
    if name == "exp":
        if not a.d:
            return Poly.const(1)
        # exp of sums of logs
        out = Poly.const(1)
        for m, c in a.d.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "fn" and m[0][0][1] == "log" \
                    and c.denominator in (1, 2):
                out = out * _ARG[m[0][0][2]] ** c
            else:
                # exp(c m) = exp(m)^c
                out = out * Poly.atom(("fn", "exp", Poly({m: Fraction(1)}).key()), c)
        return out
    if name == "ldet":
        # log-determinant of a matrix of dimension D: numeric factors scale with D
        if not a.d:
            raise ValueError("determinant of zero")
        m0, c0, rest = a.primitive()
        if c0 < 0:
            c0, rest = -c0, -rest
        out = Poly()
        if c0 != 1:
            out = out + Poly.sym("D") * fn("log", Poly.const(c0))
        if rest.is_const() and rest.value() == 1:
            return out + fn("log", Poly({m0: Fraction(1)}))
        return out + Poly.atom(("fn", "ldet", (Poly({m0: Fraction(1)}) * rest).key()))
    if name == "sqrt":
        return a ** Fraction(1, 2)
    if name == "square":
        return a * a
    if name == "abs":
        v = a.value()
        if v is not None:
            return Poly.const(abs(v))
        m0, c0, rest = a.primitive()
        if c0 < 0:
            return fn("abs", -a)
    if name == "gammaln":
        v = a.value()
        if v in (1, 2):
            return Poly()
    return Poly.atom(("fn", name) + tuple(x.key() for x in args))


def factor(c):
    """Prime factorisation of a positive rational."""
    out = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        f = 2
        while f * f <= n and f < 10000:
            while n % f == 0:
                out[f] = out.get(f, 0) + s
                n //= f
            f += 1
        if n > 1:
            out[n] = out.get(n, 0) + s
    return sorted(out.items())


DERIV = {
    "log": lambda x: x.inverse(),
    "ldet": lambda x: x.inverse(),
    "exp": lambda x: fn("exp", x),
    "gammaln": lambda x: fn("digamma", x),
    "digamma": lambda x: fn("trigamma", x),
    "mgammaln": lambda x, k: fn("mdigamma", x, k),
}


def diff_atom(a, atom):
    if a == atom:
        return Poly.const(1)
    if a[0] == "fn":
        x = _ARG[a[2]]
        dx = x.diff(atom)
        if not dx.d:
            return dx
        if a[1] == "pow":
            return Poly.const(a[3]) * (x ** (a[3] - 1)) * dx
        if a[1] in DERIV and not any(_ARG[y].diff(atom).d for y in a[3:]):
            return DERIV[a[1]](x, *[_ARG[y] for y in a[3:]]) * dx
        raise ValueError("no derivative of %s" % a[1])
    if a[0] == "inv":
        x = _ARG[a[1]]
        dx = x.diff(atom)
        return -(dx * Poly.atom(a) * Poly.atom(a)) if dx.d else dx
    return Poly()


def subst_atom(a, table):
    if a in table:
        return table[a]
    if a[0] == "fn":
        args = [_ARG[x].subst(table) if isinstance(x, tuple) and x and x[0] == "K" else x
                for x in a[2:]]
        if a[1] == "pow":
            return args[0] ** args[1]
        return fn(a[1], *args)
    if a[0] == "inv":
        return _ARG[a[1]].subst(table).inverse()
    return Poly.atom(a)


class Conv:
    """Scalar interpretation of value-graph terms (arithmetic only)."""

    FUNCS = {"abs": "abs", "np.abs": "abs", "np.absolute": "abs", "np.fabs": "abs",
             "math.fabs": "abs", "np.log": "log", "math.log": "log", "np.exp": "exp",
             "np.sqrt": "sqrt", "math.sqrt": "sqrt", "np.square": "square"}
    BIN = {"np.add": "+", "np.subtract": "-", "np.multiply": "*", "np.divide": "/",
           "np.true_divide": "/", "np.power": "**"}

    def __init__(self, leaf=None):
        self.leaf = leaf
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.conv(t)
        return r

    def atom(self, t):
        return Poly.atom(("t", t))

    def conv(self, t):
        if self.leaf is not None:
            r = self.leaf(t, self)
            if r is not None:
                return r
        if is_const(t):
            v = t.a[0]
            if isinstance(v, (int, float)):
                try:
                    return Poly.const(v)
                except ValueError:
                    return self.atom(t)
            return self.atom(t)
        if t.op == "bin":
            return self.binary(t.a[0], self(t.a[1]), self(t.a[2]), t)
        if t.op == "un" and t.a[0] == "-":
            return -self(t.a[1])
        if t.op == "un" and t.a[0] == "+":
            return self(t.a[1])
        if t.op == "call":
            n, a, kw = t.a
            if n in self.FUNCS and len(a) == 1 and not kw:
                return fn(self.FUNCS[n], self(a[0]))
            if n in self.BIN and len(a) == 2 and not kw:
                return self.binary(self.BIN[n], self(a[0]), self(a[1]), t)
            if n == "np.negative" and len(a) == 1:
                return -self(a[0])
            if n in ("float", "int", "np.asarray", "np.array", "np.copy", "np.asanyarray") \
                    and len(a) == 1:
                return self(a[0])
        return self.atom(t)

    def binary(self, op, a, b, t):
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if not b.d:
                return self.atom(t)
            return a / b
        if op == "**":
            v = b.value()
            if v is not None and v.denominator in (1, 2):
                return a ** v
        return self.atom(t)

"""P12: fixed values (data, constants, initial values).

The methods are interpreted on arrays whose elements are arbitrary values of a stated
interval; conditions on them are decided by the bounds, so a run stands for every value
of the interval (sizes of the arrays are fixed).

Rules
 statistics  the moments of a fixed value are the documented statistics of it, from the
             moments class and from the distribution, whatever plates it has and when it
             is given as nested lists;
 accepted    valid values are accepted as data and as initial value and become the moments
             of the node (of the plates of the mask / of the latent plates);
 rejected    a value outside the support raises an error in observe, in
             initialize_from_value and as a constant, whichever element it is in, and the
             node is left as it was;
 shape       the same of values whose shape does not fit;
 constant    a constant has the plates and dims of its value, and set_value replaces its
             moments or raises and leaves it as it was.
"""
import itertools
import os
from fractions import Fraction as Q

import npdomain
import scen
import tensor as tn
from absint import IRaise
from nodeworld import World, same
from scen import expected
from tensor import Arr, Body, Unsupported, ShapeError

P = (2, 3)
D = 3
WORLD = []


# ---------------------------------------------------------------- values
def iv(lo, hi, lop=False, hop=False):
    f = lambda x: None if x is None else Q(x)
    return (f(lo), lop, f(hi), hop)


def full(shape, f, dtype="f"):
    """Array of the given shape (ints); f(position) -> Body."""
    axes = tuple(None if n == 1 else n for n in shape)
    data = {}
    for pos in itertools.product(*[range(n) for n in shape]):
        data[tuple(p for p, n in zip(pos, shape) if n != 1)] = f(pos)
    return Arr(axes, data, dtype)


def const(x):
    return Body.const(Q(x))


def lists(a, f):
    """Nested lists of constants of the given shape."""
    def rec(pos, rest):
        if not rest:
            return f(pos)
        return [rec(pos + (i,), rest[1:]) for i in range(rest[0])]
    return rec((), tuple(a))


def free(shape, fact, name="x", at=None, bad=None, dtype="f"):
    """Elements anywhere in `fact`, the one at position `at` anywhere in `bad`."""
    for k in [k for k in npdomain.FACTS if k == name or (isinstance(k, tuple) and k[0] == name)]:
        del npdomain.FACTS[k]
    if fact is not None:
        npdomain.FACTS[name] = fact
    tn.SYM.pop(name, None)
    tn.INDICATOR.discard(name)
    if at is not None:
        npdomain.FACTS[(name, at)] = bad
    return full(shape, lambda pos: const(bad[0]) if pos == at and bad[0] is not None
                and bad[0] == bad[2] else Body.atom(name, pos), dtype)


class Kind:
    """Values of a family: `event` axes, valid and invalid values, their statistics."""
    event = ()
    dims = ((),)
    dtype = "f"

    def valid(self, plates):
        """[(label, value)]"""
        raise NotImplementedError

    def invalid(self, plates):
        """[(label, position or None, value)]"""
        return []

    def stats(self, w, x, plates):
        raise NotImplementedError

    def shape(self, plates):
        return tuple(plates) + tuple(self.event)


def np_(w, name, *args, **kw):
    return npdomain.call(w.it, "numpy." + name, list(args), kw)


def gammaln(w, x):
    return npdomain.call(w.it, "scipy.special.gammaln", [x], {})


class Count(Kind):
    """Integers 0..top (per plate), top None: no bound."""
    dtype = "i"

    def __init__(self, top=None):
        self.top = top

    def bound(self, pos, plates):
        t = self.top
        if isinstance(t, (list, tuple)):
            i = pos[len(pos) - 2]
            t = t[i][0] if isinstance(t[i], (list, tuple)) else t[i]
        return t

    def value(self, plates, at=None, bad=None, dtype="i"):
        x = free(plates, None, dtype=dtype, at=at, bad=bad)
        for pos in itertools.product(*[range(n) for n in plates]):
            npdomain.FACTS[("x", pos)] = iv(0, self.bound(pos, plates))
        if at is not None:
            npdomain.FACTS[("x", at)] = bad
        return x

    def element(self, pos):
        t = self.bound(pos, None) if len(pos) > 1 or not isinstance(self.top, list) else 1
        return sum(pos) % ((t if t is not None else 4) + 1)

    def valid(self, plates):
        out = [("any counts", self.value(plates))]
        return out

    def invalid(self, plates):
        for at in itertools.product(*[range(n) for n in plates]):
            yield "negative count", at, lambda at=at: self.value(plates, at, iv(None, -1))
            yield "count -1", at, lambda at=at: self.value(plates, at, iv(-1, -1))
            if self.top is not None:
                yield "one count too many", at, lambda at=at: self.value(
                    plates, at, iv(self.bound(at, plates) + 1, self.bound(at, plates) + 1))
                yield "count above the number of trials", at, \
                    lambda at=at: self.value(plates, at, iv(self.bound(at, plates) + 1, None))
        yield "counts that are not integers", None, \
            lambda: self.value(plates, dtype="f")

    def stats(self, w, x, plates):
        return [x]


class Counts(Kind):
    """Vectors of counts that sum to the number of trials."""
    dims = ((D,),)
    dtype = "i"
    event = (D,)

    def __init__(self, trials, moments=False):
        self.trials, self.moments = trials, moments

    def n(self, pos):
        t = self.trials
        return t if not isinstance(t, (list, tuple)) else t[pos[len(pos) - 2]][0]

    def value(self, plates, at=None, bad=None, last=0, dtype="i", also=None):
        free(plates + (D,), iv(0, 1))
        if at is not None:
            npdomain.FACTS[("x", at)] = bad

        def f(pos):
            if pos[-1] < D - 1:
                return Body.atom("x", pos)
            b = const(self.n(pos[:-1]) + (last if at is not None and pos[:-1] == at[:-1] else 0)
                      - (last if also is not None and pos[:-1] == also else 0))
            for k in range(D - 1):
                b = b - Body.atom("x", pos[:-1] + (k,))
            return b
        return full(plates + (D,), f, dtype)

    def element(self, pos):
        return self.n(pos[:-1]) - 1 if pos[-1] == 0 else int(pos[-1] == 1 + sum(pos[:-1]) % 2)

    def valid(self, plates):
        return [("any counts of the trials", self.value(plates))]

    def invalid(self, plates):
        for at in itertools.product(*[range(n) for n in plates]):
            for k in range(D - 1):
                yield "negative count", at + (k,), \
                    lambda at=at, k=k: self.value(plates, at + (k,), iv(None, -1))
            if not self.moments:
                for last in (-1, 1):
                    yield "counts that do not sum to the trials (%+d)" % last, at, \
                        lambda at=at, last=last: self.value(plates, at + (0,), iv(0, 1), last)
        if not self.moments:
            yield "counts of two plates that only sum to the trials together", None, \
                lambda: self.value(plates, (0,) * (len(plates) + 1), iv(0, 1), 1,
                                   also=tuple(n - 1 for n in plates))
        yield "counts that are not integers", None, lambda: self.value(plates, dtype="f")

    def stats(self, w, x, plates):
        return [x]


class Category(Kind):
    dims = ((D,),)
    dtype = "i"

    def element(self, pos):
        return sum((k + 1) * q for k, q in enumerate(pos)) % D

    def valid(self, plates):
        size = 1
        for n in plates:
            size *= n
        out = []
        for s in range(D):
            f = lambda pos, s=s: const((sum((k + 1) * q for k, q in enumerate(pos)) + s) % D)
            out.append(("categories, pattern %d" % s, full(plates, f, "i")))
        return out

    def invalid(self, plates):
        for at in itertools.product(*[range(n) for n in plates]):
            for lab, bad in (("negative category", iv(None, -1)),
                             ("category out of range", iv(D, None))):
                yield lab, at, lambda at=at, bad=bad: free(plates, iv(0, D - 1), at=at, bad=bad,
                                                           dtype="i")
            for c in (-1, -D, D):
                yield "category %d" % c, at, lambda at=at, c=c: full(
                    plates, lambda pos: const(c if pos == at else self.element(pos)), "i")
        yield "categories that are not integers", None, \
            lambda: free(plates, iv(0, D - 1), dtype="f")

    def stats(self, w, x, plates):
        x = tn.broadcast_to(tn.lift(x), tuple(plates))
        enum = x.enum_axes()

        def f(pos):
            p = dict(enumerate(pos[:-1]))
            c = x.data[tuple(p[k] for k in enum)].constant()
            return const(int(c == pos[-1]))
        return [full(tuple(plates) + (D,), f)]


class Chain(Category):
    """Sequences of categories."""
    N = 4
    event = (4,)
    dims = ((D,), (3, D, D))

    def valid(self, plates):
        return Category.valid(self, tuple(plates) + self.event)

    def invalid(self, plates):
        return Category.invalid(self, tuple(plates) + self.event)

    def stats(self, w, x, plates):
        x = tn.broadcast_to(tn.lift(x), tuple(plates) + self.event)
        enum = x.enum_axes()

        def at(pos):
            p = dict(enumerate(pos))
            return x.data[tuple(p[k] for k in enum)].constant()
        n = len(plates)
        return [full(tuple(plates) + (D,), lambda q: const(int(at(q[:n] + (0,)) == q[n]))),
                full(tuple(plates) + (3, D, D), lambda q: const(int(
                    at(q[:n + 1]) == q[n + 1] and at(q[:n] + (q[n] + 1,)) == q[n + 2])))]


class Probability(Kind):
    dims = ((2,),)

    def element(self, pos):
        return Q(1 + sum(pos), 8)

    def valid(self, plates):
        return [("any probabilities", free(plates, iv(0, 1, True, True)))]

    def invalid(self, plates):
        for at in itertools.product(*[range(n) for n in plates]):
            for lab, bad in (("negative probability", iv(None, 0, hop=True)),
                             ("probability above one", iv(1, None, lop=True))):
                yield lab, at, lambda at=at, bad=bad: free(plates, iv(0, 1, True, True), at=at,
                                                           bad=bad)

    def stats(self, w, x, plates):
        x = tn.lift(x)
        a, b = np_(w, "log", x), np_(w, "log", tn.sub(tn.lift(1), x))
        return [np_(w, "stack", [a, b], axis=-1)]


class Simplex(Kind):
    dims = ((D,),)
    event = (D,)

    def value(self, plates, at=None, bad=None, last=0, also=None):
        free(plates + (D,), iv(0, Q(1, 4), True, True))
        if at is not None and bad is not None:
            npdomain.FACTS[("x", at)] = bad

        def f(pos):
            if pos[-1] < D - 1:
                return Body.atom("x", pos)
            b = const(1 + (Q(last) if at is not None and pos[:-1] == at[:-1] else 0)
                      - (Q(last) if also is not None and pos[:-1] == also else 0))
            for k in range(D - 1):
                b = b - Body.atom("x", pos[:-1] + (k,))
            return b
        return full(plates + (D,), f)

    def element(self, pos):
        return Q([1, 2, 5][(pos[-1] + sum(pos[:-1])) % 3], 8)

    def valid(self, plates):
        return [("any probabilities", self.value(plates))]

    def invalid(self, plates):
        for at in itertools.product(*[range(n) for n in plates]):
            for k in range(D - 1):
                yield "negative probability", at + (k,), \
                    lambda at=at, k=k: self.value(plates, at + (k,), iv(None, 0, hop=True))
                yield "probability above one", at + (k,), \
                    lambda at=at, k=k: self.value(plates, at + (k,), iv(1, None, lop=True))
            for last in (Q(-1, 4), Q(-1, 1000), Q(1, 1000), Q(1, 4)):
                yield "probabilities that sum to %s" % float(1 + last), at, \
                    lambda at=at, last=last: self.value(plates, at + (0,), None, last)
        yield "probabilities of two plates that only sum to one on average", None, \
            lambda: self.value(plates, (0,) * (len(plates) + 1), None, Q(1, 8),
                               also=tuple(n - 1 for n in plates))

    def stats(self, w, x, plates):
        return [np_(w, "log", x)]


class Positive(Kind):
    dims = ((), ())

    def __init__(self, second="log", zero=True):
        self.second, self.zero = second, zero

    def element(self, pos):
        return 1 + sum(pos)

    def valid(self, plates):
        return [("any positive values", free(plates, iv(0, None, True)))]

    def invalid(self, plates):
        for at in itertools.product(*[range(n) for n in plates]):
            yield "negative value", at, lambda at=at: free(
                plates, iv(0, None, True), at=at, bad=iv(None, 0, hop=True))
            if not self.zero:
                yield "zero", at, lambda at=at: free(
                    plates, iv(0, None, True), at=at, bad=iv(0, 0))

    def stats(self, w, x, plates):
        return [x, np_(w, "log", x) if self.second == "log" else gammaln(w, x)]


class Concentration(Kind):
    dims = ((D,), ())
    event = (D,)

    def element(self, pos):
        return 1 + sum(pos)

    def valid(self, plates):
        return [("any positive vectors", free(plates + (D,), iv(0, None, True)))]

    def invalid(self, plates):
        for at in itertools.product(*[range(n) for n in plates + (D,)]):
            yield "negative value", at, lambda at=at: free(
                plates + (D,), iv(0, None, True), at=at, bad=iv(None, 0, hop=True))

    def stats(self, w, x, plates):
        x = tn.lift(x)
        return [x, tn.sub(gammaln(w, np_(w, "sum", x, axis=-1)),
                          np_(w, "sum", gammaln(w, x), axis=-1))]


class Real(Kind):
    def __init__(self, event=()):
        self.event = tuple(event)
        self.dims = (self.event, self.event + self.event)

    def element(self, pos):
        return sum((k + 2) * q for k, q in enumerate(pos)) - 2

    def valid(self, plates):
        if any(isinstance(n, str) for n in self.event):
            return [("any values", WORLD[0].arr("x", tuple(plates) + self.event))]
        return [("any values", free(tuple(plates) + self.event, None))]

    def stats(self, w, x, plates):
        x = tn.lift(x)
        n = len(self.event)
        return [x, tn.mul(scen.expand_right(x, n), scen.expand_left(x, n))]


class Path(Real):
    """Vectors over time."""

    def __init__(self):
        self.event = (4, 2)
        self.dims = ((4, 2), (4, 2, 2), (3, 2, 2))

    def stats(self, w, x, plates):
        x = tn.broadcast_to(tn.lift(x), tuple(plates) + self.event)
        enum = x.enum_axes()

        def at(pos):
            p = dict(enumerate(pos))
            return x.data[tuple(p[k] for k in enum)]
        n = len(plates)
        return [x,
                full(tuple(plates) + (4, 2, 2),
                     lambda q: at(q[:n + 1] + (q[n + 1],)) * at(q[:n + 1] + (q[n + 2],))),
                full(tuple(plates) + (3, 2, 2),
                     lambda q: at(q[:n + 1] + (q[n + 1],)) * at(q[:n] + (q[n] + 1, q[n + 2])))]


class Precision(Kind):
    """Symmetric positive-definite matrices."""
    dims = (("D", "D"), ())
    event = ("D", "D")

    def valid(self, plates):
        return [("any matrices", WORLD[0].arr("S", tuple(plates) + self.event, sym=2))]

    def stats(self, w, x, plates):
        chol = w.it.call(w.it.cls("bayespy.utils.linalg.chol"), [x], {})
        return [x, w.it.call(w.it.cls("bayespy.utils.linalg.chol_logdet"), [chol], {})]


# ------------------------------------------------------------------- the node world
FIELDS = ("u", "phi", "g", "f", "observed", "mask", "plates", "dims")


class State:
    """What a node holds, for comparison after a rejected operation."""

    def __init__(self, w, node, fields=FIELDS):
        self.w, self.node = w, node
        self.old = {k: self.grab(k) for k in fields}

    def grab(self, k):
        try:
            x = self.w.get(self.node, k)
        except IRaise:
            return None
        if isinstance(x, Arr):
            return Arr(x.axes, dict(x.data), x.dtype)
        if isinstance(x, list):
            return [Arr(y.axes, dict(y.data), y.dtype) if isinstance(y, Arr) else y for y in x]
        return x

    def changed(self):
        for k, a in self.old.items():
            b = self.grab(k)
            if not self.equal(a, b):
                return k
        return None

    def equal(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.equal(x, y) for x, y in zip(a, b))
        if a is None or b is None:
            return a is b
        try:
            a, b = tn.lift(a), tn.lift(b)
            return a.ndim == b.ndim and same(a, b)
        except (ShapeError, Unsupported):
            return a is b


def gamma_src(w, name, plates):
    return scen.Src(w, scen.gamma, name, plates).obj


def prepare(w, node):
    """Arbitrary current state."""
    dims = [tuple(scen.axis_specs(w, d)) for d in w.get(node, "dims")]
    put = lambda k, v: w.it.setattr(node, k, v)
    put("u", [w.arr("u_old%d" % k, P + d) for k, d in enumerate(dims)])
    put("phi", [w.arr("phi_old%d" % k, P + d) for k, d in enumerate(dims)])
    put("g", w.arr("g_old", P))
    put("f", w.arr("f_old", P))
    return node


def table():
    """(family, node class, make(w, plates, name), Kind for observe, Kind for initial values)"""
    src = lambda w, kind, name, plates, dims=(): scen.Src(w, kind, name, plates, dims).obj
    out = []

    def add(label, make, kind, init=None, cls=None, observe=True):
        out.append((label, cls or label.split(":")[0], make, kind, init or kind, observe))
    add("Poisson", lambda w, p: w.new("Poisson", src(w, scen.gamma, "l", p[1:]), plates=p, initialize=False), Count())
    add("Bernoulli", lambda w, p: w.new("Bernoulli", src(w, scen.beta, "p", p[1:]), plates=p, initialize=False),
        Count(1))
    add("Binomial: 4 trials", lambda w, p: w.new("Binomial", 4, src(w, scen.beta, "p", p[1:]),
                                                 plates=p, initialize=False), Count(4))
    add("Binomial: trials per plate", lambda w, p: w.new(
        "Binomial", [[3], [5]], src(w, scen.beta, "p", p[1:]), plates=p, initialize=False), Count([[3], [5]]))
    add("Multinomial: 3 trials", lambda w, p: w.new(
        "Multinomial", 3, src(w, scen.dirichlet, "p", p[1:], (D,)), plates=p, initialize=False),
        Counts(3), Counts(3, True))
    add("Multinomial: trials per plate", lambda w, p: w.new(
        "Multinomial", [[3], [5]], src(w, scen.dirichlet, "p", p[1:], (D,)), plates=p, initialize=False),
        Counts([[3], [5]]), Counts([[3], [5]], True))
    add("Categorical", lambda w, p: w.new("Categorical", src(w, scen.dirichlet, "p", p[1:], (D,)),
                                          plates=p, initialize=False), Category())
    add("CategoricalMarkovChain", lambda w, p: w.new(
        "CategoricalMarkovChain", src(w, scen.dirichlet, "p", p, (D,)),
        src(w, scen.dirichlet, "P", (3, D), (D,)), plates=p, initialize=False), Chain(), observe=False)
    add("Beta", lambda w, p: w.new("Beta", src(w, scen.concentration, "a", p[1:], (2,)), plates=p, initialize=False),
        Probability())
    add("Dirichlet", lambda w, p: w.new("Dirichlet", src(w, scen.concentration, "a", p[1:], (D,)),
                                        plates=p, initialize=False), Simplex())
    add("Gamma", lambda w, p: w.new("Gamma", src(w, scen.gammaprior, "a", p[1:]),
                                    src(w, scen.gamma, "b", p), plates=p, initialize=False), Positive())
    for ev in ((), (2,), (2, 2)):
        add("GaussianARD: shape %s" % (ev,), lambda w, p, ev=ev: w.new(
            "GaussianARD", src(w, scen.gaussian, "m", p[1:], ev),
            src(w, scen.gamma, "a", p[1:] + ev), shape=ev, plates=p, initialize=False), Real(ev))
    add("Gaussian", lambda w, p: w.new("Gaussian", src(w, scen.gaussian, "m", p[1:], ("D",)),
                                       src(w, scen.wishart, "L", p, ("D",)), plates=p, initialize=False),
        Real(("D",)))
    add("GaussianGamma", lambda w, p: w.new(
        "GaussianGamma", src(w, scen.gaussian, "m", p[1:], ("D",)),
        src(w, scen.wishart, "L", p, ("D",)), src(w, scen.gammaprior, "a", p[1:]),
        src(w, scen.gamma, "b", ()), plates=p, initialize=False), Scaled(("D",)))
    add("Wishart", lambda w, p: w.new("Wishart", w.arr("n", ()),
                                      src(w, scen.wishart, "V", p[1:], ("D",)), plates=p, initialize=False),
        Precision())
    add("GaussianMarkovChain", lambda w, p: w.new(
        "GaussianMarkovChain", src(w, scen.gaussian, "m", p, (2,)),
        src(w, scen.wishart, "L", p[1:], (2,)), src(w, scen.gaussian, "A", (2,), (2,)),
        src(w, scen.gamma, "v", (2,)), n=4, plates=p, initialize=False), Path())
    z = lambda w, p, n=2: src(w, scen.categorical, "z", p, (n,))
    add("Mixture: Poisson", lambda w, p: w.new(
        "Mixture", z(w, p), w.it.get_class("Poisson"), src(w, scen.gamma, "l", (2,)), plates=p, initialize=False), Count())
    add("Mixture: Categorical", lambda w, p: w.new(
        "Mixture", z(w, p), w.it.get_class("Categorical"), src(w, scen.dirichlet, "p", (2,), (D,)),
        plates=p, initialize=False), Category())
    add("Mixture: Gaussian", lambda w, p: w.new(
        "Mixture", z(w, p), w.it.get_class("Gaussian"), src(w, scen.gaussian, "m", (2,), ("D",)),
        src(w, scen.wishart, "L", (2,), ("D",)), plates=p, initialize=False), Real(("D",)))
    return out


def moments_table():
    """(class, make(w), from_values args, Kind, documented dims)"""
    return [
        ("PoissonMoments", lambda w: w.new("PoissonMoments"), {}, Count()),
        ("BernoulliMoments", lambda w: w.new("BernoulliMoments"), {}, Count(1)),
        ("BinomialMoments", lambda w: w.new("BinomialMoments", 4), None, Count(4)),
        ("MultinomialMoments", lambda w: w.new("MultinomialMoments", D), {}, Counts(3, True)),
        ("CategoricalMoments", lambda w: w.new("CategoricalMoments", D), dict(categories=D),
         Category()),
        ("CategoricalMarkovChainMoments",
         lambda w: w.new("CategoricalMarkovChainMoments", D, 4), None, Chain()),
        ("BetaMoments", lambda w: w.new("BetaMoments"), {}, Probability()),
        ("DirichletMoments", lambda w: w.new("DirichletMoments", D), {}, Simplex()),
        ("ConcentrationMoments", lambda w: w.new("ConcentrationMoments", D), {}, Concentration()),
        ("GammaMoments", lambda w: w.new("GammaMoments"), {}, Positive()),
        ("GammaPriorMoments", lambda w: w.new("GammaPriorMoments"), {}, Positive("gammaln", False)),
        ("GaussianMoments", lambda w: w.new("GaussianMoments", ()), dict(ndim=0), Real()),
        ("GaussianMoments", lambda w: w.new("GaussianMoments", (3,)), dict(ndim=1), Real((3,))),
        ("GaussianMoments", lambda w: w.new("GaussianMoments", (3, 2)), dict(ndim=2), Real((3, 2))),
        ("WishartMoments", lambda w: w.new("WishartMoments", w.shape(("D",))), dict(ndim=1), Precision()),
        ("GaussianMarkovChainMoments", lambda w: w.new("GaussianMarkovChainMoments", 4, 2), None,
         Path()),
    ]


class Scaled(Real):
    """(x, alpha) of Gaussian-gamma variables."""
    element = None

    def __init__(self, event=(2,)):
        Real.__init__(self, event)
        self.dims = (self.event, self.event + self.event, (), ())

    def valid(self, plates):
        x = Real.valid(self, plates)[0][1]
        return [("any values", (x, free(plates, iv(0, None, True), name="s")))]

    def stats(self, w, value, plates):
        x, s = value
        n = len(self.event)
        s1, s2 = scen.expand_right(tn.lift(s), n), scen.expand_right(tn.lift(s), 2 * n)
        u = Real.stats(self, w, x, plates)
        return [tn.mul(u[0], s1), tn.mul(u[1], s2), s, np_(w, "log", s)]


class MeanPrecision(Real):
    """(x, Lambda) of Gaussian-Wishart variables."""
    event = ("D",)

    def __init__(self):
        self.event = ("D",)
        self.dims = (("D",), (), ("D", "D"), ())

    def valid(self, plates):
        x = WORLD[0].arr("x", tuple(plates) + self.event)
        return [("any values", (x, Precision().valid(plates)[0][1]))]

    def stats(self, w, value, plates):
        x, L = value
        Lx = npdomain.np_einsum(w.it, ["...ij,...j->...i", L, x], {})
        ld = w.it.call(w.it.cls("bayespy.utils.linalg.logdet_cov"), [L], {})
        return [Lx, npdomain.np_einsum(w.it, ["...i,...i->...", Lx, x], {}), L, ld]


def arrays(value):
    return value if isinstance(value, tuple) else (value,)


def sized(w, plates, d):
    return tuple(plates) + tuple(w.shape(d))


def shape_text(s):
    return "(%s)" % ",".join(str(x) for x in s)


def agree(w, got, want, shapes, lead=False):
    """None or what differs: statistic by statistic."""
    if len(got) != len(want):
        return "%d statistics instead of %d" % (len(got), len(want))
    for k, (a, b, s) in enumerate(zip(got, want, shapes)):
        a, b = tn.lift(a), expected(lambda: tn.broadcast_to(tn.lift(b), s))
        if a.shape() != tuple(s):
            return "statistic %d has shape %s instead of %s" % (k, a.shape(), tuple(s))
        if not same(a, b):
            return "statistic %d is not the documented one" % k
    return None


def reset(w):
    w.reset()
    npdomain.FACTS.clear()


def only():
    return os.environ.get("P12_ONLY")


def skip(label):
    return only() and only() not in label


def run(ctx):
    ctx.rule("statistics", "moments of a fixed value = the documented statistics of the value, for "
             "the moments class and the distribution", floor=40)
    ctx.rule("accepted", "values inside the support become the moments of the node", floor=40)
    ctx.rule("rejected", "values outside the support raise and leave the node as it was",
             floor=100)
    ctx.rule("shape", "values whose shape does not fit raise and leave the node as it was",
             floor=40)
    ctx.rule("constant", "constants have the plates, dims and statistics of their value",
             floor=20)
    scen.prepare(ctx)
    w = World(ctx)
    WORLD[:] = [w]
    try:
        for row in moments_table():
            statistics(ctx, w, *row)
        if not skip("constructor"):
            constructors(ctx, w)
        for row in pairs_table():
            pairs(ctx, w, *row)
        for row in table():
            if not skip(row[0]):
                accepted(ctx, w, *row)
                rejected(ctx, w, *row)
                shapes(ctx, w, *row)
    finally:
        npdomain.FACTS.clear()
    ctx.functions.update(w.it.functions)
    ctx.assumptions = [
        "sizes: plates 2x3 (and 3, 1x3, none), 3 categories, chains of 4, vectors of 2 or 3",
        "positive-definiteness of matrices is not judged (numpy's Cholesky factorisation raises)",
        "floating point: exact arithmetic; tolerances of closeness tests as written"]


# --------------------------------------------------------------- moments classes
def as_lists(ctx, w, rule, tag, kind, plates, op, where):
    """The value as nested lists (and numbers) instead of an array."""
    if getattr(kind, "element", None) is None or any(isinstance(n, str) for n in kind.event):
        return
    shape = tuple(plates) + tuple(kind.event)
    label = "%s: nested lists, plates %s" % (tag, shape_text(plates))
    with ctx.instance(rule, label):
        reset(w)
        x = full(shape, lambda pos: const(kind.element(pos)), kind.dtype)
        want = expected(lambda: kind.stats(w, x, plates))
        # without facts, conditions on constants are decided by their values
        try:
            err = op(lists(shape, kind.element), want)
        except IRaise as e:
            err = "valid values raise %s" % e
        guarded(ctx, w, rule, label, err, where)


def statistics(ctx, w, name, make, values_kw, kind):
    where = ctx.class_where(name)
    tag = "%s%s" % (name, shape_text(kind.event) if kind.event else "")
    for plates in ((), (3,), (2, 3), (1, 3)):
        reset(w)
        for k, (lab, _) in enumerate(kind.valid(plates)):
            label = "%s: %s, plates %s" % (tag, lab, shape_text(plates))
            with ctx.instance("statistics", label):
                reset(w)
                x = kind.valid(plates)[k][1]
                want = expected(lambda: kind.stats(w, x, plates))
                got = None
                try:
                    got = w.call(make(w), "compute_fixed_moments", x)
                except IRaise as e:
                    err = "valid values raise %s" % e
                if got is not None:
                    err = agree(w, got, want, [sized(w, plates, d) for d in kind.dims])
                guarded(ctx, w, "statistics", label, err, where)
        if plates != (1, 3):
            as_lists(ctx, w, "statistics", tag, kind, plates, lambda x, want: agree(
                w, w.call(make(w), "compute_fixed_moments", x), want,
                [sized(w, plates, d) for d in kind.dims]), where)
        if values_kw is not None and plates != (1, 3):
            label = "%s as a constant, plates %s" % (tag, shape_text(plates))
            with ctx.instance("constant", label):
                reset(w)
                x = kind.valid(plates)[0][1]
                want = expected(lambda: kind.stats(w, x, plates))
                try:
                    node = constant(w, name, values_kw, x)
                    err = const_state(w, node, kind, want, plates)
                except IRaise as e:
                    err = "valid values raise %s" % e
                guarded(ctx, w, "constant", label, err, where)
            set_value(ctx, w, name, tag, values_kw, kind, plates, where)
    # invalid values
    reset(w)
    for k, (lab, at, _) in enumerate(list(kind.invalid((2,)))):
        label = "%s: %s%s" % (tag, lab, "" if at is None else " at %s" % (at,))
        with ctx.instance("rejected", label):
            reset(w)
            x = list(kind.invalid((2,)))[k][2]()
            m = make(w)
            refused(ctx, w, label, lambda: w.call(m, "compute_fixed_moments", x), None, where)


def constant(w, name, kw, x):
    m = w.it.call(w.it.getattr(w.it.get_class(name), "from_values"), [x], dict(kw))
    return w.new("Constant", m, x)


def const_state(w, node, kind, want, plates):
    if tuple(w.get(node, "plates")) != tuple(plates):
        return "plates %s instead of %s" % (tuple(w.get(node, "plates")), tuple(plates))
    if tuple(map(tuple, w.get(node, "dims"))) != tuple(w.shape(d) for d in kind.dims):
        return "dims %s instead of %s" % (w.get(node, "dims"), kind.dims)
    return agree(w, w.call(node, "get_moments"), want,
                 [sized(w, plates, d) for d in kind.dims])


def set_value(ctx, w, name, tag, kw, kind, plates, where):
    label = "%s set_value, plates %s" % (tag, shape_text(plates))
    with ctx.instance("constant", label):
        reset(w)
        x = kind.valid(plates)[0][1]
        node = constant(w, name, kw, x)
        want = expected(lambda: kind.stats(w, x, plates))
        try:
            w.call(node, "set_value", x)
            err = const_state(w, node, kind, want, plates)
        except IRaise as e:
            err = "valid values raise %s" % e
        guarded(ctx, w, "constant", label, err, where)
    for wrong in ((5,) + tuple(plates), tuple(plates[:-1]) + (7,)):
        if not plates and wrong == (7,):
            continue
        label = "%s set_value of plates %s, plates %s" % (tag, shape_text(wrong), shape_text(plates))
        with ctx.instance("constant", label):
            reset(w)
            node = constant(w, name, kw, kind.valid(plates)[0][1])
            x = kind.valid(wrong)[0][1]
            st = State(w, node, ("u", "plates", "dims"))
            refused(ctx, w, label, lambda: w.call(node, "set_value", x), st, where, "constant")


def guarded(ctx, w, rule, label, err, where):
    if err is None and w.it.assumed:
        # a condition on the values could not be decided by their bounds
        raise Unsupported("condition not decided: %s" % (w.it.assumed[0],))
    ctx.verdict(rule, label, err is None, err or "", where)


def refused(ctx, w, label, op, st, where, rule="rejected"):
    err, raised = None, None
    try:
        op()
    except IRaise as e:
        raised = e
    if raised is None:
        if w.it.assumed:
            raise Unsupported("condition not decided: %s" % (w.it.assumed[0],))
        err = "the value is accepted"
    elif st is not None:
        k = st.changed()
        if k is not None:
            err = "raises, but `%s` has been changed" % k
    ctx.verdict(rule, label, err is None, err or "", where)


# --------------------------------------------------------------------- pairs
def pairs_table():
    return [("GaussianGammaMoments", lambda w: w.new("GaussianGammaMoments", (2,)), dict(ndim=1),
             Scaled((2,))),
            ("GaussianGammaMoments", lambda w: w.new("GaussianGammaMoments", ()), dict(ndim=0),
             Scaled(())),
            ("GaussianWishartMoments", lambda w: w.new("GaussianWishartMoments", w.shape(("D",))),
             dict(ndim=1), MeanPrecision())]


def pairs(ctx, w, name, make, kw, kind):
    where = ctx.class_where(name)
    tag = "%s%s" % (name, shape_text(kind.event))
    split = name == "GaussianWishartMoments"
    for plates in ((), (3,), (2, 3)):
        label = "%s, plates %s" % (tag, shape_text(plates))
        with ctx.instance("statistics", label):
            reset(w)
            x = kind.valid(plates)[0][1]
            want = expected(lambda: kind.stats(w, x, plates))
            try:
                got = w.call(make(w), "compute_fixed_moments", *(x if split else (x,)))
                err = agree(w, got, want, [sized(w, plates, d) for d in kind.dims])
            except IRaise as e:
                err = "valid values raise %s" % e
            guarded(ctx, w, "statistics", label, err, where)
        with ctx.instance("constant", label + " from_values"):
            reset(w)
            x = kind.valid(plates)[0][1]
            try:
                m = w.it.call(w.it.getattr(w.it.get_class(name), "from_values"),
                              list(x if split else (x,)), dict(kw))
                d = tuple(map(tuple, w.get(m, "dims")))
                err = None if d == tuple(w.shape(e) for e in kind.dims) else "dims %s instead of %s" % (d, kind.dims)
            except IRaise as e:
                err = "valid values raise %s" % e
            guarded(ctx, w, "constant", label + " from_values", err, where)


# ---------------------------------------------------------------------- nodes
def accepted(ctx, w, label, cls, make, kind, init, observe):
    where = ctx.class_where(cls)
    reset(w)
    for k, (lab, _) in enumerate(kind.valid(P)):
        if observe:
            for mask in (True, [[True, False, True], [False, True, False]]):
                name = "%s: observe %s%s" % (label, lab, "" if mask is True else ", masked")
                with ctx.instance("accepted", name):
                    reset(w)
                    node = prepare(w, make(w, P))
                    before = State(w, node).old
                    x = kind.valid(P)[k][1]
                    want = expected(lambda: kind.stats(w, x, P))
                    try:
                        w.call(node, "observe", x, mask=scen_mask(mask))
                        err = taken(w, node, kind, want, before, mask)
                    except IRaise as e:
                        err = "valid values raise %s" % e
                    guarded(ctx, w, "accepted", name, err, where)
    for op, kd in (("observe", kind), ("initialize_from_value", init)):
        if op == "observe" and not observe:
            continue

        def take(x, want, op=op, kd=kd):
            node = prepare(w, make(w, P))
            before = State(w, node).old
            w.call(node, op, x)
            return taken(w, node, kd, want, before, True)
        as_lists(ctx, w, "accepted", "%s: %s" % (label, op), kd, P, take, where)
    reset(w)
    for k, (lab, _) in enumerate(init.valid(P)):
        for observed in (False, [[True, False, True], [False, True, False]]):
            name = "%s: initialize from %s%s" % (label, lab, "" if observed is False
                                                  else ", partly observed")
            with ctx.instance("accepted", name):
                reset(w)
                node = prepare(w, make(w, P))
                if observed:
                    w.it.setattr(node, "observed", scen_mask(observed))
                before = State(w, node).old
                x = init.valid(P)[k][1]
                want = expected(lambda: init.stats(w, x, P))
                mask = True if not observed else [[not b for b in r] for r in observed]
                try:
                    w.call(node, "initialize_from_value", x)
                    err = taken(w, node, init, want, before, mask)
                except IRaise as e:
                    err = "valid values raise %s" % e
                guarded(ctx, w, "accepted", name, err, where)


def scen_mask(m):
    import famworld as fw
    return fw.cmask(m)


def taken(w, node, kind, want, before, mask):
    u = w.get(node, "u")
    for k, d in enumerate(kind.dims):
        s = sized(w, P, d)
        a = tn.broadcast_to(tn.lift(u[k]), s)
        b = expected(lambda: tn.broadcast_to(tn.lift(want[k]), s))
        if mask is not True:
            m = scen.expand_right(tn.lift(scen_mask(mask)), len(d))
            old = before["u"][k]
            old = expected(lambda: tn.broadcast_to(tn.lift(old), s))
            b = expected(lambda: npdomain.call(w.it, "numpy.where", [m, b, old], {}))
        if not same(a, b):
            return "statistic %d of the node is not the documented one of the value" % k
    return None


def rejected(ctx, w, label, cls, make, kind, init, observe):
    where = ctx.class_where(cls)
    for op, kd in (("observe", kind), ("initialize_from_value", init)):
        if op == "observe" and not observe:
            continue
        reset(w)
        seen = {}
        for k, (lab, at, _) in enumerate(list(kd.invalid(P))):
            seen[lab] = seen.get(lab, 0) + 1
            # first, last and a middle element
            name = "%s: %s %s%s" % (label, op, lab, "" if at is None else " at %s" % (at,))
            if at is not None and sum(at[:2]) % 3 != 0:
                continue
            with ctx.instance("rejected", name):
                reset(w)
                node = prepare(w, make(w, P))
                x = list(kd.invalid(P))[k][2]()
                st = State(w, node)
                refused(ctx, w, name, lambda: w.call(node, op, x), st, where)


def shapes(ctx, w, label, cls, make, kind, init, observe):
    where = ctx.class_where(cls)
    wrongs = [(4, 3), (2, 4), (5, 2, 3)]
    for op, kd in (("observe", kind), ("initialize_from_value", init)):
        if op == "observe" and not observe:
            continue
        for plates in wrongs + ([(3,), (1, 3), ()] if op == "observe" else []):
            name = "%s: %s of plates %s" % (label, op, shape_text(plates))
            if "trials per plate" in label:
                continue
            with ctx.instance("shape", name):
                reset(w)
                node = prepare(w, make(w, P))
                x = kd.valid(plates)[0][1]
                st = State(w, node)
                refused(ctx, w, name, lambda: w.call(node, op, x), st, where, "shape")
        if op == "initialize_from_value":
            for plates in ((3,), (1, 3), ()):
                name = "%s: %s of plates %s is broadcast" % (label, op, shape_text(plates))
                if "trials per plate" in label:
                    continue
                with ctx.instance("shape", name):
                    reset(w)
                    node = prepare(w, make(w, P))
                    before = State(w, node).old
                    x = kd.valid(plates)[0][1]
                    want = expected(lambda: kd.stats(w, x, plates))
                    want = [expected(lambda a=a, d=d: tn.broadcast_to(tn.lift(a), sized(w, P, d)))
                            for a, d in zip(want, kd.dims)]
                    try:
                        w.call(node, op, x)
                        err = taken(w, node, kd, want, before, True)
                    except IRaise as e:
                        err = "values that broadcast to the plates raise %s" % e
                    guarded(ctx, w, "shape", name, err, where)
        if op == "observe":
            for m in ([[True, False]], [True] * 4, [[True], [False], [True]]):
                name = "%s: observe with a mask of shape %s" % (
                    label, "(%d,%d)" % (len(m), len(m[0])) if isinstance(m[0], list)
                    else "(%d)" % len(m))
                with ctx.instance("shape", name):
                    reset(w)
                    node = prepare(w, make(w, P))
                    x = kd.valid(P)[0][1]
                    st = State(w, node)
                    refused(ctx, w, name, lambda: w.call(node, op, x, mask=scen_mask(m)), st,
                            where, "shape")


def constructors(ctx, w):
    """Constants as parents and as fixed parameters."""
    pos, unit = iv(0, None, True), iv(0, 1, True, True)
    par = lambda name, plates=(): scen.Src(w, scen.dirichlet if name == "p" else scen.beta, name,
                                           plates, (D,) if name == "p" else ()).obj

    def make(cls, *args, **kw):
        return lambda x: w.new(cls, *[x if a is X else a() if callable(a) else a for a in args],
                               initialize=False, **kw)
    X = object()
    simplex, conc = Simplex(), Concentration()
    rows = []

    def add(label, cls, op, kind, bad):
        """bad: [(label, thunk of a value)]"""
        rows.append((label, cls, op, kind, bad))

    def num(event, good, *bads, dtype="f"):
        """Scalar parameters: one bad element."""
        return [(lab, lambda b=b: free((2,), good, at=(1,), bad=b, dtype=dtype)) for lab, b in bads]
    neg = ("negative", iv(None, 0, hop=True))
    zero = ("zero", iv(0, 0))
    add("Poisson: rate", "Poisson", make("Poisson", X), Positive(), num((), pos, neg))
    add("Gamma: shape", "Gamma", make("Gamma", X, 1), Positive("gammaln", False),
        num((), pos, neg, zero))
    add("Gamma: rate", "Gamma", make("Gamma", 1, X), Positive(), num((), pos, neg))
    add("GaussianARD: precision", "GaussianARD", make("GaussianARD", 0, X), Positive(),
        num((), pos, neg))
    prob = num((), unit, neg, ("above one", iv(1, None, lop=True)))
    add("Bernoulli: probability", "Bernoulli", make("Bernoulli", X), Probability(), prob)
    add("Binomial: probability", "Binomial", make("Binomial", 3, X), Probability(), prob)
    bad = [(lab, t) for lab, at, t in Simplex().invalid((2,)) if at is None or at[0] == 1]
    add("Categorical: probabilities", "Categorical", make("Categorical", X), Simplex(), bad)
    add("Multinomial: probabilities", "Multinomial", make("Multinomial", 3, X), Simplex(), bad)
    bad = [("%s at %s" % (lab, at), t) for lab, at, t in Concentration().invalid((2,))]
    add("Dirichlet: concentration", "Dirichlet", make("Dirichlet", X), Concentration(), bad)
    trials = num((), iv(0, None), ("negative", iv(None, -1)), dtype="i") + \
        [("not integer", lambda: free((2,), iv(0, None), dtype="f"))]
    add("Binomial: trials", "Binomial", make("Binomial", X, lambda: par("q"), plates=(2,)),
        Count(), trials)
    add("Multinomial: trials", "Multinomial", make("Multinomial", X, lambda: par("p"), plates=(2,)),
        Count(), trials)
    for label, cls, op, kind, bad in rows:
        where = ctx.class_where(cls)
        name = label + ": any valid values"
        with ctx.instance("accepted", name):
            reset(w)
            x = kind.valid((2,))[0][1]
            err = None
            try:
                node = op(x)
                if tuple(w.get(node, "plates")) != (2,):
                    err = "plates %s instead of (2,)" % (tuple(w.get(node, "plates")),)
            except IRaise as e:
                err = "valid values raise %s" % e
            guarded(ctx, w, "accepted", name, err, where)
        for lab, thunk in bad:
            name = "%s: %s" % (label, lab)
            with ctx.instance("rejected", name):
                reset(w)
                x = thunk()
                refused(ctx, w, name, lambda: op(x), None, where)

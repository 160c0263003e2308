"""Exponential-family distribution classes: their formulas as exact algebra.

The table below states, from the documentation of each distribution, the parents'
moment classes, the variables and the log-density.  Everything else is read from the
source.  Vector-valued variables are tuples of K = 2 components.
"""
from vg import *
from alg import *
from erase import *
from common import *
from core import Undecided

S = Poly.sym
HALF = Fraction(1, 2)


def log(x):
    return fn("log", x)


def lgam(x):
    return fn("gammaln", x)


def vsum(x):
    out = Poly()
    for c in x:
        out = out + c
    return out


def vec(name):
    return (S(name + "[0]"), S(name + "[1]"))


class Dist:
    """parents: list of (list of component kinds 's'/'v'); u: kinds of the own moments."""

    def __init__(self, cls, parents, u, K=None, fixed=None, density=None, attrs=(), skip=(),
                 fixed_cases=None, moments=None, u_free=False, x=None, skip_message=()):
        self.cls, self.parents, self.u, self.K = cls, parents, u, K
        self.fixed = fixed            # () -> (parent fixed values, x terms, log density)
        self.attrs = attrs            # attributes of self treated as scalar symbols
        self.skip = skip
        self.fixed_cases = fixed_cases or {}
        self.moments = moments
        self.u_free = u_free
        self.skip_message = skip_message


def _gaussian_parent(mu, Lam):
    return [Lam * mu, Lam * mu * mu, Lam, log(Lam)]


def f_gamma():
    a, b, x = S("a"), S("b"), S("x")
    return dict(parents=[("GammaPriorMoments", a), ("GammaMoments", b)], x=x,
                logp=a * log(b) - lgam(a) + (a - 1) * log(x) - b * x)


def f_poisson():
    l, x = S("rate"), S("x")
    return dict(parents=[("GammaMoments", l)], x=x, logp=x * log(l) - l - lgam(x + 1))


def f_binomial():
    p, x, N = S("p"), S("x"), S("N")
    return dict(parents=[("BetaMoments", p)], x=x,
                logp=lgam(N + 1) - lgam(x + 1) - lgam(N - x + 1) + x * log(p)
                + (N - x) * log(1 - p))


def f_dirichlet():
    al = vec("alpha")
    p = (S("p"), 1 - S("p"))
    return dict(parents=[("ConcentrationMoments", al)], x=p,
                logp=lgam(vsum(al)) - lgam(al[0]) - lgam(al[1]) + (al[0] - 1) * log(p[0])
                + (al[1] - 1) * log(p[1]))


def f_beta():
    d = f_dirichlet()
    d["x"] = S("p")
    return d


def f_multinomial():
    p = (S("p"), 1 - S("p"))
    x, N = vec("x"), S("N")
    return dict(parents=[("DirichletMoments", p)], x=x,
                logp=lgam(N + 1) - lgam(x[0] + 1) - lgam(x[1] + 1) + x[0] * log(p[0])
                + x[1] * log(p[1]))


def f_categorical():
    p = (S("p"), 1 - S("p"))
    x = vec("x")
    return dict(parents=[("DirichletMoments", p)], x=x, u=[x],
                logp=x[0] * log(p[0]) + x[1] * log(p[1]))


def f_wishart():
    n, V, x, D = S("n"), S("V"), S("Lambda"), S("D")
    return dict(parents=[("WishartPriorMoments", n), ("WishartMoments", V)], x=x,
                logp=n * HALF * log(V) - n * D * HALF * log(Poly.const(2))
                - fn("mgammaln", n * HALF, D) + (n - D - 1) * HALF * log(x) - V * x * HALF)


def f_gaussian():
    mu, L, x, D = S("mu"), S("Lambda"), S("x"), S("D")
    return dict(parents=[(None, _gaussian_parent(mu, L))], x=x,
                logp=-(x - mu) * (x - mu) * L * HALF + log(L) * HALF
                - D * HALF * log(2 * S("pi")))


def f_gaussian_gamma():
    mu, L, x, D = S("mu"), S("Lambda"), S("x"), S("D")
    a, b, tau = S("a"), S("b"), S("tau")
    return dict(parents=[(None, _gaussian_parent(mu, L)), ("GammaPriorMoments", a),
                         ("GammaMoments", b)], x=[x, tau],
                logp=-(x - mu) * (x - mu) * L * tau * HALF + log(L) * HALF
                + D * HALF * log(tau) - D * HALF * log(2 * S("pi"))
                - b * tau + (a - 1) * log(tau) + a * log(b) - lgam(a))


DISTS = [
    Dist("GammaDistribution", ["ss", "ss"], "ss", fixed=f_gamma),
    Dist("PoissonDistribution", ["ss"], "s", fixed=f_poisson),
    Dist("BinomialDistribution", ["v"], "s", K=2, fixed=f_binomial, attrs=("N",)),
    Dist("BernoulliDistribution", ["v"], "s", K=2, fixed=f_binomial, attrs=("N",)),
    Dist("DirichletDistribution", ["vs"], "v", K=2, fixed=f_dirichlet),
    Dist("BetaDistribution", ["vs"], "v", K=2, fixed=f_beta),
    Dist("MultinomialDistribution", ["v"], "v", K=2, fixed=f_multinomial, attrs=("N",)),
    Dist("CategoricalDistribution", ["v"], "v", K=2, fixed=f_categorical, attrs=("N",),
         u_free=True),
    Dist("WishartDistribution", ["ss", "ss"], "ss", fixed=f_wishart, skip_message=(0,)),
    Dist("GaussianDistribution", ["ssss"], "ss", fixed=f_gaussian,
         fixed_cases={"has_limits": False}),
    Dist("GaussianARDDistribution", ["ssss"], "ss", fixed=f_gaussian),
    Dist("GaussianGammaDistribution", ["ssss", "ss", "ss"], "ssss", fixed=f_gaussian_gamma),
]


class View:
    """Formulas of one distribution class read from the source."""

    def __init__(self, ctx, d, funcs):
        self.ctx, self.d, self.funcs, self.p = ctx, d, funcs, ctx.p
        self.slf = self_of(d.cls)
        self.table = {}
        for a in d.attrs:
            self.table[mk("attr", self.slf, a)] = S(a)
        self.u = self.symbols("u", d.u)
        self.phi = self.symbols("phi", d.u)
        self.par = [self.symbols("par%d_" % k, kinds) for k, kinds in enumerate(d.parents)]
        self.fixed_cases = {mk("attr", self.slf, k): v for k, v in d.fixed_cases.items()}
        self.cache = {}

    def symbols(self, prefix, kinds):
        """(tuple term, list of Poly or component tuples)"""
        terms, polys = [], []
        for c, kind in enumerate(kinds):
            t = param("%s%d" % (prefix, c))
            if kind == "v":
                v = tuple(S("%s%d[%d]" % (prefix, c, k)) for k in range(self.d.K))
            else:
                v = S("%s%d" % (prefix, c))
            self.table[t] = v
            terms.append(t)
            polys.append(v)
        return mk("tuple", *terms), polys

    def build(self, method, args=(), kwargs=None, cls=None):
        key = (cls or self.d.cls, method, tuple(args), tuple(sorted((kwargs or {}).items())))
        if key not in self.cache:
            b = build(self.p, cls or self.d.cls, method, Policy(opaque_funcs=self.funcs),
                      args=args, kwargs=kwargs)
            self.ctx.saw(b)
            self.cache[key] = b
        return self.cache[key].ret

    def method_where(self, method):
        m = self.p.find_method(self.p.get_class(self.d.cls), method)
        return m.where if m is not None else self.d.cls

    def eraser(self, cases):
        return Erase(self.table, cases, self.d.K)

    def value(self, t, kind, cases):
        e = self.eraser(cases)
        if kind == "v":
            return tuple(e.at(k)(t) for k in range(self.d.K))
        return e(t)

    def seq(self, t, kinds, cases, what):
        if t is None:
            raise Undecided("%s returns nothing" % what)
        items = strip_seq(t, cases)
        if len(items) != len(kinds):
            raise Undecided("%s returns %d components, expected %d"
                            % (what, len(items), len(kinds)))
        return [self.value(x, k, cases) for x, k in zip(items, kinds)]

    # ---- formulas ------------------------------------------------------------
    def phi_from_parents(self, cases):
        t = self.build("compute_phi_from_parents", [x for x, _ in self.par], {"mask": TRUE})
        return self.seq(t, self.d.u, cases, "compute_phi_from_parents")

    def cgf_from_parents(self, cases):
        t = self.build("compute_cgf_from_parents", [x for x, _ in self.par])
        return self.value(t, "s", cases)

    def moments_and_cgf(self, cases):
        t = self.build("compute_moments_and_cgf", [self.phi[0]], {"mask": TRUE})
        items = strip_seq(t, cases)
        if len(items) != 2:
            raise Undecided("compute_moments_and_cgf does not return a pair")
        return self.seq(items[0], self.d.u, cases, "moments"), self.value(items[1], "s", cases)

    def message(self, index, cases):
        t = self.build("compute_message_to_parent",
                       [param("parent"), const(index), self.u[0]] + [x for x, _ in self.par])
        return self.seq(t, self.d.parents[index], cases, "compute_message_to_parent")

    def gradient(self, cases):
        g = self.symbols("g", self.d.u)
        t = self.build("compute_gradient", [g[0], self.u[0], self.phi[0]])
        return g[1], t

    def fixed_u_f(self, x_term, cases):
        t = self.build("compute_fixed_moments_and_f", [x_term], {"mask": TRUE})
        items = strip_seq(t, cases)
        if len(items) != 2:
            raise Undecided("compute_fixed_moments_and_f does not return a pair")
        return items

    def log_joint(self, phi, u, g):
        out = g
        for p, v in zip(phi, u):
            out = out + dot(p, v)
        return out


def dot(p, v):
    if isinstance(p, tuple):
        return vsum([a * b for a, b in zip(p, v)])
    return p * v


def atom_of(sym):
    (m,) = sym.d
    return m[0][0]


def flat(seq):
    """[(label, poly)] of a list of scalars and component tuples."""
    out = []
    for i, v in enumerate(seq):
        if isinstance(v, tuple):
            out += [("%d[%d]" % (i, k), x) for k, x in enumerate(v)]
        else:
            out.append(("%d" % i, v))
    return out


def case_name(cases):
    return " [" + ", ".join("%s%s" % ("" if v else "not ", str(c)[:60])
                            for c, v in cases.items()) + "]" if cases else ""

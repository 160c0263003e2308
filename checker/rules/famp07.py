"""P07, axis by axis: the node between arbitrary parents, with a fixed value of its own,
interpreted over index-typed tensors.

 density   sum over the plates, weighted by an arbitrary array, of
           <phi(parents), u(x)> + g(parents) + f(x)  ==  the documented expected
           log-density written as sums over the axes;
           u(x) is the documented sufficient statistic, axis by axis.
"""
import scen
import expscen
import matdomain as md
import npdomain
import tensor as tn
from scen import expected, expand_right
from tensor import Arr, Body, Unsupported


class Spec:
    """Notation for the documented formulas."""

    def __init__(self, w):
        self.w = w

    def E(self, subs, *arrs):
        return npdomain.np_einsum(self.w.it, [subs] + [tn.lift(a) for a in arrs], {})

    def f(self, name, x):
        return npdomain.call(self.w.it, name, [tn.lift(x)], {})

    def sum(self, a, shape, keep):
        """Sum over the axes of shape after the first `keep`."""
        a = tn.broadcast_to(tn.lift(a), shape)
        return tn.sum_axes(a, tuple(range(keep, len(shape))))


def lin(*terms):
    """lin((c, a, b, ..), ...) == sum of c*a*b*..; elementwise."""
    out = None
    for t in terms:
        x = tn.lift(t[0])
        for y in t[1:]:
            x = tn.mul(x, tn.lift(y))
        out = x if out is None else tn.add(out, x)
    return out


HALF = Body.const(1).scale(__import__("fractions").Fraction(1, 2))


def half(s=1):
    return Arr.scalar(HALF.scale(s))


class Densities(Spec):
    """Documented log-densities.  x: value over plates + variable axes; the parents'
    moments as documented for their nodes.  Result: one number per plate."""

    @property
    def log2pi(self):
        return self.log(tn.mul(tn.lift(2), Arr.scalar(Body.atom("pi"))))

    def shape_of(self, sc):
        return self.w.shape(sc.dims[0])

    # value -> documented sufficient statistics
    def T_GaussianARD(self, x, sc):
        d = len(sc.dims[0])
        a, b = "abc"[:d], "xyz"[:d]
        return [x, self.E("...%s,...%s->...%s%s" % (a, b, a, b), x, x)]
    T_Gaussian = T_GaussianARD

    def GaussianARD(self, sc, x, par):
        d = len(sc.dims[0])
        (kind, nm, pl, md), alpha = sc.mean, par[1]
        k = len(md)
        a = "abc"[:k]
        diag = self.E("...%s%s->...%s" % (a, a, a), par[0][1])
        if kind is scen.gaussgamma:
            _, _, tau, logtau = par[0]
        else:
            tau, logtau = tn.lift(1), tn.lift(0)
        m = par[0][0]
        e = lin((half(-1), alpha[0], tau, x, x), (alpha[0], x, m), (half(-1), alpha[0], diag),
                (half(), alpha[1]), (half(), logtau), (half(-1), self.log2pi))
        return self.trailing(e, d, self.shape_of(sc))

    def trailing(self, e, d, dims):
        """Sum over the last d axes, of the lengths `dims`."""
        if d == 0:
            return e
        lead = tn.lift(e).shape()[:-d] if tn.lift(e).ndim > d else ()
        e = tn.broadcast_to(tn.lift(e), tuple(lead) + tuple(dims))
        return tn.sum_axes(e, tuple(range(e.ndim - d, e.ndim)))

    def Gaussian(self, sc, x, par):
        (m, mm), (L, logdet) = par
        D = tn.lift(self.shape_of(sc)[0])
        quad = lin((1, self.E("...i,...j,...ij->...", x, x, L)),
                   (-2, self.E("...i,...j,...ij->...", x, m, L)),
                   (1, self.E("...ij,...ij->...", mm, L)))
        return lin((half(-1), quad), (half(), logdet), (half(-1), D, self.log2pi))

    def T_Gamma(self, x, sc):
        return [x, self.log(x)]

    def log(self, x):
        return self.f("numpy.log", x)

    def gammaln(self, x):
        return self.f("scipy.special.gammaln", x)

    def Gamma(self, sc, x, par):
        (a, lga), (b, logb) = par       # <a>, <log Gamma(a)>
        return lin((a, logb), (-1, lga), (a, self.log(x)), (-1, self.log(x)), (-1, b, x))

    def T_Dirichlet(self, x, sc):
        return [self.log(self.normalized(x))]

    def normalized(self, x):
        return tn.div(x, tn.sum_axes(x, (-1,), keepdims=True))

    def Dirichlet(self, sc, x, par):
        a, logz = par[0]                # <alpha>, <log 1/B(alpha)>
        lp = self.log(self.normalized(x))
        return lin((1, self.E("...i,...i->...", a, lp)), (-1, self.E("...i->...", lp)), (1, logz))

    def T_Beta(self, x, sc):
        return [self.log(pair(x))]

    def Beta(self, sc, x, par):
        a, logz = par[0]
        lp = self.log(pair(x))
        return lin((1, self.E("...i,...i->...", a, lp)), (-1, self.E("...i->...", lp)), (1, logz))

    def T_Multinomial(self, x, sc):
        return [x]
    T_Binomial = T_Poisson = T_Bernoulli = T_Multinomial

    def Multinomial(self, sc, x, par):
        n = self.trials(sc)
        (logp,), = par,
        logp = logp[0] if isinstance(logp, list) else logp
        return lin((1, self.E("...i,...i->...", x, logp)), (1, self.gammaln(lin((n,), (1,)))),
                   (-1, self.E("...i->...", self.gammaln(lin((x,), (1,))))))

    def trials(self, sc):
        return self.w.arr("n", ("N", 1), dtype="i")

    def Binomial(self, sc, x, par, n=None):
        n = self.trials(sc) if n is None else tn.lift(n)
        logp = par[0][0]
        rest = lin((n,), (-1, x))
        lp, lq = self.E("...i,i->...", logp, unit(0)), self.E("...i,i->...", logp, unit(1))
        return lin((x, lp), (rest, lq), (1, self.gammaln(lin((n,), (1,)))),
                   (-1, self.gammaln(lin((x,), (1,)))), (-1, self.gammaln(lin((rest,), (1,)))))

    def Bernoulli(self, sc, x, par):
        return self.Binomial(sc, x, par, 1)

    def Poisson(self, sc, x, par):
        l, logl = par[0]
        return lin((x, logl), (-1, l), (-1, self.gammaln(lin((x,), (1,)))))


    # Gaussian-gamma, Wishart
    def T_GaussianGamma(self, xa, sc):
        x, a = xa
        return [self.E("...,...i->...i", a, x), self.E("...,...i,...j->...ij", a, x, x),
                a, self.log(a)]

    def GaussianGamma(self, sc, xa, par):
        x, t = xa
        (m, mm), (L, logdet), (a, lga), (b, logb) = par
        D = tn.lift(self.shape_of(sc)[0])
        quad = lin((1, self.E("...,...i,...j,...ij->...", t, x, x, L)),
                   (-2, self.E("...,...i,...j,...ij->...", t, x, m, L)),
                   (1, self.E("...,...ij,...ij->...", t, mm, L)))
        logt = self.log(t)
        return lin((half(-1), quad), (half(), logdet), (half(-1), D, self.log2pi), (half(), D, logt),
                   (a, logb), (-1, lga), (a, logt), (-1, logt), (-1, b, t))

    def T_Wishart(self, x, sc):
        return [x, self.logdet(x)]

    def logdet(self, x):
        return md.logdet(x)

    def Wishart(self, sc, x, par):
        n = self.w.arr("n", ("N", 1))
        V, logdet_V = par[0]
        k = tn.lift(self.shape_of(sc)[0])
        ldx = self.logdet(x)
        mg = npdomain.call(self.w.it, "scipy.special.multigammaln",
                           [tn.mul(n, half()), self.shape_of(sc)[0]], {})
        return lin((half(), n, ldx), (half(-1), k, ldx), (half(-1), ldx),
                   (half(-1), self.E("...ij,...ij->...", V, x)), (half(), n, logdet_V),
                   (half(-1), n, k, self.log(tn.lift(2))), (-1, mg))

    # Gaussian Markov chains
    def T_GaussianMarkovChain(self, x, sc):
        a, b = time(x, slice(None, -1), 1), time(x, slice(1, None), 1)
        return [x, self.E("...ni,...nj->...nij", x, x), self.E("...ni,...nj->...nij", a, b)]
    T_VaryingGaussianMarkovChain = T_SwitchingGaussianMarkovChain = T_GaussianMarkovChain

    def chain(self, sc, x, par, rows):
        """rows(x_n, x_{n+1}) -> (<a.s> x_{n+1} and <s'aa s> per row)"""
        (mu, mumu), (L, logdet), (nu, lognu) = par[0], par[1], par[-1]
        T, D = [tn.lift(n) for n in self.shape_of(sc)]
        x0 = tn.getitem(x, (Ellipsis, 0, slice(None)))
        quad = lin((1, self.E("...i,...j,...ij->...", x0, x0, L)),
                   (-2, self.E("...i,...j,...ij->...", x0, mu, L)),
                   (1, self.E("...ij,...ij->...", mumu, L)))
        prev, nxt = time(x, slice(None, -1), 1), time(x, slice(1, None), 1)
        mean, square = rows(prev)
        e = lin((half(-1), nu, nxt, nxt), (nu, nxt, mean), (half(-1), nu, square), (half(), lognu))
        n, d = self.shape_of(sc)
        e = self.trailing(e, 2, (n - 1, d))
        return lin((half(-1), quad), (half(), logdet), (1, e), (half(-1), T, D, self.log2pi))

    def GaussianMarkovChain(self, sc, x, par):
        par = list(par)
        z = par.pop() if len(par) == 5 else None
        A, AA = pad(par[2][0], 2), pad(par[2][1], 3)

        def rows(prev):
            s = prev
            if z is None:
                return (self.E("...di,...i->...d", A, s), self.E("...dij,...i,...j->...d", AA, s, s))
            k = self.w.it.intval(self.shape_of(sc)[1])
            a1, a2 = A_part(A, slice(None, k)), A_part(A, slice(k, None))
            b11 = tn.getitem(AA, (Ellipsis, slice(None, k), slice(None, k)))
            b12 = tn.getitem(AA, (Ellipsis, slice(None, k), slice(k, None)))
            b22 = tn.getitem(AA, (Ellipsis, slice(k, None), slice(k, None)))
            mean = lin((1, self.E("...di,...i->...d", a1, s)), (1, self.E("...di,...i->...d", a2, z[0])))
            sq = lin((1, self.E("...dij,...i,...j->...d", b11, s, s)),
                     (2, self.E("...dij,...i,...j->...d", b12, s, z[0])),
                     (1, self.E("...dij,...ij->...d", b22, z[1])))
            return mean, sq
        return self.chain(sc, x, [par[0], par[1], par[3]], rows)

    def VaryingGaussianMarkovChain(self, sc, x, par):
        (B, BB), (S, SS) = par[2], par[3]
        B, BB = with_time(B, 2, 1), with_time(BB, 4, 1)
        return self.chain(sc, x, [par[0], par[1], par[4]], lambda s: (
            self.E("...dik,...k,...i->...d", B, S, s),
            self.E("...dikjl,...kl,...i,...j->...d", BB, SS, s, s)))

    def SwitchingGaussianMarkovChain(self, sc, x, par):
        (B, BB), (z,) = par[2], par[3]
        B = with_time(B, 1, 2)
        BB = with_time(BB, 2, 2)
        return self.chain(sc, x, [par[0], par[1], par[4]], lambda s: (
            self.E("...kdi,...k,...i->...d", B, z, s),
            self.E("...kdij,...k,...i,...j->...d", BB, z, s, s)))

    # mixtures
    def Mixture(self, sc, x, par):
        z = par[0][0]
        c = sc.cluster
        d = 0 if sc.dist == "Beta" else len(sc.dims[0])
        at = x.ndim - d + c + 1
        x = tn.insert_axis(x, at) if at >= 0 else x
        ld = tn.lift(getattr(self, sc.dist)(getattr(sc, "inner", sc), x, par[1:]))
        if ld.ndim < -c:
            raise Unsupported("no cluster axis")
        perm = [i for i in range(ld.ndim) if i != ld.ndim + c] + [ld.ndim + c]
        ld = tn.permute(ld, perm)
        return self.E("...k,...k->...", z, ld)


def time(x, s, d):
    return tn.getitem(x, (Ellipsis, s) + (slice(None),) * d)


def A_part(A, s):
    return tn.getitem(A, (Ellipsis, s))


def pad(a, nd):
    """At least nd axes."""
    while a.ndim < nd:
        a = tn.insert_axis(a, 0)
    return a


def with_time(B, d, after):
    """A missing time axis before the last `after` plate axes of B (d variable axes)."""
    k = B.ndim - d - after
    return tn.insert_axis(B, k) if k >= 0 else B


def pair(x):
    """(x, 1-x) on a new last axis"""
    x = expand_right(tn.lift(x), 1)
    return tn.add(tn.mul(x, unit(0)), tn.mul(lin((1,), (-1, x)), unit(1)))


def unit(k):
    return Arr((2,), {(i,): Body.const(int(i == k)) for i in range(2)})


# --------------------------------------------------- moments of natural parameters
class Moments(Spec):
    """phi(name): natural parameters over plates + dims; the documented moments and
    log-normaliser of the exponential-family distribution they define."""

    def fn(self, name, x):
        return npdomain.call(self.w.it, name, [tn.lift(x)], {})

    def log(self, x):
        return self.fn("numpy.log", x)

    def exp(self, x):
        return self.fn("numpy.exp", x)

    def psi(self, x):
        return self.fn("scipy.special.psi", x)

    def gammaln(self, x):
        return self.fn("scipy.special.gammaln", x)

    def arr(self, sc, pat, name, dims, sym=0, **kw):
        return self.w.arr(name, tuple(pat) + tuple(dims), sym=sym, **kw)

    def normal(self, h, L, d):
        """mean, covariance and log-determinant of N(inv(L) h, inv(L)); d variable axes"""
        if d == 0:
            C = tn.div(tn.lift(1), L)
            return tn.mul(C, h), C, self.log(L)
        if d == 1:
            C, ld = md.inv(L), md.logdet(L)
            return self.E("...ij,...j->...i", C, h), C, ld
        lead, dims = L.shape()[:L.ndim - 2 * d], L.shape()[L.ndim - d:]
        size = 1
        for n in dims:
            size = tn.simplify_num(tn.to_body(size) * tn.to_body(n))
        flat = tn.reshape(L, tuple(lead) + (size, size))
        C = tn.reshape(md.inv(flat), tuple(lead) + tuple(dims) * 2)
        a, b = "abc"[:d], "xyz"[:d]
        return (self.E("...%s%s,...%s->...%s" % (a, b, b, a), C, h), C, md.logdet(flat))

    def outer(self, x, d):
        a, b = "abc"[:d], "xyz"[:d]
        return self.E("...%s,...%s->...%s%s" % (a, b, a, b), x, x)

    def dot(self, x, y, d):
        a = "abc"[:d]
        return self.E("...%s,...%s->..." % (a, a), x, y)

    def GaussianARD(self, sc, p0, p1):
        dims = sc.dims[0]
        d = len(dims)
        h = self.arr(sc, p0, "h", dims)
        L = self.arr(sc, p1, "X", dims + dims, sym=d)

        def want():
            m, C, ld = self.normal(h, L, d)
            return ([m, tn.add(C, self.outer(m, d))],
                    lin((half(-1), self.dot(m, h, d)), (half(), ld)))
        return [h, lin((half(-1), L))], want
    Gaussian = GaussianARD

    def GaussianGamma(self, sc, p0, p1):
        h = self.arr(sc, p0, "h", ("D",))
        L = self.arr(sc, p1, "X", ("D", "D"), sym=1)
        p2, a = self.arr(sc, p0, "p2", ()), self.arr(sc, p1, "a", ())

        def want():
            m, C, ld = self.normal(h, L, 1)
            b = lin((-1, p2), (half(-1), self.dot(m, h, 1)))
            tau, logtau = tn.div(a, b), lin((1, self.psi(a)), (-1, self.log(b)))
            t = expand_right(tau, 1)
            return ([tn.mul(t, m), tn.add(C, tn.mul(expand_right(t, 1), self.outer(m, 1))), tau, logtau],
                    lin((half(), ld), (a, self.log(b)), (-1, self.gammaln(a))))
        return [h, lin((half(-1), L)), p2, a], want

    def Gamma(self, sc, p0, p1):
        b, a = self.arr(sc, p0, "b", ()), self.arr(sc, p1, "a", ())

        def want():
            return ([tn.div(a, b), lin((1, self.psi(a)), (-1, self.log(b)))],
                    lin((a, self.log(b)), (-1, self.gammaln(a))))
        return [lin((-1, b)), a], want

    def Wishart(self, sc, p0, p1):
        V, a = self.arr(sc, p0, "X", ("D", "D"), sym=1), self.arr(sc, p1, "a", ())
        k = self.w.shape(("D",))[0]

        def want():
            it = self.w.it
            mpsi = it.call(it.cls("bayespy.utils.misc.multidigamma"), [a, k], {})
            mg = npdomain.call(it, "scipy.special.multigammaln", [a, k], {})
            ld = md.logdet(V)
            aa = expand_right(a, 2)
            return ([tn.mul(aa, md.inv(V)), lin((1, mpsi), (-1, ld))],
                    lin((a, ld), (-1, mg)))
        return [lin((-1, V)), a], want

    def Dirichlet(self, sc, p0, p1):
        a = self.arr(sc, p0, "a", sc.dims[0])

        def want():
            s = self.E("...i->...", a)
            return ([lin((1, self.psi(a)), (-1, self.psi(expand_right(s, 1))))],
                    lin((1, self.gammaln(s)), (-1, self.E("...i->...", self.gammaln(a)))))
        return [a], want
    Beta = Dirichlet

    def trials(self, sc):
        if sc.cls in ("Multinomial", "Binomial"):
            return self.w.arr("n", ("N", 1), dtype="i")
        return tn.lift(1)

    def Multinomial(self, sc, p0, p1):
        p, n = self.arr(sc, p0, "p", sc.dims[0]), self.trials(sc)

        def want():
            e = self.exp(p)
            s = self.E("...i->...", e)
            return ([tn.mul(expand_right(n, 1), tn.div(e, expand_right(s, 1)))],
                    lin((-1, n, self.log(s))))
        return [p], want
    Categorical = Multinomial

    def Binomial(self, sc, p0, p1):
        p, n = self.arr(sc, p0, "p", ()), self.trials(sc)

        def want():
            e = self.exp(p)
            s = lin((1,), (1, e))
            return [tn.mul(n, tn.div(e, s))], lin((-1, n, self.log(s)))
        return [p], want
    Bernoulli = Binomial

    def Poisson(self, sc, p0, p1):
        p = self.arr(sc, p0, "p", ())
        return [p], lambda: ([self.exp(p)], lin((-1, self.exp(p))))

    # chains: through the solver and the recursion (which are decided by P10)
    def GaussianMarkovChain(self, sc, p0, p1):
        y = self.arr(sc, p0, "y", sc.dims[0])
        A = self.arr(sc, p1, "X", sc.dims[1], sym=1)
        B = self.arr(sc, p1, "B", sc.dims[2])

        self.w.system = (A, B, y)

        def want():
            it = self.w.it
            V, C, x, ld = it.call(it.cls("bayespy.utils.linalg.block_banded_solve"), [A, B, y], {})
            a, b = time(x, slice(None, -1), 1), time(x, slice(1, None), 1)
            return ([x, tn.add(V, self.E("...i,...j->...ij", x, x)),
                     tn.add(C, self.E("...i,...j->...ij", a, b))],
                    lin((half(-1), self.E("...ni,...ni->...", x, y)), (half(), ld)))
        return [y, lin((half(-1), A)), lin((-1, B))], want

    def CategoricalMarkovChain(self, sc, p0, p1):
        p = self.arr(sc, p0, "p", sc.dims[0])
        P = self.arr(sc, p1, "P", sc.dims[1])

        def want():
            it = self.w.it
            z, zz, g = it.call(it.cls("bayespy.utils.random.alpha_beta_recursion"), [p, P], {})
            return [z, zz], g
        return [p, P], want


def solution(w, args, kw):
    """The solution of the block-tridiagonal system of the specification, as arbitrary
    arrays (the solver is decided by P10); any other system is solved by the program."""
    if kw or len(args) != 3:
        return NotImplemented
    want = w.system
    for a, b in zip(args, want):
        a = tn.lift(a)
        if a.ndim != b.ndim or not scen.same(a, b):
            return NotImplemented
    n = args[0].shape()[-3]
    pat = ("N",)
    return (w.arr("SV", pat + (n, "D", "D"), sym=1), w.arr("SC", pat + (n - 1, "D", "D")),
            w.arr("SX", pat + (n, "D")), w.arr("Sl", pat))


def moments(ctx, w, sc, dist, p0, p1):
    where = ctx.class_where(dist)
    lab = "%s, phi[%s],[%s]" % (sc.name, ",".join(map(str, p0)), ",".join(map(str, p1)))
    spec = Moments(w)
    with ctx.instance("axesphi", lab):
        w.reset()
        srcs, node = sc.build(w)
        d = w.get(node, "_distribution")
        phi, want = getattr(spec, dist)(sc, p0, p1)
        u, g = w.call(d, "compute_moments_and_cgf", list(phi))
        wu, wg = expected(want)
        if len(u) != len(wu):
            ctx.bad("axesphi", lab, "%d moments instead of %d" % (len(u), len(wu)), where)
            return
        for c, (a, b) in enumerate(zip(list(u) + [g], wu + [wg])):
            full = w.call(node, "get_shape", c) if c < len(wu) else w.get(node, "plates")
            what = "moment %d" % c if c < len(wu) else "log-normaliser"
            e = tn.sub(tn.broadcast_to(tn.lift(a), full),
                       expected(lambda: tn.broadcast_to(tn.lift(b), full)))
            ok = all(x.is_zero() or md.resolve(x).is_zero() for x in e.data.values())
            ctx.verdict("axesphi", "%s %s" % (lab, what), ok, "is %s instead of %s" % (
                str(a)[:300], str(b)[:300]), where)


def pairs(sc):
    P = tuple(sc.plates)
    out = [(P, P)] + [(P, q) for q in scen.patterns(P)[1:]] + [(q, P) for q in scen.patterns(P)[1:]]
    out += [(q, q) for q in scen.patterns(P)[1:]]
    return out


# ------------------------------------------------------------------ the rule
SIZES = {"N": 2, "K": 3, "L": 3, "M": 2}
NO_DENSITY = {"CategoricalMarkovChain": "fixed values of a categorical Markov chain are not "
              "implemented",
              "Categorical": "the fixed value is an index"}


def value(w, sc, pat):
    """An arbitrary fixed value of the node, over the given plates."""
    dist = sc.base
    pat = tuple(sc.plates if pat is None else pat)
    dims = tuple(sc.dims[0])
    if dist == "GaussianGamma":
        return (w.arr("x", pat + dims), w.arr("t", pat))
    if dist == "Wishart":
        return w.arr("x", pat + dims, sym=1)
    if dist == "Beta":
        return w.arr("x", pat)
    if dist in ("Multinomial", "Binomial", "Bernoulli", "Poisson"):
        return w.arr("x", pat + dims, dtype="i")
    return w.arr("x", pat + dims)


def cases(sc):
    out = [({}, None)]
    for p in scen.patterns(sc.plates)[1:]:
        if sc.own_lead or len(p) == len(sc.plates):
            out.append(({}, p))
    for k, (kind, nm, pl, dims) in enumerate(sc.parents):
        for p in scen.patterns(pl)[1:]:
            if sc.lead or len(p) == len(pl):
                out.append(({k: p}, None))
    out.append(({k: (1,) * len(p[2]) for k, p in enumerate(sc.parents)}, None))
    out.append(({k: (1,) * len(p[2]) for k, p in enumerate(sc.parents)}, (1,) * len(sc.plates)))
    return out


def run(ctx, only=None):
    w = scen.World(ctx, sizes=SIZES)
    for sc in expscen.table():
        dist = sc.base
        if dist in NO_DENSITY or (only and only not in sc.name):
            continue
        if not hasattr(Densities, dist):
            continue
        for pats, own in cases(sc):
            density(ctx, w, sc, dist, pats, own)
    def gmc(n):
        chain = [(n, "D"), (n, "D", "D"), (n - 1, "D", "D")]
        return expscen.Exp(
            "GaussianMarkovChain", "%d time instances" % n,
            [(scen.gaussian, "m", (), ("D",)), (scen.wishart, "L", (), ("D",)),
             (scen.gaussian, "A", ("D",), ("D",)), (scen.gamma, "v", ("D",), ())],
            lambda w, o: w.new("GaussianMarkovChain", *o, n=n, initialize=False,
                               plates=w.shape(("N",))), ("N",), chain)
    more = [ard(("D", 1)), ard((1, "D")), gmc(2), gmc(4)]
    done = set()
    for sc in expscen.table() + more:
        dist = sc.base
        key = (dist, sc.plates, tuple(map(tuple, sc.dims)), sc.cls == "Mixture")
        if only and only not in sc.name or key in done:
            continue
        done.add(key)
        if not hasattr(Moments, dist) or sc.dims[0] in ((2, 3), (4, 2)) or sc.dims[0][:1] == (4,) and \
                sc not in more:
            continue            # (matrices of a fixed size)
        big = (w if sc.dims[0] != (4, "D") else
               scen.World(ctx, sizes=SIZES, overrides={
                   "bayespy.utils.linalg.block_banded_solve": lambda it, a, k: solution(big, a, k)}))
        for p0, p1 in pairs(sc):
            moments(ctx, big, sc, dist, p0, p1)
    ctx.functions.update(w.it.functions)


def ard(shape):
    """A Gaussian variable of any axes."""
    return expscen.Exp(
        "GaussianARD", "shape (%s)" % ",".join(map(str, shape)),
        [(scen.gaussian, "m", (), ()), (scen.gamma, "a", (), ())],
        lambda w, o: w.new("GaussianARD", *o, shape=w.shape(shape), plates=w.shape(("N", "K")),
                           initialize=False), ("N", "K"), [shape, shape * 2])


def on_simplex(d, names, k):
    """d with z[.., k-1] = 1 - sum of the other z[.., j] for the categorical moments."""
    names = set(names)
    while len(names) > 1:
        d = on_simplex(d, {names.pop()}, k)
    out = tn.ZERO
    for (fs, bd), c in d.t.items():
        hit = [i for i, (n, ix, q) in enumerate(fs) if n in names and ix and ix[-1] == k - 1
               and q == 1]
        if len(hit) != 1:
            out = out + Body({(fs, bd): c})
            continue
        n, ix, q = fs[hit[0]]
        rest = Body({(fs[:hit[0]] + fs[hit[0] + 1:], bd): c})
        one = Body.const(1)
        for j in range(k - 1):
            one = one - Body.atom(n, ix[:-1] + (j,))
        out = out + rest * one
    return out


def density(ctx, w, sc, dist, pats, own):
    where = ctx.class_where(dist)
    lab = sc.name
    for k, p in pats.items():
        lab += " moments of %s%s" % (sc.parents[k][1], scen.describe(sc.parents[k][2], p))
    if own is not None:
        lab += " value[%s]" % ",".join(map(str, own))
    spec = Densities(w)
    with ctx.instance("axes", lab):
        w.reset()
        srcs, node = sc.build(w, pats)
        x = value(w, sc, own)
        d = w.get(node, "_distribution")
        us = w.call(node, "_message_from_parents")
        plates = w.get(node, "plates")
        W = w.arr("W", sc.plates)
        u, f = w.call(d, "compute_fixed_moments_and_f", x)
        phi = w.call(d, "compute_phi_from_parents", *us)
        g = w.call(d, "compute_cgf_from_parents", *us)
        T = expected(lambda: getattr(spec, "T_" + dist)(x, sc))
        for c, (a, b) in enumerate(zip(u, T)):
            full = w.call(node, "get_shape", c)
            ctx.verdict("axes", "%s statistic %d" % (lab, c), scen.same(a, b, full),
                        "the moments of a fixed value are %s instead of %s" % (
                            str(a)[:300], str(b)[:300]), where)
        L = None
        for c, (a, b) in enumerate(zip(phi, u)):
            t = scen.contract(tn.mul(expand_right(W, len(sc.dims[c])), tn.lift(a)), b,
                              w.call(node, "get_shape", c))
            L = t if L is None else L + t
        L = L + scen.contract(g, W, plates) + scen.contract(f, W, plates)
        want = expected(lambda: scen.contract(
            getattr(spec, sc.cls)(sc, x, [list(s.u) for s in srcs]), W, plates))
        z = {n for s in srcs if s.kind is scen.categorical for n in s.names}
        ok = L == want or bool(z) and on_simplex(L - want, z, SIZES["K"]).is_zero()
        ctx.verdict("axes", lab + " density", ok,
                    "phi.u + g + f is %s; the documented log-density is %s" % (
                        str(L - want)[:400] + " more than", str(want)[:400]), where)

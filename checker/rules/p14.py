"""P14: drawing follows the variable's current distribution, independently over plates.

The node is interpreted with arbitrary natural parameters (in every broadcast form);
numpy's generators are arbitrary arrays recorded with their parameters.

 normal    Gaussian variables are an affine map of standard normal draws: the constant
           part is inv(Lambda) phi0, the product of the linear part with its transpose
           is inv(Lambda) within each plate and zero between plates; for Gaussian-gamma
           variables given the scale, which is drawn from its marginal gamma law;
 law       every other variable is the documented transformation of the documented
           draws, with draws of their own for each plate and the parameters of the
           plate;
 chain     for a categorical Markov chain the product of the probabilities of the
           successive draws is the joint probability of the chain.
"""
import ast
import itertools
import os
from fractions import Fraction

import draws
import expscen
import matdomain as md
import npdomain
import scen
import tensor as tn
from scen import expected, expand_right
from tensor import Arr, Body, Unsupported
from rules import famp07
from rules.famp07 import lin, half

NO_DRAWS = {"Wishart", "GaussianMarkovChain", "VaryingGaussianMarkovChain",
            "SwitchingGaussianMarkovChain", "CategoricalMarkovChain"}
SIZES = {"N": 2, "K": 3, "L": 3, "M": 2}
KNOWN = ("inv", "chol", "lchol", "choltri00", "choltri10")


class Wrong(Exception):
    pass


class Laws(famp07.Moments):
    def setup(self, ctx, sc, node, phi):
        self.ctx, self.sc, self.node, self.phi = ctx, sc, node, phi
        self.plates = self.w.shape(sc.plates)

    def over(self, a, *trailing):
        return tn.broadcast_to(tn.lift(a), tuple(self.plates) + tuple(trailing))

    def kinds(self, *want):
        got = [d.kind for d in self.w.it.draws]
        if any(k not in ("normal", "uniform", "gamma", "beta", "poisson", "binomial", "multinomial")
               for k in got):
            raise Unsupported("draws of %s" % ", ".join(got))
        if sorted(got) != sorted(want):
            if set(got) == set(want) and len(got) < len(want):
                raise Wrong("%d draws where %d are needed" % (len(got), len(want)))
            raise Unsupported("draws of %s" % (", ".join(got) or "nothing"))
        return self.w.it.draws

    def shape(self, x, *trailing):
        full = tuple(self.plates) + tuple(trailing)
        x = tn.lift(x)
        if not (x.ndim == len(full) and all(tn.to_body(a) == tn.to_body(b)
                                            for a, b in zip(x.shape(), full))):
            raise Wrong("the sample has shape %s instead of %s" % (x.shape(), full))
        return x

    def equal(self, what, got, want, *trailing):
        got, want = self.over(got, *trailing), expected(lambda: self.over(want, *trailing))
        for pos, e in tn.sub(got, want).data.items():
            if not (e.is_zero() or md.resolve(e).is_zero()):
                raise Wrong("%s is %s instead of %s" % (
                    what, str(got.data[pos])[:250], str(want.data[pos])[:250]))

    # ------------------------------------------------------------ normal
    def normal_law(self, x, dims, h, L, d, want=None):
        """x == affine map of normal draws with law N(inv(L) h, inv(L))."""
        dims = tuple(self.w.shape(dims))
        x = self.shape(x, *dims)
        zs = [z for z in self.w.it.draws if z.kind == "normal"]
        if not zs:
            raise Unsupported("no normal draws")
        mean, cov, _ = want or expected(lambda: self.normal(h, L, d))
        const, cross = x, None
        for z in zs:
            const, M = draws.linear_in(const, z)
            nx, nz = x.ndim, z.arr.ndim
            a = ["x%d" % k for k in range(nx)]
            b = ["y%d" % k for k in range(nx)]
            k = ["z%d" % k for k in range(nz)]
            c = tn.einsum([M, M], [a + k, b + k], a + b)
            cross = c if cross is None else tn.add(cross, c)
        self.equal("the mean", const, mean, *dims)
        cov = expected(lambda: self.over(cov, *(dims + dims)))
        p = len(self.plates)
        spans = [range(n) if isinstance(n, int) else None for n in self.plates]
        if None in spans:
            raise Unsupported("symbolic plates")
        every = (slice(None),) * len(dims)
        for one in itertools.product(*spans):
            for two in itertools.product(*spans):
                got = tn.getitem(cross, one + every + two + every)
                if one == two:
                    e = tn.sub(got, expected(lambda: tn.getitem(cov, one)))
                else:
                    e = got
                for v in e.data.values():
                    v = squares(v)
                    if not v.is_zero():
                        opaque = [n for n in v.names() if isinstance(n, tuple) and n
                                  and isinstance(n[0], str) and len(n) == 2
                                  and isinstance(n[1], md.Mat) and n[0] not in KNOWN]
                        if opaque:
                            raise Unsupported("products of %s" % opaque[0][0])
                        raise Wrong("the covariance of plates %s and %s is %s instead of %s" % (
                            one, two, str(got)[:250],
                            str(tn.getitem(cov, one))[:250] if one == two else "zero"))

    def GaussianARD(self, x):
        h, L = self.phi[0], lin((-2, self.phi[1]))
        self.normal_law(x, self.sc.dims[0], h, L, len(self.sc.dims[0]))
    Gaussian = GaussianARD

    def GaussianGamma(self, xt):
        x, t = xt
        h, L, p2, a = self.phi[0], lin((-2, self.phi[1])), self.phi[2], self.phi[3]
        g = [d for d in self.w.it.draws if d.kind == "gamma"]
        if len(g) != 1 or any(d.kind not in ("gamma", "normal") for d in self.w.it.draws):
            raise Unsupported("draws of %s" % ", ".join(d.kind for d in self.w.it.draws))

        def want():
            m, C, _ = self.normal(h, L, 1)
            return m, C, lin((-1, p2), (half(-1), self.dot(m, h, 1)))
        m, C, b = expected(want)
        t = self.shape(t)
        self.equal("the shape parameter of the scale", g[0].params[0], a)
        self.own_draw(g[0])
        self.equal("the scale", t, expected(lambda: tn.div(g[0].arr, b)))
        self.normal_law(x, self.sc.dims[0], h, L, 1, (m, tn.div(C, expand_right(t, 2)), None))

    def own_draw(self, d, *trailing):
        self.shape(d.arr, *trailing)

    # ------------------------------------------------------------ others
    def Gamma(self, x):
        g, = self.kinds("gamma")
        self.shape(x)
        self.own_draw(g)
        self.equal("the shape parameter", g.params[0], self.phi[1])
        self.equal("the sample", x, expected(lambda: tn.div(g.arr, lin((-1, self.phi[0])))))

    def simplex(self):
        g, = self.kinds("gamma")
        k = self.w.shape(self.sc.dims[0])
        self.own_draw(g, *k)
        self.equal("the concentration", g.params[0], self.phi[0], *k)
        return tn.div(g.arr, tn.sum_axes(g.arr, (-1,), keepdims=True))

    def Dirichlet(self, x):
        k = self.w.shape(self.sc.dims[0])
        self.shape(x, *k)
        self.equal("the sample", x, self.simplex(), *k)

    def Beta(self, x):
        p = self.simplex()
        self.shape(x)
        self.equal("the sample", x, expected(lambda: tn.getitem(p, (Ellipsis, 0))))

    def softmax(self):
        e = self.exp(self.phi[0])
        return tn.div(e, expand_right(self.E("...i->...", e), 1))

    def Categorical(self, x):
        u, = self.kinds("uniform")
        self.shape(x)
        self.own_draw(u)
        n = self.w.it.intval(self.w.shape(self.sc.dims[0])[0])
        for op in (ast.Lt(), ast.LtE()):
            def want():
                p, acc, out = self.softmax(), tn.lift(0), tn.lift(0)
                for k in range(n):
                    acc = tn.add(acc, tn.getitem(p, (Ellipsis, k)))
                    c = npdomain.arr_cmp(op, tn.mul(acc, tn.ones(self.plates)), u.arr)
                    out = tn.add(out, c)
                return out
            try:
                self.equal("the sample", x, expected(want))
                return
            except Wrong as e:
                err = e
        raise err

    def Multinomial(self, x):
        k = self.w.shape(self.sc.dims[0])
        x = self.shape(x, *k)
        by = {d.name: d for d in self.w.it.draws}
        self.kinds(*["multinomial"] * len(set(p[:len(self.plates)] for p in x.data)))
        n = expected(lambda: self.over(self.trials(self.sc)))
        p = expected(lambda: self.over(self.softmax(), *k))
        seen = set()
        for pos in itertools.product(*[range(v) for v in self.plates]):
            row = tn.getitem(x, pos)
            hits = [d for d in by.values() if scen.same(row, d.arr, k)]
            if len(hits) != 1:
                raise Unsupported("sample of plate %s" % (pos,))
            d = hits[0]
            if d.name in seen:
                raise Wrong("several plates share one draw")
            seen.add(d.name)
            if not scen.same(d.params[0], tn.getitem(n, pos)):
                raise Wrong("plate %s draws %s trials" % (pos, d.params[0]))
            e = tn.sub(tn.lift(d.params[1]), tn.getitem(p, pos))
            if not all(v.is_zero() for v in e.data.values()):
                raise Wrong("plate %s draws with probabilities %s instead of %s" % (
                    pos, str(d.params[1])[:200], str(tn.getitem(p, pos))[:200]))

    def Binomial(self, x):
        d, = self.kinds("binomial")
        self.shape(x)
        self.own_draw(d)
        e = self.exp(self.phi[0])
        self.equal("the number of trials", d.params[0], self.trials(self.sc))
        self.equal("the probability", d.params[1], expected(lambda: tn.div(e, lin((1,), (1, e)))))
        self.equal("the sample", x, d.arr)
    Bernoulli = Binomial

    def Poisson(self, x):
        d, = self.kinds("poisson")
        self.shape(x)
        self.own_draw(d)
        self.equal("the rate", d.params[0], expected(lambda: self.exp(self.phi[0])))
        self.equal("the sample", x, d.arr)


def squares(body, limit=60):
    """Rewrite sum_k choltri00[i,k] choltri00[j,k] -> inv[i,j] and the products of Cholesky
    factors which give the matrix back; then cancel the matrix with its inverse."""
    for _ in range(limit):
        body = md.resolve(body)
        r = square_step(body)
        if r is None:
            return body
        body = r
    raise Unsupported("too many rewriting steps")


# name -> (which index of the pair is summed, is the product the inverse?)
PRODUCTS = {("choltri00", 1): True, ("chol", 0): False, ("lchol", 1): False}


def square_step(body):
    for (fs, bd), c in body.t.items():
        for f in fs:
            n, ix, q = f
            if not (isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], md.Mat)):
                continue
            for side in (0, 1):
                inverse = PRODUCTS.get((n[0], side))
                if inverse is None:
                    continue
                k = ix[-2:][side]
                if k not in bd:
                    continue
                if q == 2:
                    other, rest = ix, [g for g in fs if g is not f]
                elif q == 1:
                    hit = [g for g in fs if g is not f and g[0] == n and g[2] == 1
                           and g[1][:-2] == ix[:-2] and g[1][-2:][side] == k]
                    if len(hit) != 1:
                        continue
                    other, rest = hit[0][1], [g for g in fs if g is not f and g is not hit[0]]
                else:
                    continue
                if any(k in g[1] for g in rest):
                    continue
                i, j = ix[-2:][1 - side], other[-2:][1 - side]
                if k in (i, j):
                    continue
                m = n[1]
                if inverse:
                    new = md.fn("inv", m, ix[:-2], i, j)
                else:
                    ren = dict(zip(m.extra, ix[:-2]))
                    ren.update({m.row: i, m.col: j})
                    new = m.body.rename(ren)
                out = Body({(tuple(rest), ()): c}) * new
                t = dict(body.t)
                del t[(fs, bd)]
                return Body(t) + out.bind([b for b in bd if b != k])
    return None


def judge(ctx, w, sc, dist, p0, p1):
    where = ctx.class_where(dist)
    rule = "normal" if dist.startswith("Gaussian") else "law"
    lab = "%s, phi[%s],[%s]" % (sc.name, ",".join(map(str, p0)), ",".join(map(str, p1)))
    laws = Laws(w)
    with ctx.instance(rule, lab):
        w.reset()
        w.it.draws = []
        srcs, node = sc.build(w)
        phi, _ = getattr(laws, "phi_of")(sc, dist, p0, p1)
        w.it.setattr(node, "phi", list(phi))
        laws.setup(ctx, sc, node, phi)
        x = w.call(node, "random")
        try:
            getattr(laws, dist)(x)
        except Wrong as e:
            ctx.bad(rule, lab, str(e), where)
        else:
            ctx.ok(rule, lab, where)


def phi_of(self, sc, dist, p0, p1):
    return getattr(famp07.Moments, dist)(self, sc, p0, p1)


Laws.phi_of = phi_of


# ------------------------------------------------------------------ chain
STATES = 2
DRAWING = "bayespy.utils.random.categorical"


def chain(ctx, w, sc, p0, p1):
    """Each sequence of outcomes of the successive categorical draws."""
    where = ctx.class_where("CategoricalMarkovChain")
    lab = "%s, phi[%s],[%s]" % (sc.name, ",".join(map(str, p0)), ",".join(map(str, p1)))
    N = sc.dims[1][0] + 1
    spec = Laws(w)
    with ctx.instance("chain", lab):
        for seq in itertools.product(range(STATES), repeat=N):
            w.reset()
            plates = w.shape(sc.plates)
            rows = [seq, tuple(1 - z for z in seq)] if plates else [seq]
            w.chosen = [list(c) if plates else c[0] for c in zip(*rows)]
            w.seen = []
            srcs, node = sc.build(w)
            (p, P), _ = spec.CategoricalMarkovChain(sc, p0, p1)
            w.it.setattr(node, "phi", [p, P])
            z = tn.lift(w.call(node, "random"))
            if len(w.seen) != N:
                raise Unsupported("%d categorical draws for %d states" % (len(w.seen), N))
            if z.ndim != len(plates) + 1:
                ctx.bad("chain", lab, "the sample has shape %s" % (z.shape(),), where)
                return
            p, P = expected(lambda: (tn.broadcast_to(p, plates + w.shape(sc.dims[0])),
                                     tn.broadcast_to(P, plates + w.shape(sc.dims[1]))))
            for r, row in enumerate(rows):
                at = (r,) if plates else ()
                for t in range(N):
                    if tn.getitem(z, at + (t,)).body().constant() != row[t]:
                        ctx.bad("chain", lab, "state %d of the sample is not the %s draw" % (
                            t, "first" if t == 0 else "following"), where)
                        return
                prob = tn.ONE
                for q, s in zip(w.seen, row):
                    q = tn.broadcast_to(q, plates + (STATES,))
                    q = tn.div(q, tn.sum_axes(q, (-1,), keepdims=True))
                    prob = prob * tn.getitem(q, at + (s,)).body()

                def weight(c):
                    v = tn.getitem(p, at + (c[0],))
                    for t in range(N - 1):
                        v = tn.add(v, tn.getitem(P, at + (t, c[t], c[t + 1])))
                    return spec.exp(v).body()
                total = tn.ZERO
                for c in itertools.product(range(STATES), repeat=N):
                    total = total + expected(lambda: weight(c))
                want = expected(lambda: weight(row))
                d = tn.clear(prob * total - want)
                if not d.is_zero():
                    ctx.bad("chain", lab, "states %s are drawn with probability %s, which is not "
                            "proportional to %s" % (list(row), str(prob)[:300], str(want)[:200]), where)
                    return
        ctx.ok("chain", lab, where)


def chains():
    """Two and three states in a row, with and without plates."""
    out = []
    for plates, n in (((), 3), (("N",), 3), (("N",), 2)):
        parents = [(scen.dirichlet, "p", plates, ("D",)),
                   (scen.dirichlet, "P", plates + (n - 1, "D"), ("D",))]

        def make(w, o, plates=plates):
            return w.new("CategoricalMarkovChain", *o, initialize=False, plates=w.shape(plates))
        out.append(expscen.Exp("CategoricalMarkovChain", "%d states, plates [%s]" % (
            n, ",".join(plates)), parents, make, plates, [("D",), (n - 1, "D", "D")]))
    return out


def recorded(w, args, kw):
    p = tn.lift(args[0])
    size = args[1] if len(args) > 1 else kw.get("size")
    if size is None:
        size = p.shape()[:-1]
    size = npdomain.as_shape(w.it, size)
    p = tn.broadcast_to(p, tuple(size) + p.shape()[-1:])
    if len(w.seen) >= len(w.chosen):
        raise Unsupported("more draws than states")
    z = w.chosen[len(w.seen)]
    w.seen.append(p)
    if isinstance(z, int):
        return Arr.scalar(Body.const(z), "i")
    return Arr((len(z),), {(k,): Body.const(v) for k, v in enumerate(z)}, "i")


def run(ctx):
    scen.prepare(ctx)
    ctx.rule("normal", "Gaussian draws have mean inv(L) phi0 and covariance inv(L) in each plate, "
             "and none between plates", floor=20)
    ctx.rule("law", "the sample is the documented transformation of the documented draws, with "
             "draws of their own for each plate", floor=20)
    ctx.rule("chain", "the product of the probabilities of the successive draws is the joint "
             "probability of the chain", floor=2)
    only = os.environ.get("P14_ONLY")
    w = scen.World(ctx, sizes=SIZES)
    wd = scen.World(ctx, sizes=dict(SIZES, D=3))
    for sc in expscen.table() + [famp07.ard(("D", 1)), famp07.ard((1, "D"))]:
        dist = sc.base
        if dist in NO_DRAWS or (only and only not in sc.name) \
                or sc.dims[0] == (2, 3):        # (matrices of a fixed size)
            continue
        for p0, p1 in famp07.pairs(sc):
            judge(ctx, w if dist.startswith("Gaussian") else wd, sc, dist, p0, p1)
    wc = scen.World(ctx, {DRAWING: lambda it, a, k: recorded(wc, a, k)},
                    sizes=dict(SIZES, D=STATES))
    for sc in chains():
        if not only or only in sc.name:
            for p0, p1 in [(sc.plates, sc.plates)] + [(q, q) for q in scen.patterns(sc.plates)[1:]]:
                chain(ctx, wc, sc, p0, p1)
    ctx.functions.update(w.it.functions | wd.it.functions | wc.it.functions)

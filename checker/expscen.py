"""Scenarios of the stochastic nodes: each node class between arbitrary parents."""
import copy

from scen import *


class Exp:
    """A stochastic node: parents (kind, name, plates, dims); make(w, objs) -> node."""

    def __init__(self, cls, label, parents, make, plates, dims, skip=(), lead=True):
        self.cls, self.label, self.parents, self.make = cls, label, parents, make
        self.plates, self.dims, self.skip = tuple(plates), dims, skip
        self.lead = lead            # leading plate axes of the parents' moments may be missing
        self.own_lead = cls != "Mixture"    # the same of the own moments

    @property
    def base(self):
        """Distribution of one component."""
        d = getattr(self, "dist", self.cls)
        return self.inner.base if d == "Mixture" else d

    @property
    def mean(self):
        """The parent which is the mean of a Gaussian variable."""
        return self.parents[[k[0].__name__ for k in self.parents].count("categorical")
                            if self.cls == "Mixture" else 0]

    @property
    def name(self):
        return "%s: %s" % (self.cls, self.label)

    def build(self, w, pats=None):
        srcs = [Src(w, kind, name, plates, dims, (pats or {}).get(k))
                for k, (kind, name, plates, dims) in enumerate(self.parents)]
        return srcs, self.make(w, [s.obj for s in srcs])

    def own(self, w, node, pat=None, name="u"):
        """Arbitrary moments of the node itself."""
        return [w.arr(name + str(c), tuple(self.plates if pat is None else pat) + tuple(d), sym=s)
                for c, (d, s) in enumerate(zip(self.dims, sym_of(w, node)))]


G, GA, W = gaussian, gamma, wishart


def table():
    S = []

    def add(cls, label, parents, plates, dims, make=None, skip=(), lead=True, **kw):
        if make is None:
            def make(w, o):
                return w.new(cls, *o, initialize=False, plates=w.shape(plates), **kw)
        S.append(Exp(cls, label, parents, make, plates, dims, skip, lead))

    # Gaussian family
    add("GaussianARD", "scalar, mu[N,1], alpha[K]",
        [(G, "m", ("N", 1), ()), (GA, "a", ("K",), ())], ("N", "K"), [(), ()])
    add("GaussianARD", "scalar, mu[], alpha[N]",
        [(G, "m", (), ()), (GA, "a", ("N",), ())], ("N",), [(), ()])
    def ard(label, parents, shape):
        add("GaussianARD", label, parents, ("N",), [shape, shape + shape],
            make=lambda w, o: w.new("GaussianARD", *o, shape=w.shape(shape),
                                    plates=w.shape(("N",)), initialize=False))
    V, M = ("D",), (2, 3)
    ard("vector, mu[N] vector, alpha[N,D]", [(G, "m", ("N",), V), (GA, "a", ("N", "D"), ())], V)
    ard("vector, mu[] vector, alpha[N,1]", [(G, "m", (), V), (GA, "a", ("N", 1), ())], V)
    ard("vector, mu[N] vector, alpha[]", [(G, "m", ("N",), V), (GA, "a", (), ())], V)
    ard("vector, mu[N,D] scalar, alpha[D]", [(G, "m", ("N", "D"), ()), (GA, "a", ("D",), ())], V)
    ard("vector, mu[N,1] scalar, alpha[1]", [(G, "m", ("N", 1), ()), (GA, "a", (1,), ())], V)
    ard("vector, gaussian-gamma mu[N,D] scalar, alpha[D]",
        [(gaussgamma, "m", ("N", "D"), ()), (GA, "a", ("D",), ())], V)
    ard("matrix, mu[N,2] vector, alpha[2,3]",
        [(G, "m", ("N", 2), (3,)), (GA, "a", (2, 3), ())], M)
    ard("matrix, mu[] matrix, alpha[N,1,3]", [(G, "m", (), M), (GA, "a", ("N", 1, 3), ())], M)
    add("Gaussian", "mu[N,1], Lambda[K]",
        [(G, "m", ("N", 1), ("D",)), (W, "L", ("K",), ("D",))], ("N", "K"), [("D",), ("D", "D")])
    add("Gaussian", "mu[], Lambda[N]",
        [(G, "m", (), ("D",)), (W, "L", ("N",), ("D",))], ("N",), [("D",), ("D", "D")])
    add("GaussianGamma", "mu[N,1], Lambda[K], a[], b[N,K]",
        [(G, "m", ("N", 1), ("D",)), (W, "L", ("K",), ("D",)), (gammaprior, "a", (), ()),
         (GA, "b", ("N", "K"), ())], ("N", "K"), [("D",), ("D", "D"), (), ()])
    # gamma, Wishart
    add("Gamma", "a[N,1], b[K]", [(gammaprior, "a", ("N", 1), ()), (GA, "b", ("K",), ())],
        ("N", "K"), [(), ()])
    add("Wishart", "V[K]", [(wishart, "V", ("K",), ("D",))], ("N", "K"), [("D", "D"), ()],
        make=lambda w, o: w.new("Wishart", w.arr("n", ("N", 1)), *o, initialize=False,
                                plates=w.shape(("N", "K"))))
    # discrete
    add("Dirichlet", "alpha[N]", [(concentration, "a", ("N",), ("D",))], ("N",), [("D",)])
    add("Beta", "alpha[N]", [(concentration, "a", ("N",), (2,))], ("N",), [(2,)])
    add("Categorical", "p[K]", [(dirichlet, "p", ("K",), ("D",))], ("N", "K"), [("D",)])
    add("Multinomial", "p[K]", [(dirichlet, "p", ("K",), ("D",))], ("N", "K"), [("D",)],
        make=lambda w, o: w.new("Multinomial", w.arr("n", ("N", 1), dtype="i"), *o, initialize=False,
                                plates=w.shape(("N", "K"))))
    add("Bernoulli", "p[K]", [(beta, "p", ("K",), ())], ("N", "K"), [()])
    add("Binomial", "p[K]", [(beta, "p", ("K",), ())], ("N", "K"), [()],
        make=lambda w, o: w.new("Binomial", w.arr("n", ("N", 1), dtype="i"), *o, initialize=False,
                                plates=w.shape(("N", "K"))))
    add("Poisson", "l[K]", [(GA, "l", ("K",), ())], ("N", "K"), [()])
    # chains
    add("CategoricalMarkovChain", "p0[N], P[N,3]",
        [(dirichlet, "p", ("N",), ("D",)), (dirichlet, "P", ("N", 3, "D"), ("D",))], ("N",),
        [("D",), (3, "D", "D")],
        make=lambda w, o: w.new("CategoricalMarkovChain", *o, initialize=False, plates=w.shape(("N",))))
    add("CategoricalMarkovChain", "p0[], P[1]",
        [(dirichlet, "p", (), ("D",)), (dirichlet, "P", ("D",), ("D",))], (),
        [("D",), (3, "D", "D")],
        make=lambda w, o: w.new("CategoricalMarkovChain", *o, initialize=False, states=4))
    # Gaussian Markov chains (4 time instances)
    chain = [(4, "D"), (4, "D", "D"), (3, "D", "D")]

    def gmc_(label, parents, dims=chain, plates=("N",), cls="GaussianMarkovChain", **kw):
        def make(w, o):
            o = list(o)
            k = dict(kw)
            if len(o) == 5 and cls == "GaussianMarkovChain":
                k["inputs"] = o.pop()
            if plates is not None:
                k["plates"] = w.shape(plates)
            return w.new(cls, *o, n=4, initialize=False, **k)
        add(cls, label, parents, plates or ("N",), dims, make=make, lead=cls == "GaussianMarkovChain",
            skip=() if cls == "GaussianMarkovChain" else (0, 1, 4))
    mL = [(G, "m", ("N",), V), (W, "L", (), V)]
    gmc_("mu[N], Lambda[], A[3,D], nu[N,3,D]",
         mL + [(G, "A", (3, "D"), V), (GA, "v", ("N", 3, "D"), ())])
    gmc_("mu[], Lambda[N], A[D], nu[D]",
         [(G, "m", (), V), (W, "L", ("N",), V), (G, "A", ("D",), V), (GA, "v", ("D",), ())])
    gmc_("mu[N], Lambda[], A[N,1,D], nu[3,D]",
         mL + [(G, "A", ("N", 1, "D"), V), (GA, "v", (3, "D"), ())])
    c2 = [(4, 2), (4, 2, 2), (3, 2, 2)]
    gmc_("mu[N], Lambda[], A[2], nu[2], inputs[3]",
         [(G, "m", ("N",), (2,)), (W, "L", (), (2,)), (G, "A", (2,), (3,)), (GA, "v", (2,), ()),
          (G, "x", (3,), (1,))], dims=c2)
    gmc_("mu[], Lambda[], A[2], nu[2], inputs[N,3]",
         [(G, "m", (), (2,)), (W, "L", (), (2,)), (G, "A", (2,), (3,)), (GA, "v", (2,), ()),
          (G, "x", ("N", 3), (1,))], dims=c2, plates=None)
    gmc_("mu[N], Lambda[], B[D], S[N,3], nu[D]",
         mL + [(G, "B", ("D",), ("D", "K")), (G, "S", ("N", 3), ("K",)), (GA, "v", ("D",), ())],
         cls="VaryingGaussianMarkovChain")
    gmc_("mu[], Lambda[N], B[N,D], S[3], nu[N,1,D]",
         [(G, "m", (), V), (W, "L", ("N",), V), (G, "B", ("N", "D"), ("D", "K")),
          (G, "S", (3,), ("K",)), (GA, "v", ("N", 1, "D"), ())], cls="VaryingGaussianMarkovChain")
    gmc_("mu[N], Lambda[], B[K,D], Z[N,3], nu[D]",
         mL + [(G, "B", ("K", "D"), V), (categorical, "Z", ("N", 3), ("K",)), (GA, "v", ("D",), ())],
         cls="SwitchingGaussianMarkovChain")
    gmc_("mu[], Lambda[N], B[N,K,D], Z[3], nu[N,1,D]",
         [(G, "m", (), V), (W, "L", ("N",), V), (G, "B", ("N", "K", "D"), V),
          (categorical, "Z", (3,), ("K",)), (GA, "v", ("N", 1, "D"), ())],
         cls="SwitchingGaussianMarkovChain")
    # mixtures
    def mix(label, dist, parents, plates, dims, cluster=-1, **kw):
        def make(w, o):
            return w.new("Mixture", o[0], w.it.get_class(dist), *o[1:], cluster_plate=cluster,
                         plates=w.shape(plates), initialize=False, **kw)
        add("Mixture", "%s, %s" % (dist, label), parents, plates, dims, make=make)
        S[-1].dist, S[-1].cluster = dist, cluster
    Z = categorical
    mix("z[N], mu[K], alpha[]", "GaussianARD",
        [(Z, "z", ("N",), ("K",)), (G, "m", ("K",), ()), (GA, "a", (), ())], ("N",), [(), ()])
    mix("z[N], mu[], alpha[N,K]", "GaussianARD",
        [(Z, "z", ("N",), ("K",)), (G, "m", (), ()), (GA, "a", ("N", "K"), ())], ("N",), [(), ()])
    mix("z[N,1], mu[K], alpha[M,K]", "GaussianARD",
        [(Z, "z", ("N", 1), ("K",)), (G, "m", ("K",), ()), (GA, "a", ("M", "K"), ())],
        ("N", "M"), [(), ()])
    mix("z[N,1], mu[K,M], alpha[K,1], cluster plate -2", "GaussianARD",
        [(Z, "z", ("N", 1), ("K",)), (G, "m", ("K", "M"), ()), (GA, "a", ("K", 1), ())],
        ("N", "M"), [(), ()], cluster=-2)
    mix("z[N], mu[K], Lambda[K]", "Gaussian",
        [(Z, "z", ("N",), ("K",)), (G, "m", ("K",), V), (W, "L", ("K",), V)],
        ("N",), [("D",), ("D", "D")])
    mix("z[], mu[K], Lambda[]", "Gaussian",
        [(Z, "z", (), ("K",)), (G, "m", ("K",), V), (W, "L", (), V)],
        (), [("D",), ("D", "D")])
    mix("z[N,M], mu[K,1], Lambda[M], cluster plate -2", "Gaussian",
        [(Z, "z", ("N", "M"), ("K",)), (G, "m", ("K", 1), V), (W, "L", ("M",), V)],
        ("N", "M"), [("D",), ("D", "D")], cluster=-2)
    mix("z[N], p[K]", "Categorical",
        [(Z, "z", ("N",), ("K",)), (dirichlet, "p", ("K",), ("D",))], ("N",), [("D",)])
    mix("z[N,1], p[M,K]", "Bernoulli",
        [(Z, "z", ("N", 1), ("K",)), (beta, "p", ("M", "K"), ())], ("N", "M"), [()])
    mix("z[N], l[K]", "Poisson",
        [(Z, "z", ("N",), ("K",)), (GA, "l", ("K",), ())], ("N",), [()])
    mix("z[N], p[K]", "Beta",
        [(Z, "z", ("N",), ("K",)), (concentration, "p", ("K",), (2,))], ("N",), [(2,)])
    mix("z[N], a constant, b[K]", "Gamma",
        [(Z, "z", ("N",), ("K",)), (gammaprior, "a", ("K",), ()), (GA, "b", ("K",), ())],
        ("N",), [(), ()])
    # mixture of mixtures
    def nested(label, parents, plates):
        def make(w, o):
            return w.new("Mixture", o[0], w.it.get_class("Mixture"), o[1],
                         w.it.get_class("GaussianARD"), *o[2:], plates=w.shape(plates),
                         initialize=False)
        add("Mixture", "Mixture, GaussianARD, " + label, parents, plates, [(), ()], make=make)
        S[-1].dist, S[-1].cluster = "Mixture", -1
        inner = S[-1].inner = copy.copy(S[-1])
        inner.dist, inner.cluster = "GaussianARD", -1
    nested("z[N], y[N,1], mu[K,L], alpha[]",
           [(Z, "z", ("N",), ("K",)), (Z, "y", ("N", 1), ("L",)), (G, "m", ("K", "L"), ()),
            (GA, "a", (), ())], ("N",))
    nested("z[N], y[K], mu[L], alpha[K,1]",
           [(Z, "z", ("N",), ("K",)), (Z, "y", ("K",), ("L",)), (G, "m", ("L",), ()),
            (GA, "a", ("K", 1), ())], ("N",))
    return S

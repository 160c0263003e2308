"""P11: models are wired consistently, and ill-formed ones are refused without trace.

Node classes are constructed (interpreted) on arbitrary parents with every combination
of a set of plate shapes, plate arguments and plate multipliers.  Decided:
  plates       – plates of a node are the broadcast of what its parents contribute, or
                 the given plates if they cover all of it; otherwise refused;
  multiplier   – likewise the plate multipliers;
  refused      – inconsistent variable axes, indices, keys, cluster counts are refused;
  links        – a node is registered with a parent exactly when it is stochastic or has
                 stochastic descendants, once per parent index; a refused construction
                 leaves no registration behind;
  delete       – deleting a node removes exactly it and everything below it;
  independence – a stochastic node which reaches a node over two parents is refused;
  conversion   – a parent is accepted exactly when its moments convert, over the
                 shortest chain of registered conversions.
"""
from fractions import Fraction

import tensor as tn
from absint import IRaise
from scen import *
import expscen

BASE = [(), (1,), (3,), (2, 1), (1, 3), (2, 3), (4,)]
PAIRS = [((), ()), ((), (3,)), ((3,), ()), ((3,), (3,)), ((1,), (3,)), ((3,), (1,)), ((2, 1), (3,)),
         ((3,), (2, 1)), ((2, 1), (1, 3)), ((2, 3), (3,)), ((), (2, 3)), ((2, 3), (2, 3)),
         ((3,), (4,)), ((4,), (2, 3)), ((2, 3), (1, 4)), ((2, 3), (2,))]
GIVEN = [(), (1,), (3,), (2, 3), (2, 1), (5, 2, 3), (4,)]


def bshape(*shapes):
    """numpy broadcasting; None if the shapes do not broadcast."""
    out = []
    for k in range(1, max([len(s) for s in shapes] + [0]) + 1):
        n = {s[-k] for s in shapes if len(s) >= k} - {1}
        if len(n) > 1:
            return None
        out.insert(0, n.pop() if n else 1)
    return tuple(out)


def total_plates(given, contributed):
    b = bshape(*contributed)
    if given is None:
        return b
    if any(bshape(c, given) != given for c in contributed):
        return None
    return given


def ident(p):
    return p


class Spec:
    """parents: (kind, dims, tail): the parent's plates are base + tail, the node gets
    `base`; or (kind, dims, f) with f: base plates -> plates of the parent."""

    def __init__(self, cls, label, parents, make, given=True, extra=()):
        self.cls, self.label, self.parents, self.make = cls, label, parents, make
        self.given, self.extra = given, extra

    @property
    def name(self):
        return "%s%s" % (self.cls, ": " + self.label if self.label else "")


def specs():
    G, GA, W = gaussian, gamma, wishart
    S = []

    def add(cls, label, parents, make=None, given=True, **kw):
        if make is None:
            def make(w, o, **k):
                return w.new(cls, *o, **dict(kw, **k))
        S.append(Spec(cls, label, parents, make, given))

    def st(cls, label, parents, make=None, **kw):
        if make is None:
            def make(w, o, **k):
                return w.new(cls, *o, initialize=False, **dict(kw, **k))
        add(cls, label, parents, make)
    V = (2,)
    st("GaussianARD", "scalar", [(G, (), ()), (GA, (), ())])
    st("GaussianARD", "vector", [(G, V, ()), (GA, (), (2,))], shape=V)
    st("GaussianARD", "vector, scalar mean", [(G, (), (2,)), (GA, (), (1,))], shape=V)
    st("GaussianARD", "matrix", [(G, (2,), (4,)), (GA, (), (4, 2))], shape=(4, 2))
    st("GaussianARD", "ndim", [(G, (), (2,)), (GA, (), (2,))], ndim=1)
    st("Gaussian", "", [(G, V, ()), (W, V, ())])
    st("GaussianGamma", "", [(G, V, ()), (W, V, ()), (gammaprior, (), ()), (GA, (), ())])
    st("Gamma", "", [(gammaprior, (), ()), (GA, (), ())])
    st("Wishart", "", [(W, V, ())],
       make=lambda w, o, **k: w.new("Wishart", tn.lift(5), *o, initialize=False, **k))
    st("Dirichlet", "", [(concentration, (3,), ())])
    st("Beta", "", [(concentration, (2,), ())])
    st("Categorical", "", [(dirichlet, (3,), ())])
    st("Bernoulli", "", [(beta, (), ())])
    st("Poisson", "", [(GA, (), ())])
    st("Binomial", "", [(beta, (), ())],
       make=lambda w, o, **k: w.new("Binomial", tn.lift(5), *o, initialize=False, **k))
    st("Multinomial", "", [(dirichlet, (3,), ())],
       make=lambda w, o, **k: w.new("Multinomial", tn.lift(5), *o, initialize=False, **k))
    st("CategoricalMarkovChain", "", [(dirichlet, (3,), ()), (dirichlet, (3,), (4, 3))])
    st("CategoricalMarkovChain", "states given", [(dirichlet, (3,), ()), (dirichlet, (3,), (1, 3))],
       states=5)
    st("GaussianMarkovChain", "", [(G, V, ()), (W, V, ()), (G, V, (3, 2)), (GA, (), (3, 2))])
    st("GaussianMarkovChain", "n given", [(G, V, ()), (W, V, ()), (G, V, (1, 2)), (GA, (), (1, 2))],
       n=4)
    st("GaussianMarkovChain", "inputs",
       [(G, V, ()), (W, V, ()), (G, (3,), (4, 2)), (GA, (), (1, 2)), (G, (1,), (4,))],
       make=lambda w, o, **k: w.new("GaussianMarkovChain", *o[:4], inputs=o[4], n=5,
                                    initialize=False, **k))
    st("SwitchingGaussianMarkovChain", "",
       [(G, V, ()), (W, V, ()), (G, V, (3, 2)), (categorical, (3,), (4,)), (GA, (), (1, 2))])
    st("VaryingGaussianMarkovChain", "",
       [(G, V, ()), (W, V, ()), (G, (2, 3), (2,)), (G, (3,), (4,)), (GA, (), (1, 2))])
    Z = categorical

    def mix(label, dist, parents, cluster=-1, **kw):
        st("Mixture", label, [(Z, (3,), ())] + parents,
           make=lambda w, o, **k: w.new("Mixture", o[0], w.it.get_class(dist), *o[1:],
                                        cluster_plate=cluster, initialize=False, **k))
    mix("GaussianARD", "GaussianARD", [(G, (), (3,)), (GA, (), (1,))])
    mix("Gaussian", "Gaussian", [(G, V, (1,)), (W, V, (3,))])
    mix("GaussianARD, cluster plate -2", "GaussianARD",
        [(G, (), lambda p: p[:-1] + (3,) + (p[-1:] or (1,))),
         (GA, (), lambda p: p[:-1] + (1,) + (p[-1:] or (1,)))], cluster=-2)
    mix("Categorical", "Categorical", [(dirichlet, (2,), (3,))])
    # deterministic
    D = dict(given=False)
    add("Add", "", [(G, V, ()), (G, V, ())], **D)
    add("Add", "three", [(G, V, ()), (G, V, ()), (G, V, ())], **D)
    add("SumMultiply", "", [(G, V, ()), (G, V, ())],
        make=lambda w, o, **k: w.new("SumMultiply", "i,i", *o, **k), **D)
    add("SumMultiply", "outer", [(G, V, ()), (G, (3,), ())],
        make=lambda w, o, **k: w.new("SumMultiply", "i,j->ij", *o, **k), **D)
    add("Gate", "", [(Z, (3,), ()), (G, V, (3,))], **D)
    add("Gate", "gated plate -2", [(Z, (3,), ()), (G, V, lambda p: p[:-1] + (3,) + (p[-1:] or (1,)))],
        make=lambda w, o, **k: w.new("Gate", *o, gated_plate=-2, **k), **D)
    add("WrapToGaussianGamma", "", [(G, V, ()), (GA, (), ())], **D)
    add("WrapToGaussianWishart", "", [(G, V, ()), (W, V, ())], **D)
    add("_ScaledWishart", "", [(W, V, ()), (GA, (), ())], **D)
    add("ConcatGaussian", "", [(G, V, ()), (G, (3,), ())], **D)
    return S


def parent_plates(par, base):
    t = par[2]
    return t(base) if callable(t) else base + t


class Refused(Exception):
    pass


def attempt(f):
    """Value, or Refused if the analysed code raises."""
    try:
        return f()
    except IRaise as e:
        return Refused(str(e))
    except (ShapeError, IndexError) as e:
        return Refused(str(e))


def same_shape(w, got, want):
    return len(got) == len(want) and \
        tuple(tn.to_body(a) for a in got) == tuple(tn.to_body(a) for a in want)


def srcs_of(w, spec, bases, mult=None):
    out = []
    for k, ((kind, dims, t), b) in enumerate(zip(spec.parents, bases)):
        pl = parent_plates((kind, dims, t), b)
        m, shapes, syms = kind(w, tuple(dims))
        u = [w.arr("s%d_%d" % (k, c), pl + tuple(sh)) for c, sh in enumerate(shapes)]
        kw = {} if mult is None else {"multiplier": mult[k]}
        out.append(w.source(m, tuple(w.shape(sh) for sh in shapes), pl, u, **kw))
    return out


def cases(spec):
    """Base plates of the parents."""
    n = len(spec.parents)
    if n == 1:
        return [(b,) for b in BASE]
    out = []
    for i in range(n):
        for a, b in PAIRS:
            if i + 1 < n:
                out.append(((),) * i + (a, b) + ((),) * (n - i - 2))
    if n > 2:
        out += [((3,),) + ((),) * (n - 2) + ((2, 1),), ((2, 1),) + ((),) * (n - 2) + ((3,),),
                ((3,),) + ((),) * (n - 2) + ((4,),), ((3,),) * n]
    seen = []
    for c in out:
        if c not in seen:
            seen.append(c)
    return seen


def children(w, obj):
    """The registrations of an object: list of (child, index)."""
    c = w.get(obj, "children")
    return [(x[0], int(tn.to_body(x[1]).constant())) for x in list(c)]


def show_links(cs):
    return sorted("%s[%d]" % (getattr(getattr(c, "cls", None), "name", c), i) for c, i in cs)


def no_links(w, srcs):
    return [k for k, s in enumerate(srcs) if children(w, s)]


def plates(ctx, w, spec):
    where = ctx.class_where(spec.cls)
    given = [None] + (GIVEN if spec.given else [])
    for bases in cases(spec):
        for gv in given:
            # the plates argument: only with a few parents' plates
            if gv is not None and not any(
                    all(b == c for b, c in zip(bases, sel)) for sel in select(len(bases))):
                continue
            lab = "%s parents %s%s" % (spec.name, " ".join(map(str, bases)),
                                       "" if gv is None else " plates=%s" % (gv,))
            with ctx.instance("plates", lab):
                w.reset()
                srcs = srcs_of(w, spec, bases)
                contributed = [effective(spec, p, b) for p, b in zip(spec.parents, bases)]
                want = total_plates(gv, contributed)
                node = attempt(lambda: spec.make(w, srcs, **({} if gv is None else {"plates": gv})))
                if isinstance(node, Refused):
                    ctx.verdict("plates", lab, want is None, "refused (%s), expected plates %s"
                                % (node, want), where)
                    left = no_links(w, srcs)
                    ctx.verdict("links", lab + " (refused)", not left,
                                "the refused node stays registered with parents %s" % left, where)
                    continue
                if want is None:
                    ctx.bad("plates", lab, "accepted with plates %s, but the plates do not fit"
                            % (w.get(node, "plates"),), where)
                    continue
                got = tuple(w.get(node, "plates"))
                ok = same_shape(w, got, want)
                for c, d in enumerate(node_dims(w, node)):
                    ok = ok and same_shape(w, w.call(node, "get_shape", c), tuple(want) + tuple(d))
                ctx.verdict("plates", lab, ok, "plates are %s, expected %s" % (got, want), where)


def effective(spec, par, base):
    """Contributed plates; where the parent's plates get a default axis, that axis too."""
    if callable(par[2]):
        return base if base else (1,)
    return base


def select(n):
    return [((),) * n, ((3,),) * n, ((3,),) + ((),) * (n - 1), ((),) * (n - 1) + ((2, 1),)]


MULTS = [((), ()), ((10,), ()), ((), (10,)), ((10,), (10,)), ((1, 10), (4, 1)), ((10,), (5,)),
         ((Fraction(5, 2),), ())]
MGIVEN = [None, (), (10,), (5,), (4, 10), (Fraction(5, 2),)]


def multiplier(ctx, w, spec):
    where = ctx.class_where(spec.cls)
    n = len(spec.parents)
    # only parents which contribute their plates unchanged
    idx = [k for k, p in enumerate(spec.parents) if p[2] == ()]
    for pair in MULTS:
        mult = [()] * n
        for k, m in zip(idx, pair):
            mult[k] = m
        if len(idx) < 2 and pair[1] not in ((), pair[0]):
            continue
        for gv in (MGIVEN if spec.given else [None]):
            lab = "%s multipliers %s%s" % (spec.name, " ".join(map(str, mult)),
                                           "" if gv is None else " given %s" % (gv,))
            with ctx.instance("multiplier", lab):
                w.reset()
                srcs = srcs_of(w, spec, [(2, 3)] * n, mult)
                want = total_plates(gv, mult)
                node = attempt(lambda: spec.make(w, srcs, **(
                    {} if gv is None else {"plates_multiplier": gv})))
                if isinstance(node, Refused):
                    ctx.verdict("multiplier", lab, want is None,
                                "refused (%s), expected multiplier %s" % (node, want), where)
                    left = no_links(w, srcs)
                    ctx.verdict("links", lab + " (refused)", not left,
                                "the refused node stays registered with parents %s" % left, where)
                    continue
                if want is None:
                    ctx.bad("multiplier", lab, "accepted with multiplier %s" %
                            (w.get(node, "plates_multiplier"),), where)
                    continue
                got = tuple(w.get(node, "plates_multiplier"))
                ctx.verdict("multiplier", lab, same_shape(w, got, want),
                            "plate multiplier %s, expected %s" % (got, want), where)


# -------------------------------------------------------------------- links
def ancestry(w, roots):
    """All nodes above the given ones, with their parents."""
    out, todo = [], list(roots)
    while todo:
        x = todo.pop()
        if any(x is y for y in out):
            continue
        out.append(x)
        todo.extend(list(w.get(x, "parents")))
    return out


def is_det(w, x):
    return x.cls.issub(w.it.get_class("Deterministic"))


def expected_links(w, nodes):
    """Registrations which the graph must have: (parent, child, index)."""
    kids = {id(x): [] for x in nodes}
    for x in nodes:
        for k, p in enumerate(w.get(x, "parents")):
            if id(p) in kids:
                kids[id(p)].append((x, k))
    active = {}

    def act(x):
        if id(x) not in active:
            active[id(x)] = True if not is_det(w, x) else any([act(c) for c, _ in kids[id(x)]])
        return active[id(x)]
    return {id(x): [(c, k) for c, k in kids[id(x)] if act(c)] for x in nodes}


def key(cs):
    return sorted((id(c), k) for c, k in cs)


def compare_links(w, nodes):
    want = expected_links(w, nodes)
    bad = []
    for x in nodes:
        got = children(w, x)
        if key(got) != key(want[id(x)]):
            bad.append("%s has children %s, expected %s" % (
                x.cls.name, show_links(got), show_links(want[id(x)])))
    return bad


def make_sink(w, node, n=1):
    out = []
    for k in range(n):
        pl = tuple(w.get(node, "plates"))
        msg = [tn.lift(0) for _ in node_dims(w, node)]
        out.append(w.sink(node, pl, msg, True))
    return out


def graphs():
    """(name, class, build) of every stochastic and deterministic node of the scenarios."""
    import rules.p08 as p08
    out = []
    for e in expscen.table():
        out.append((e.name, e.cls, 
                    lambda w, e=e: (lambda b: ([s.obj for s in b[0]], b[1]))(e.build(w))))
    for s in p08.scenarios():
        out.append(("%s: %s" % (s.cls, s.name), s.cls,
                    lambda w, s=s: (lambda b: ([x.obj for x in b[0]], b[1]))(p08.build(w, s))))
    return out


def links(ctx, w):
    for name, cls, build in graphs():
        where = ctx.class_where(cls)
        with ctx.instance("links", name):
            w.reset()
            srcs, node = build(w)
            nodes = ancestry(w, [node] + srcs)
            bad = compare_links(w, nodes)
            ctx.verdict("links", name, not bad, "; ".join(bad), where)
        with ctx.instance("links", name + ", with children"):
            w.reset()
            srcs, node = build(w)
            sinks = make_sink(w, node, 2)
            nodes = ancestry(w, sinks + srcs)
            bad = compare_links(w, nodes)
            ctx.verdict("links", name + ", with children", not bad, "; ".join(bad), where)
        # deletion of a child, of both children, of the node, of a parent
        for what in ("one child", "both children", "the node", "first parent", "last parent"):
            lab = "%s, %s" % (name, what)
            with ctx.instance("delete", lab):
                w.reset()
                srcs, node = build(w)
                side = make_sink(w, srcs[0])
                sinks = make_sink(w, node, 2)
                nodes = ancestry(w, sinks + srcs + side)
                victims = {"one child": sinks[:1], "both children": sinks, "the node": [node],
                           "first parent": srcs[:1], "last parent": srcs[-1:]}[what]
                gone = below(w, nodes, victims)
                for v in victims:
                    w.call(v, "delete")
                rest = [x for x in nodes if not any(x is y for y in gone)]
                bad = compare_links(w, rest)
                ctx.verdict("delete", lab, not bad, "; ".join(bad), where)


def below(w, nodes, victims):
    gone = list(victims)
    change = True
    while change:
        change = False
        for x in nodes:
            if not any(x is y for y in gone) and any(
                    p is y for p in w.get(x, "parents") for y in gone):
                gone.append(x)
                change = True
    return gone


# ------------------------------------------------------------- independence
def independence(ctx, w):
    G, GA, Z = gaussian, gamma, categorical

    def src(kind, dims, pl, name):
        return Src(w, kind, name, pl, dims).obj

    def X(n="x"):
        return src(G, (2,), (3,), n)

    def sm(*a):
        return w.new("SumMultiply", *a)

    def ard(m, a):
        return w.new("GaussianARD", m, a, initialize=False)
    add = lambda *a: w.new("Add", *a)
    gate = lambda *a: w.new("Gate", *a)
    cat = lambda *a, **k: w.new("Concatenate", *a, **k)
    tau = lambda n="t": src(GA, (), (3,), n)
    wrap = lambda *a: w.new("WrapToGaussianGamma", *a)

    def normal(m):
        return w.new("Gaussian", m, src(wishart, (2,), (3,), "L"), initialize=False)

    def both(f):
        def g():
            x = X()
            return f(x)
        return g
    T = []      # (label, class, builder, legal)

    def case(label, cls, f, legal):
        T.append((label, cls, f, legal))
    case("i,i of one node twice", "SumMultiply", both(lambda x: sm("i,i", x, x)), False)
    case("i,i of two nodes", "SumMultiply", lambda: sm("i,i", X("x"), X("y")), True)
    case("one node and a function of it", "SumMultiply",
         both(lambda x: sm("i,i", x, sm("i->i", x))), False)
    case("two functions of one node", "Add", both(lambda x: add(sm("i->i", x), sm("i->i", x))), False)
    case("one node twice", "Add", both(lambda x: add(x, x)), False)
    case("first and third parent", "Add", both(lambda x: add(x, X("y"), x)), False)
    case("three nodes", "Add", lambda: add(X("x"), X("y"), X("z")), True)
    case("function of a function", "Add", both(lambda x: add(sm("i->i", sm("i->i", x)), x)), False)
    case("a node and one over a plate operation", "Add", both(lambda x: add(
        x, w.new("Take", x, [2, 1, 0]))), False)
    case("a node and one over slicing", "Add", both(lambda x: add(
        x, w.it.getitem(x, (slice(None),)))), False)
    case("one node twice", "Concatenate", both(lambda x: cat(x, x)), True)
    case("concatenation of one node and the node", "Add",
         lambda: (lambda x: add(cat(x, x), x))(src(G, (2,), (1,), "x")), False)
    case("concatenation and its first node", "Add", lambda: (lambda x: add(
        cat(x, src(G, (2,), (1,), "y")), x))(src(G, (2,), (1,), "x")), False)
    case("concatenation and its last node", "Add", lambda: (lambda x: add(
        cat(src(G, (2,), (1,), "y"), src(G, (2,), (1,), "z"), x), x))(src(G, (2,), (1,), "x")), False)
    case("concatenations which share a node", "Add", lambda: (lambda x: add(
        cat(src(G, (2,), (1,), "y"), x), cat(x, src(G, (2,), (1,), "z"))))(
            src(G, (2,), (1,), "x")), False)
    case("disjoint concatenations", "Add", lambda: add(
        cat(src(G, (2,), (1,), "y"), src(G, (2,), (1,), "x")),
        cat(src(G, (2,), (1,), "v"), src(G, (2,), (1,), "z"))), True)
    case("concatenation of one node, alone", "SumMultiply",
         both(lambda x: sm("i->i", cat(x, x))), True)
    case("selector twice", "Gate", lambda: (lambda z: gate(z, w.new(
        "Take", gate(z, src(G, (2,), (3,), "x")), [0, 1, 2])))(src(Z, (3,), (3,), "z")), False)
    case("distinct selectors", "Gate", lambda: gate(src(Z, (3,), (3,), "z"), gate(
        src(Z, (3,), (3,), "q"), src(G, (2,), (3,), "x"))), True)
    case("precision twice", "GaussianARD", lambda: (lambda t: ard(wrap(src(G, (), (3,), "x"), t), t))(
        tau()), False)
    case("two precisions", "GaussianARD", lambda: ard(wrap(src(G, (), (3,), "x"), tau("s")), tau("t")),
         True)
    case("selector of the mixture within a parameter", "Mixture",
         lambda: (lambda z: w.new("Mixture", z, w.it.get_class("GaussianARD"), gate(
             z, src(G, (), (3,), "x")), tau(), initialize=False))(src(Z, (3,), (3,), "z")), False)
    case("mixture of distinct nodes", "Mixture",
         lambda: w.new("Mixture", src(Z, (3,), (3,), "z"), w.it.get_class("GaussianARD"),
                       src(G, (), (3,), "x"), tau(), initialize=False), True)
    case("a constant twice", "SumMultiply", lambda: (lambda c: sm("i,i,i", X(), c, c))(
        w.new("Constant", w.new("GaussianMoments", (2,)), tn.lift([1, 2]))), True)
    case("a node and its own child", "Add", both(lambda m: add(m, normal(m))), True)
    case("a stochastic node twice", "SumMultiply",
         lambda: (lambda y: sm("i,i", y, y))(normal(X())), False)
    case("over a conversion", "SumMultiply", both(lambda x: sm(
        ",i->i", w.call(x, "_ensure_moments", x, w.it.get_class("GaussianMoments"), ndim=0),
        src(G, (2,), (), "y"))), True)
    case("a node and its conversion", "SumMultiply", lambda: (lambda x: sm(
        ",i->i", w.call(x, "_ensure_moments", x, w.it.get_class("GaussianMoments"), ndim=0), x))(
            src(G, (2,), (2,), "x")), False)
    case("one node twice", "ConcatGaussian", both(lambda x: w.new("ConcatGaussian", x, x)), False)
    case("initial mean and dynamics", "GaussianMarkovChain", lambda: (lambda x: w.new(
        "GaussianMarkovChain", x, src(wishart, (2,), (), "L"), x, src(GA, (), (2,), "v"), n=4,
        initialize=False))(src(G, (2,), (2,), "x")), False)
    case("distinct parents", "GaussianMarkovChain", lambda: w.new(
        "GaussianMarkovChain", src(G, (2,), (), "m"), src(wishart, (2,), (), "L"),
        src(G, (2,), (2,), "x"), src(GA, (), (2,), "v"), n=4, initialize=False), True)
    case("initial state and transitions", "CategoricalMarkovChain", lambda: (lambda p: w.new(
        "CategoricalMarkovChain", p, p, states=4, initialize=False))(
            src(dirichlet, (3,), (3,), "p")), False)
    for label, cls, f, legal in T:
        lab = "%s: %s" % (cls, label)
        where = ctx.class_where(cls)
        with ctx.instance("independence", lab):
            w.reset()
            r = attempt(f)
            ok = (not isinstance(r, Refused)) == legal
            if not legal and isinstance(r, Refused) and "independent" not in str(r):
                raise Unsupported("refused for another reason: %s" % r)
            ctx.verdict("independence", lab, ok,
                        ("refused: %s" % r) if legal else
                        "accepted although one stochastic node reaches it over two parents", where)


# ------------------------------------------------------------------ refused
def refused(ctx, w):
    G, GA, W, Z, D = gaussian, gamma, wishart, categorical, dirichlet
    made = []

    def src(kind, dims, pl=(), name=None):
        o = Src(w, kind, name or "s%d" % len(made), pl, dims).obj
        made.append(o)
        return o
    T = []

    def case(cls, label, f, legal):
        T.append((cls, label, f, legal))

    def new(cls, *a, **k):
        return w.new(cls, *a, **k)

    def rnew(cls, *a, **k):
        return w.new(cls, *a, initialize=False, **k)
    # variable axes
    for a, b in ((2, 2), (2, 3), (1, 2)):
        case("Gaussian", "mean of %d, precision of %d" % (a, b),
             lambda a=a, b=b: rnew("Gaussian", src(G, (a,)), src(W, (b,))), a == b)
        case("GaussianGamma", "mean of %d, precision of %d" % (a, b),
             lambda a=a, b=b: rnew("GaussianGamma", src(G, (a,)), src(W, (b,)),
                                   src(gammaprior, ()), src(GA, ())), a == b)
        case("Add", "vectors of %d and %d" % (a, b),
             lambda a=a, b=b: new("Add", src(G, (a,)), src(G, (b,))), a == b)
        case("SumMultiply", "i,i of %d and %d" % (a, b),
             lambda a=a, b=b: new("SumMultiply", "i,i", src(G, (a,)), src(G, (b,))),
             a == b or a == 1)
        case("SumMultiply", "ij,j of (3,%d) and %d" % (a, b),
             lambda a=a, b=b: new("SumMultiply", "ij,j->i", src(G, (3, a)), src(G, (b,))),
             a == b or a == 1)
        case("Concatenate", "vectors of %d and %d" % (a, b),
             lambda a=a, b=b: new("Concatenate", src(G, (a,), (2,)), src(G, (b,), (3,))), a == b)
        case("WrapToGaussianWishart", "mean of %d, precision of %d" % (a, b),
             lambda a=a, b=b: new("WrapToGaussianWishart", src(G, (a,)), src(W, (b,))), a == b)
    case("Concatenate", "other plates differ", lambda: new(
        "Concatenate", src(G, (2,), (4, 2)), src(G, (2,), (3, 2))), False)
    case("Concatenate", "other plates agree", lambda: new(
        "Concatenate", src(G, (2,), (4, 2)), src(G, (2,), (4, 3))), True)
    case("Concatenate", "different families", lambda: new(
        "Concatenate", src(G, (2,), (2,)), src(GA, (), (3,))), False)
    case("Add", "a single node", lambda: new("Add", src(G, (2,))), False)
    # keys of SumMultiply
    for spec, legal in (("i,j->ij", True), ("i,j->k", False), ("i,j->ijj", False), ("i", False),
                        ("i,j,k", False), ("ii,j", False), ("i,jk", False),
                        ("i,j->i->j", False), ("i,i->i", True), ("i,i->", True)):
        case("SumMultiply", "keys %s" % spec, lambda spec=spec: new(
            "SumMultiply", spec, src(G, (2,)), src(G, (2,))), legal)
    # indices of Take
    for idx, ax, legal in (([0, 2], -1, True), ([0, 3], -1, False), ([-3, 1], -1, True),
                           ([-4], -1, False), ([0, 1], -2, True), ([0, 2], -2, False),
                           ([0], -3, False), ([[0, 1], [1, 2]], -1, True), ([0], 0, False),
                           ([Fraction(1, 2)], -1, False)):
        case("Take", "indices %s of (2, 3) on axis %d" % (idx, ax), lambda idx=idx, ax=ax: new(
            "Take", src(G, (2,), (2, 3)), idx, plate_axis=ax), legal)
    # slices
    sl = slice(None)
    for lab, keys, legal in (("[:, 1]", (sl, 1), True), ("[:, 3]", (sl, 3), False),
                             ("[:, -3]", (sl, -3), True), ("[:, -4]", (sl, -4), False),
                             ("[0, 1, 0]", (0, 1, 0), False), ("[2]", (2,), False),
                             ("[..., 1, ...]", (Ellipsis, 1, Ellipsis), True),
                             ("[:, 3:]", (sl, slice(3, None)), False)):
        case("Slice", "%s of plates (2, 3)" % lab, lambda keys=keys: w.it.getitem(
            src(G, (2,), (2, 3)), keys), legal)
    # gating and mixing
    for K, pl, gp, legal in ((3, (3,), -1, True), (3, (4,), -1, False), (3, (), -1, False),
                             (3, (3, 4), -2, True), (4, (3, 4), -2, False), (3, (3,), 0, False),
                             (3, (3,), -2, False)):
        case("Gate", "%d categories, plates %s, gated plate %d" % (K, pl, gp),
             lambda K=K, pl=pl, gp=gp: new("Gate", src(Z, (K,), ()), src(G, (2,), pl),
                                           gated_plate=gp), legal)
        case("Mixture", "%d categories, parameters %s, cluster plate %d" % (K, pl, gp),
             lambda K=K, pl=pl, gp=gp: rnew(
                 "Mixture", src(Z, (K,), ()), w.it.get_class("Gaussian"), src(G, (2,), pl),
                 src(W, (2,), ()), cluster_plate=gp), legal)
    # number of states and time instances
    for p0, P, legal in (((3,), ((4, 3), 3), True), ((3,), ((4, 2), 3), False),
                         ((3,), ((4, 3), 2), False), ((2,), ((4, 3), 3), False)):
        case("CategoricalMarkovChain", "%s initial states, transitions %s to %d" % (p0, P[0], P[1]),
             lambda p0=p0, P=P: rnew("CategoricalMarkovChain", src(D, p0), src(D, (P[1],), P[0])),
             legal)
    case("CategoricalMarkovChain", "5 states of 4 transitions", lambda: rnew(
        "CategoricalMarkovChain", src(D, (3,)), src(D, (3,), (4, 3)), states=5), True)
    case("CategoricalMarkovChain", "6 states of 4 transitions", lambda: rnew(
        "CategoricalMarkovChain", src(D, (3,)), src(D, (3,), (4, 3)), states=6), False)
    case("CategoricalMarkovChain", "unknown number of states", lambda: rnew(
        "CategoricalMarkovChain", src(D, (3,)), src(D, (3,), (3,))), False)

    def chain(m=2, L=2, A=2, ap=(3, 2), v=(3, 2), n=None, x=None, xd=1):
        k = {} if n is None else {"n": n}
        if x is not None:
            k["inputs"] = src(G, (xd,), x)
        return lambda: rnew("GaussianMarkovChain", src(G, (m,)), src(W, (L,)),
                            src(G, (A,), ap), src(GA, (), v), **k)
    for lab, f, legal in (
            ("consistent", lambda: chain()(), True),
            ("n given", lambda: chain(ap=(2,), v=(2,), n=4)(), True),
            ("n consistent", lambda: chain(n=4)(), True),
            ("n inconsistent", lambda: chain(n=5)(), False),
            ("n too small", lambda: chain(n=3)(), False),
            ("n too small for the innovations", lambda: chain(ap=(2,), n=3)(), False),
            ("n too small for the inputs", lambda: chain(A=3, ap=(2,), v=(2,), x=(3,), n=3)(), False),
            ("n of the inputs", lambda: chain(A=3, ap=(2,), v=(2,), x=(3,), n=4)(), True),
            ("n unknown", lambda: chain(ap=(2,), v=(2,))(), False),
            ("precision of another size", lambda: chain(L=3)(), False),
            ("dynamics of too many columns", lambda: chain(A=3)(), False),
            ("dynamics of too many rows", lambda: chain(ap=(3, 3))(), False),
            ("innovation of another size", lambda: chain(v=(3, 3))(), False),
            ("innovation of another length", lambda: chain(v=(4, 2))(), False),
            ("inputs", lambda: chain(A=3, x=(3,))(), True),
            ("inputs of another length", lambda: chain(A=3, x=(4,))(), False),
            ("inputs of another size", lambda: chain(A=3, x=(3,), xd=2)(), False)):
        case("GaussianMarkovChain", lab, f, legal)
    # shapes of GaussianARD
    for lab, m, mp, ap, kw, legal in (
            ("alpha of another size", (2,), (), (3,), {"shape": (2,)}, False),
            ("mean of another size", (3,), (), (2,), {"shape": (2,)}, False),
            ("scalar mean of another size", (), (3,), (2,), {"shape": (2,)}, False),
            ("consistent", (2,), (), (2,), {"shape": (2,)}, True),
            ("ndim and shape differ", (2,), (), (2,), {"shape": (2,), "ndim": 2}, False),
            ("ndim less than shape", (3,), (2,), (2, 3), {"shape": (2, 3), "ndim": 1}, False),
            ("ndim and shape agree", (2,), (), (2,), {"shape": (2,), "ndim": 1}, True),
            ("ndim without axes", (), (), (), {"ndim": 1}, False)):
        case("GaussianARD", lab, lambda m=m, mp=mp, ap=ap, kw=kw: rnew(
            "GaussianARD", src(G, m, mp), src(GA, (), ap), **kw), legal)
    # wrong families
    for cls, kinds, legal in (
            ("GaussianARD", (GA, GA), False), ("GaussianARD", (G, G), False),
            ("Gaussian", (W, W), False), ("Gamma", (gammaprior, G), False),
            ("Categorical", (GA,), False), ("Bernoulli", (D,), False),
            ("Poisson", (G,), False), ("Dirichlet", (D,), False)):
        def f(cls=cls, kinds=kinds):
            return rnew(cls, *[src(k, (2,) if k in (G, W, D) else ()) for k in kinds])
        case(cls, "parents of the families %s" % ", ".join(k.__name__ for k in kinds), f, legal)
    case("Wishart", "scale of a gamma node", lambda: rnew("Wishart", tn.lift(5), src(GA, ())), False)
    case("Beta", "three concentrations", lambda: rnew("Beta", src(concentration, (3,))), False)
    case("Beta", "two concentrations", lambda: rnew("Beta", src(concentration, (2,))), True)
    for cls, label, f, legal in T:
        lab = "%s: %s" % (cls, label)
        where = ctx.class_where(cls)
        with ctx.instance("refused", lab):
            w.reset()
            del made[:]
            r = attempt(f)
            no = isinstance(r, Refused)
            ctx.verdict("refused", lab, no != legal, "refused: %s" % r if legal else
                        "accepted although inconsistent", where)
            if no:
                left = no_links(w, made)
                ctx.verdict("links", lab + " (refused)", not left,
                            "the refused node stays registered with parents %s" % left, where)


# --------------------------------------------------------------- conversion
REG = '''
from bayespy.inference.vmp.nodes.node import Moments
class A(Moments): pass
class B(Moments): pass
class C(Moments): pass
class D(Moments): pass
class E(Moments): pass
class BB(B): pass
class Base(Moments): pass
class Mid(Base): pass
class Leaf(Mid): pass
class Lone(Moments): pass
class Box:
    def __init__(self, path, moments):
        self.path = path
        self._moments = moments
def step(name, to):
    return lambda X: Box(X.path + [name], to())
A.add_converter(C, step("AC", C))
C.add_converter(D, step("CD", D))
D.add_converter(B, step("DB", B))
A.add_converter(E, step("AE", E))
E.add_converter(BB, step("EB", BB))
Mid.add_converter(A, step("MA", A))
Base.add_converter(D, step("BD", D))
def convert(src, to):
    X = Box([], src())
    return X._moments.get_converter(to)(X)
'''
PATHS = [("A", "A", []), ("A", "C", ["AC"]), ("A", "D", ["AC", "CD"]), ("A", "B", ["AE", "EB"]),
         ("C", "B", ["CD", "DB"]), ("E", "B", ["EB"]), ("BB", "B", []), ("B", "BB", None),
         ("B", "A", None), ("D", "C", None), ("Mid", "A", ["MA"]), ("Leaf", "A", ["MA"]),
         ("Leaf", "Base", []), ("Base", "A", None), ("Base", "D", ["BD"]), ("Leaf", "D", ["BD"]),
         ("Leaf", "B", ["BD", "DB"]), ("Leaf", "E", ["MA", "AE"]), ("Lone", "A", None), ("A", "Lone", None),
         ("A", "Moments", [])]


def conversion(ctx, w):
    env = w.it.load_source("registry", REG)
    fn = env.vars["convert"]
    node_where = ctx.class_where("Moments")
    for a, b, path in PATHS:
        lab = "a registry of conversions: %s to %s" % (a, b)
        with ctx.instance("conversion", lab):
            w.reset()
            r = attempt(lambda: w.it.call(fn, [env.vars[a], env.vars[b]], {}))
            if isinstance(r, Refused):
                ctx.verdict("conversion", lab, path is None and "NoConverter" in str(r),
                            "%s, expected the path %s" % (r, path), node_where)
                continue
            got = list(w.get(r, "path"))
            ctx.verdict("conversion", lab, path is not None and got == path and
                        w.get(r, "_moments").cls.issub(env.vars[b]),
                        "converted over %s, expected %s" % (got, path), node_where)
    kinds = {"GaussianMoments": (gaussian, (2,)), "GaussianGammaMoments": (gaussgamma, (2,)),
             "GammaMoments": (gamma, ()), "WishartMoments": (wishart, (2,)),
             "CategoricalMoments": (categorical, (2,)), "BernoulliMoments": (bernoulli, ()),
             "DirichletMoments": (dirichlet, (2,)), "BetaMoments": (beta, ()),
             "GaussianMarkovChainMoments": (gmc, (4, 2)),
             "CategoricalMarkovChainMoments": (cmc, (2, 4)), "PoissonMoments": (poisson, ())}
    legal = {("GaussianMoments", "GaussianGammaMoments"), ("GaussianMarkovChainMoments", "GaussianMoments"),
             ("GaussianMarkovChainMoments", "GaussianGammaMoments"),
             ("CategoricalMarkovChainMoments", "CategoricalMoments"),
             ("CategoricalMoments", "BernoulliMoments"), ("CategoricalMarkovChainMoments", "BernoulliMoments"),
             ("BetaMoments", "DirichletMoments")}
    # counts
    legal |= {(x, "PoissonMoments") for x in ("BernoulliMoments", "CategoricalMoments",
                                              "CategoricalMarkovChainMoments")}
    for a, (kind, dims) in kinds.items():
        for b in kinds:
            lab = "%s node where %s are needed" % (a, b)
            where = ctx.class_where(b)
            with ctx.instance("conversion", lab):
                w.reset()
                s = Src(w, kind, "x", (3,), dims).obj
                target = expected(lambda: kinds[b][0](w, kinds[b][1])[0])
                kw = w.call(target, "get_instance_conversion_kwargs")
                r = attempt(lambda: w.call(s, "_ensure_moments", s, w.it.get_class(b), **kw))
                want = a == b or (a, b) in legal
                if isinstance(r, Refused):
                    ctx.verdict("conversion", lab, not want and "NoConverter" in str(r), "refused: %s" % r, where)
                    continue
                ok = want and w.get(r, "_moments").cls.issub(w.it.get_class(b))
                ctx.verdict("conversion", lab, ok, "gives moments %s" % w.get(r, "_moments").cls.name, where)


def run(ctx):
    prepare(ctx)
    ctx.rule("plates", "plates are the broadcast of the contributed plates, or those given", floor=100)
    ctx.rule("multiplier", "plate multipliers are the broadcast of the parents', or those given",
             floor=40)
    ctx.rule("refused", "inconsistent dimensions, indices and keys are refused", floor=20)
    ctx.rule("links", "children registered exactly for stochastic descendants", floor=60)
    ctx.rule("delete", "deletion removes the node and everything below", floor=60)
    ctx.rule("independence", "a stochastic node reaches a node over at most one parent", floor=10)
    ctx.rule("conversion", "parents are accepted exactly when their moments convert", floor=10)
    w = World(ctx)
    import os
    only = os.environ.get("P11_ONLY")
    for name, f in (("plates", lambda: [plates(ctx, w, s) for s in specs()]),
                    ("multiplier", lambda: [multiplier(ctx, w, s) for s in specs()]),
                    ("links", lambda: links(ctx, w)),
                    ("refused", lambda: refused(ctx, w)),
                    ("conversion", lambda: conversion(ctx, w)),
                    ("independence", lambda: independence(ctx, w)),):
        if only and only not in name:
            continue
        f()
    ctx.functions.update(w.it.functions)

"""P18: point estimates are stationary points of the lower bound they are part of.

The node is interpreted with arbitrary messages from its children, arbitrary
regularisation and plates.

 update    the value set by the update solves the stationarity condition of the bound:
           (messages + own term) . d moments / d value == 0.  `invpsi` is the inverse of
           psi: it returns an arbitrary value with psi(value) == its argument;
 bound     the contribution of the node is its regularisation, summed over its plates;
 moments   the moments of the value are the functions the children's bound is linear in;
 gradient  the gradient of an array optimised by its user is the derivative of the bound
           of its children, through functions and conversions of the array.
"""
import itertools

import matdomain as md
import npdomain
import scen
import tensor as tn
from nodeworld import World
from scen import expected, expand_right, describe
from tensor import Unsupported


class Points(World):
    """World where the inverse of psi is recorded."""

    def __init__(self, ctx):
        self.asked = []
        World.__init__(self, ctx, {"bayespy.utils.misc.invpsi": self.invpsi})

    def invpsi(self, it, args, kw):
        if len(args) != 1 or kw:
            raise Unsupported("call of invpsi")
        x = tn.lift(args[0])
        if not isinstance(x, tn.Arr):
            raise Unsupported("invpsi of %s" % type(x).__name__)
        y = self.generic("point%d" % len(self.asked), x)
        self.asked.append((y, x))
        return y

    def generic(self, name, like):
        """Arbitrary array of the given shape."""
        return self.arr(name, tuple(self.spec(a) for a in like.axes))

    def spec(self, a):
        return 1 if a is None else a if isinstance(a, int) else a[0]

    def np(self, f, *a, **k):
        return npdomain.call(self.it, "numpy." + f, list(a), k)

    def sp(self, f, *a):
        return npdomain.call(self.it, "scipy.special." + f, list(a), {})


def run(ctx):
    ctx.rule("update", "the value set by the update solves the stationarity condition of the bound",
             floor=4)
    ctx.rule("bound", "contribution to the bound == regularisation summed over the plates", floor=4)
    ctx.rule("moments", "moments of the value == functions in the log-density of the children",
             floor=2)
    ctx.rule("gradient", "gradient of an array == derivative of the bound of its children", floor=4)
    ctx.assumptions = ["misc.invpsi returns the solution of psi(y) == x; that its iteration "
                       "converges is not decided"]
    w = Points(ctx)
    scen.prepare(ctx)
    for plates in [(), ("N",), ("N", "M")]:
        for reg in ["full", "default", "none", "broadcast"]:
            concentration(ctx, w, plates, reg)
        for reg in ["full", "default", "broadcast"]:
            shape(ctx, w, plates, reg)
    ml(ctx, w)
    inverse(ctx)
    ctx.functions.update(w.it.functions)


def where_of(ctx, cls):
    return ctx.class_where(cls)


def differs(a, b, shape):
    """First difference of two arrays over the full shape, or None."""
    a, b = tn.broadcast_to(tn.lift(a), shape), expected(lambda: tn.broadcast_to(tn.lift(b), shape))
    for pos, e in tn.sub(a, b).data.items():
        if not (e.is_zero() or md.resolve(e).is_zero()):
            return "%s instead of %s" % (str(a.data[pos])[:250], str(b.data[pos])[:250])
    return None


def settle(ctx, rule, label, where, f):
    with ctx.instance(rule, label):
        d = f()
        ctx.verdict(rule, label, d is None, d or "", where)


# ------------------------------------------------------------ concentration of a Dirichlet
def total(a, b, shape):
    """Sum over the plates of the product of two arrays."""
    return tn.sum_axes(tn.mul(tn.broadcast_to(tn.lift(a), shape),
                              tn.broadcast_to(tn.lift(b), shape))).body()


def concentration(ctx, w, plates, reg):
    where = where_of(ctx, "Concentration")
    label = "Concentration plates (%s) regularisation %s" % (", ".join(plates), reg)
    D = "D"
    pl = w.shape(plates)
    w.reset()
    r = {"full": lambda: [w.arr("r0", plates + (D,)), w.arr("r1", plates)],
         "broadcast": lambda: [w.arr("r0", (D,)), w.arr("r1", ())],
         "default": lambda: True, "none": lambda: None}[reg]()

    def make():
        node = w.new("Concentration", w.n(D), plates=pl, regularization=r)
        return node

    def update():
        node = make()
        u = own(node)
        # messages such that the total is an array of one term
        q = [w.arr("Q0", plates + (D,)), w.arr("Q1", plates)]
        m = [tn.sub(a, tn.broadcast_to(tn.lift(b), s)) for a, b, s in
             zip(q, u, [pl + (w.n(D),), pl])]
        w.sink(node, pl, m, True)
        del w.asked[:]
        loop(node)
        if not w.asked:
            raise Unsupported("the update does not use invpsi")
        y, arg = w.asked[-1]
        got = w.call(node, "get_moments")
        full = pl + (w.n(D),)
        d = differs(got[0], y, full)
        if d:
            return "the moments are not those of the solution: " + d
        # bound: sum_d (m0+r0)_d y_d + (m1+r1) (gammaln(sum y) - sum gammaln y_d)
        q0, q1 = q[0], expand_right(q[1], 1)
        prev = w.asked[-2][0] if len(w.asked) > 1 else None
        if prev is None:
            raise Unsupported("one step of the iteration")
        psis = w.sp("psi", w.np("sum", prev, axis=-1, keepdims=True))
        # stationary: q0 + q1 (psi(sum y) - psi(y_d)) == 0 with psi(y) == arg, y == previous
        res = tn.add(q0, tn.mul(q1, tn.sub(psis, arg)))
        d = differs(res, tn.lift(0), full)
        return d and "the derivative of the bound at the estimate is " + d

    def own(node):
        """The regularisation in use (rule `bound`: it is the node's own term)."""
        if reg in ("full", "broadcast"):
            return r
        if reg == "none":
            return [0, 0]
        return list(w.get(node, "regularization"))

    def loop(node):
        """Two steps of the iteration, from an arbitrary point."""
        w.it.while_limit = 2
        try:
            w.call(node, "update")
        finally:
            w.it.while_limit = None

    def bound():
        node = make()
        g = [w.arr("v0", plates + (D,)), w.arr("v1", plates)]
        w.it.setattr(node, "u", g)
        L = tn.lift(w.call(node, "lower_bound_contribution"))
        if L.ndim:
            return "the contribution is an array, not its sum over the plates"
        rr = own(node)
        want = expected(lambda: total(rr[0], g[0], pl + (w.n(D),)) + total(rr[1], g[1], pl))
        e = L.body() - want
        return None if md.resolve(e).is_zero() else "%s instead of %s" % (
            str(L.body())[:250], str(want)[:250])

    def moments():
        a = w.arr("a", plates + (D,))
        mom = w.new("ConcentrationMoments", w.n(D))
        u = w.call(mom, "compute_fixed_moments", a)
        z = tn.sub(w.sp("gammaln", w.np("sum", a, axis=-1)),
                   w.np("sum", w.sp("gammaln", a), axis=-1))
        return differs(u[0], a, pl + (w.n(D),)) or differs(u[1], z, pl)

    settle(ctx, "update", label, where, update)
    settle(ctx, "bound", label, where, bound)
    if reg == "full":
        settle(ctx, "moments", label, where_of(ctx, "ConcentrationMoments"), moments)


# ------------------------------------------------------------ shape of a gamma variable
def shape(ctx, w, plates, reg):
    where = where_of(ctx, "GammaShape")
    label = "GammaShape plates (%s) prior terms %s" % (", ".join(plates), reg)
    pl = w.shape(plates)
    w.reset()
    if reg == "full":
        kw = dict(m0=w.arr("r0", plates), m1=w.arr("r1", plates))
    elif reg == "broadcast":
        kw = dict(m0=w.arr("r0", ()), m1=w.arr("r1", ()))
    else:
        kw = {}

    def make():
        return w.new("GammaShape", plates=pl, **kw)

    def update():
        node = make()
        q = [w.arr("Q0", plates), w.arr("Q1", plates)]
        m = [tn.sub(a, tn.lift(kw.get(k, 0))) for a, k in zip(q, ("m0", "m1"))]
        w.sink(node, pl, m, True)
        del w.asked[:]
        w.call(node, "update")
        if len(w.asked) != 1:
            raise Unsupported("the update does not use invpsi")
        y, arg = w.asked[0]
        got = w.call(node, "get_moments")
        d = differs(got[0], y, pl)
        if d:
            return "the moments are not those of the solution: " + d
        d = differs(tn.add(q[0], tn.mul(q[1], arg)), tn.lift(0), pl)
        return d and "the derivative of the bound at the estimate is " + d

    def bound():
        node = make()
        g = [w.arr("v0", plates), w.arr("v1", plates)]
        w.it.setattr(node, "u", g)
        L = tn.lift(w.call(node, "lower_bound_contribution"))
        if L.ndim:
            return "the contribution is an array, not its sum over the plates"
        want = expected(lambda: total(tn.lift(kw.get("m0", 0)), g[0], pl)
                        + total(tn.lift(kw.get("m1", 0)), g[1], pl))
        e = L.body() - want
        return None if e.is_zero() else "%s instead of %s" % (
            str(L.body())[:250], str(want)[:250])

    def moments():
        a = w.arr("a", plates)
        u = w.call(w.new("GammaPriorMoments"), "compute_fixed_moments", a)
        return differs(u[0], a, pl) or differs(u[1], w.sp("gammaln", a), pl)

    settle(ctx, "update", label, where, update)
    settle(ctx, "bound", label, where, bound)
    if reg == "full":
        settle(ctx, "moments", label, where_of(ctx, "GammaPriorMoments"), moments)


# ------------------------------------------------------------ arrays optimised by the user
# ------------------------------------------------------------ inverse of psi
class Affine:
    """numpy where psi(x) == c x + d and every start of the iteration is arbitrary."""

    def __init__(self, w):
        self.w, self.np = w, w.it.np
        self.c, self.d = w.arr("c", ()), w.arr("d", ())

    def __getattr__(self, name):
        return getattr(self.np, name)

    def call(self, it, name, args, kw):
        if name in ("scipy.special.psi", "scipy.special.digamma"):
            return tn.add(tn.mul(self.c, tn.lift(args[0])), self.d)
        if name == "scipy.special.polygamma":
            if args[0] == 0:
                return tn.add(tn.mul(self.c, tn.lift(args[1])), self.d)
            at = tn.lift(args[1])
            zero = tn.mul(at, tn.lift(0))
            if args[0] != 1:
                return zero
            # the derivative is known where the iteration is; elsewhere it is another number
            here = any("start" in str(b) for b in at.data.values()) or \
                at.ndim == self.goal.ndim and differs(at, self.goal, self.goal.shape()) is None
            return tn.add(self.c if here else self.w.arr("slope", ()), zero)
        if name == "numpy.where" and len(args) == 3:
            self.n = getattr(self, "n", 0) + 1
            like = tn.add(tn.lift(args[1]), tn.lift(args[2]))
            return self.w.generic("start%d" % self.n, like)
        return self.np.call(it, name, args, kw)


def inverse(ctx):
    """Newton's method is exact in one step, from any start, for affine functions."""
    ctx.rule("inverse", "the iteration for the inverse of psi is Newton's: exact from any start "
             "if psi is replaced by an affine function", floor=1)
    where = "bayespy/utils/misc.py"
    for shape in [(), ("N",), ("N", "D")]:
        def f(shape=shape):
            w = Points(ctx)
            w.it.overrides.pop("bayespy.utils.misc.invpsi")
            w.it.np = a = Affine(w)
            x = w.arr("x", shape)
            a.goal = tn.mul(tn.sub(x, a.d), npdomain.call(w.it, "numpy.divide", [1, a.c], {}))
            y = w.it.call(w.func("bayespy.utils.misc.invpsi"), [x], {})
            if not hasattr(a, "n"):
                raise Unsupported("no start of an iteration")
            d = differs(y, a.goal, w.shape(shape))
            ctx.functions.update(w.it.functions)
            return d
        settle(ctx, "inverse", "invpsi of %s" % ("a number" if not shape else
                                                 "an array of %d axes" % len(shape)), where, f)


DRIVER = """
import numpy as np

def product(a, b):
    return a * b

def product_a(m, a, b):
    return m * b

def product_b(m, a, b):
    return m * a

def scale(s, b):
    return s * b

def scale_s(m, s, b):
    return np.sum(m * b)

def scale_b(m, s, b):
    return s * m

def square(x):
    return x * x
"""


def ml(ctx, w):
    where = where_of(ctx, "MaximumLikelihood")
    w = Points(ctx)
    w.sizes = {"N": 2, "M": 3}
    env = w.it.load_source("objective", DRIVER).vars
    D = "D"
    dd = (D, D)

    def matrices(node):
        """The array as precision matrices."""
        return w.it.call(w.it.getattr(w.it.get_class("Node"), "_ensure_moments"),
                         [node, w.it.get_class("WishartMoments")], {"ndim": 1})

    def array(name, plates):
        # the first derivative of the bound at symmetric matrices
        return w.arr(name, tuple(plates) + dd, sym=2)

    def bound_gradient(X, plates, terms):
        """d/dX of sum of <M0, X> + M1 logdet X over the children's active plates."""
        shape = w.shape(tuple(plates) + dd)
        inv = md.inv_arr(X)
        out = tn.lift(0)
        for cp, m0, m1, mask, k in terms:
            t = tn.add(m0, tn.mul(expand_right(m1, 2), inv))
            t = tn.mul(t, expand_right(tn.lift(mask), 2))
            t = tn.broadcast_to(t, w.shape(tuple(cp) + dd))
            if k is not None:
                t = tn.mul(t, k)
            while t.ndim > len(shape):
                t = tn.sum_axes(t, (0,))
            for ax in range(len(shape) - 2):
                if plates[ax] == 1 and t.axes[ax] is not None:
                    t = tn.sum_axes(t, (ax,), keepdims=True)
            out = tn.add(out, t)
        return tn.broadcast_to(out, shape)

    def gradient(node):
        g = w.call(node, "get_riemannian_gradient")
        g = w.call(node, "get_gradient", g)
        if len(g) != 1:
            raise Unsupported("%d gradients" % len(g))
        return g[0]

    def child(c, cp, tag="", mpat=None, upat=None, multiplier=None):
        cp = tuple(cp)
        pat = cp if upat is None else tuple(upat)
        m0, m1 = w.arr("M0" + tag, pat + dd, sym=2), w.arr("M1" + tag, pat)
        mask = True if mpat is None else w.arr("z" + tag, tuple(mpat), indicator=True)
        mz = [m0, m1] if mask is True else \
            [tn.mul(m0, expand_right(mask, 2)), tn.mul(m1, mask)]
        kw = {} if multiplier is None else {"multiplier": multiplier}
        w.sink(c, w.shape(cp), mz, True if mask is True else mask, **kw)
        w.call(c, "_update_mask")
        k = None
        if multiplier is not None:
            k = tn.lift(1)
            for a in multiplier:
                k = tn.mul(k, tn.lift(a))
        return cp, m0, m1, tn.lift(1) if mask is True else mask, k

    def case(label, plates, children):
        def f():
            w.reset()
            X = array("X", plates)
            node = w.new("MaximumLikelihood", X)
            c = matrices(node)
            terms = [child(c, tag=str(i), **kw) for i, kw in enumerate(children)]
            want = expected(lambda: bound_gradient(X, plates, terms))
            return differs(gradient(node), want, w.shape(tuple(plates) + dd))
        settle(ctx, "gradient", "array of %s: %s" % (show(plates), label), where, f)

    def show(p):
        return "matrices" if not p else "%s matrices" % " x ".join(map(str, p))

    N, M, K = "N", "M", 2
    for plates in [(), (N,), (1,), (M, N), (M, 1)]:
        full = tuple(M if a == 1 else a for a in plates)
        case("one child", plates, [dict(cp=plates)])
        for cp in {full, (K,) + full}:
            if cp == plates:
                continue
            case("child over plates %s" % "x".join(map(str, cp)), plates, [dict(cp=cp)])
        for p in scen.patterns(full):
            case("mask [%s]" % ",".join(map(str, p)), plates, [dict(cp=full, mpat=p)])
            if p != full:
                case("message [%s]" % ",".join(map(str, p)), plates, [dict(cp=full, upat=p)])
        case("two children", plates, [dict(cp=plates), dict(cp=(K,) + full)])
    case("child with repeated plates", (), [dict(cp=(K,), multiplier=(w.arr("k", ()),))])
    case("child with repeated plates", (N,), [dict(cp=(K, N), multiplier=(w.arr("k", ()), 1))])

    # -- through functions of arrays
    def through(label, plates, build):
        def f():
            w.reset()
            arrays, value, grads, node = build(plates)
            c = matrices(node)
            terms = [child(c, plates)]
            G = expected(lambda: bound_gradient(value, plates, terms))
            for (nd, want, shape) in grads(G):
                d = differs(gradient(nd), want, shape)
                if d:
                    return d
            return None
        settle(ctx, "gradient", "%s of %s" % (label, show(plates)), where_of(ctx, "Function"), f)

    def build_product(plates):
        A, B = array("A", plates), array("B", plates)
        a, b = w.new("MaximumLikelihood", A), w.new("MaximumLikelihood", B)
        fn = w.new("Function", env["product"], (a, env["product_a"]), (b, env["product_b"]))
        full = w.shape(tuple(plates) + dd)
        return (A, B), tn.mul(A, B), lambda G: [(a, tn.mul(G, B), full),
                                                (b, tn.mul(G, A), full)], fn

    def build_scale(plates):
        s, B = w.arr("s", ()), array("B", plates)
        a, b = w.new("MaximumLikelihood", s), w.new("MaximumLikelihood", B)
        fn = w.new("Function", env["scale"], (a, env["scale_s"]), (b, env["scale_b"]))
        return (s, B), tn.mul(s, B), lambda G: [
            (a, tn.sum_axes(tn.mul(G, B)), ()),
            (b, tn.mul(G, s), w.shape(tuple(plates) + dd))], fn

    def build_chain(plates):
        A, B, C = array("A", plates), array("B", plates), array("C", plates)
        a, b, c = (w.new("MaximumLikelihood", x) for x in (A, B, C))
        f1 = w.new("Function", env["product"], (a, env["product_a"]), (b, env["product_b"]))
        f2 = w.new("Function", env["product"], (f1, env["product_a"]), (c, env["product_b"]))
        full = w.shape(tuple(plates) + dd)
        AB = tn.mul(A, B)
        return (A, B, C), tn.mul(AB, C), lambda G: [
            (a, tn.mul(tn.mul(G, C), B), full), (b, tn.mul(tn.mul(G, C), A), full),
            (c, tn.mul(G, AB), full)], f2

    def build_shared(plates):
        A, B = array("A", plates), array("B", plates)
        a, b = w.new("MaximumLikelihood", A), w.new("MaximumLikelihood", B)
        f1 = w.new("Function", env["product"], (a, env["product_a"]), (b, env["product_b"]))
        f2 = w.new("Function", env["product"], (f1, env["product_a"]), (a, env["product_b"]))
        full = w.shape(tuple(plates) + dd)
        return (A, B), tn.mul(tn.mul(A, B), A), lambda G: [
            (a, tn.mul(tn.mul(tn.mul(G, A), B), tn.lift(2)), full),
            (b, tn.mul(tn.mul(G, A), A), full)], f2

    for plates in [(), (N,)]:
        through("product of two arrays", plates, build_product)
        through("array scaled by a number", plates, build_scale)
        through("function of a function", plates, build_chain)
        through("array used twice", plates, build_shared)

    # -- the array itself
    def parameters():
        w.reset()
        X, Y = array("X", (N,)), array("Y", (N,))
        full = w.shape((N,) + dd)
        node = w.new("MaximumLikelihood", X)
        d = differs(w.call(node, "get_moments")[0], X, full) or \
            differs(w.call(node, "get_parameters")[0], X, full)
        if d:
            return d
        old = w.call(node, "get_parameters")[0]
        w.call(node, "set_parameters", [Y])
        before = array("X", (N,))
        d = differs(old, before, full)
        if d:
            return "the parameters read before are overwritten: " + d
        d = differs(X, before, full)
        if d:
            return "the array given by the user is overwritten: " + d
        return differs(w.call(node, "get_moments")[0], Y, full) or \
            differs(w.call(node, "get_parameters")[0], Y, full)
    settle(ctx, "moments", "array after set_parameters", where, parameters)

    def regular(reg, want):
        def f():
            w.reset()
            X = array("X", (N,))
            node = w.new("MaximumLikelihood", X, regularization=reg)
            L = tn.lift(w.call(node, "lower_bound_contribution"))
            e = L.body() - want(X)
            return None if e.is_zero() else "%s instead of %s" % (L.body(), want(X))
        return f
    settle(ctx, "bound", "array without regularisation", where,
           regular(None, lambda X: tn.lift(0).body()))
    settle(ctx, "bound", "array with regularisation", where,
           regular(env["square"], lambda X: tn.sub(
               tn.lift(0), tn.sum_axes(tn.mul(X, X))).body()))

    def reg_gradient():
        w.reset()
        X = array("X", ())
        node = w.new("MaximumLikelihood", X, regularization=env["square"])
        terms = [child(matrices(node), ())]
        want = tn.sub(bound_gradient(X, (), terms), tn.mul(X, tn.lift(2)))
        return differs(gradient(node), want, w.shape(dd))
    settle(ctx, "gradient", "array with regularisation", where, reg_gradient)
    ctx.functions.update(w.it.functions)

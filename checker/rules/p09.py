"""P09: transformations of posteriors (rotations, translations, the rotation optimiser).

Rules
 posterior  after rotate / translate / rotate_plates of a node, its natural parameters,
            moments and normaliser are those of the transformed variable;
 cost       the bound a rotator gives for a rotation is the lower bound of its nodes after
            that rotation, up to terms which do not depend on the rotation;
 gradient   its gradient is the derivative of that bound;
 rotator    rotator.rotate applies that rotation to its nodes;
 optimiser  the optimiser maximises the sum of the bounds of the blocks under R and
            inv(R)', with the gradient of that, and applies the optimum to both blocks.

The rotation is an arbitrary invertible matrix of arbitrary size; moments and natural
parameters are arbitrary.
"""
import itertools
import os
from fractions import Fraction as Q

import matdomain as md
import npdomain
import scen
from fan import fan
import tensor as tn
from absint import IRaise
from nodeworld import World, same
from scen import expected
from tensor import Arr, Body, Unsupported, ShapeError

SIZES = {"N": 2, "M": 3}
HALF = Q(1, 2)


def es(w, subs, *arrs):
    return npdomain.np_einsum(w.it, [subs] + [tn.lift(a) for a in arrs], {})


def add(*xs):
    out = tn.lift(xs[0])
    for x in xs[1:]:
        out = tn.add(out, tn.lift(x))
    return out


def scale(a, c):
    return tn.elementwise(lambda b: b.scale(Q(c)), tn.lift(a))


def equal(a, b, shape):
    """Equality of arrays broadcast to `shape`, up to products with inverses."""
    d = tn.sub(tn.broadcast_to(tn.lift(a), shape), tn.broadcast_to(tn.lift(b), shape))
    for x in d.data.values():
        if not x.is_zero() and not settle(x).is_zero():
            return False
    return True


def settle(x):
    return md.resolve(tn.cancel(x))


class Case:
    def __init__(self, cls, label, make, names, dims, syms):
        self.cls, self.label, self.make = cls, label, make
        self.names, self.dims, self.syms = names, dims, syms


def L(k):
    return "abcdefgh"[:k]


def rot(shape, axis):
    """einsum strings of R applied to `axis` of a vector / to a covariance of `shape`."""
    n = len(shape)
    axis = axis % n
    i, o = L(n), list(L(n))
    o[axis] = "z"
    I, O = i.upper(), list(i.upper())
    O[axis] = "Z"
    o, O = "".join(o), "".join(O)
    vec = "z%s,...%s->...%s" % (i[axis], i, o)
    cov = "z%s,...%s%s,Z%s->...%s%s" % (i[axis], i, I, I[axis], o, O)
    return vec, cov


class Law:
    """What a rotation of `axis` does to moments and natural parameters of each kind."""

    def __init__(self, kind, shape, axis=-1):
        self.kind, self.shape, self.axis = kind, shape, axis

    def apply(self, w, R, xs):
        if self.kind == "gaussian":
            v, c = rot(self.shape, self.axis)
            return [es(w, v, R, xs[0]), es(w, c, R, xs[1], R)] + list(xs[2:])
        # chain: the second statistics are per time instance
        return [es(w, "za,...na->...nz", R, xs[0]), es(w, "za,...nab,yb->...nzy", R, xs[1], R),
                es(w, "za,...nab,yb->...nzy", R, xs[2], R)]

    def count(self, w):
        """Number of rotated vectors in one variable."""
        n = 1
        out = Body.const(1)
        if self.kind == "gaussian":
            for k, a in enumerate(self.shape):
                if k != self.axis % len(self.shape):
                    out = out * tn.to_body(w.n(a))
            return out
        return tn.to_body(w.n(self.shape[0]))


def plain(w, kind, *a, **k):
    return scen.Src(w, kind, *a, **k)


def gaussian_node(shape, plates):
    def f(w):
        mu = scen.Src(w, scen.gaussian, "m", (), shape)
        La = scen.Src(w, scen.wishart, "l", (), shape)
        return w.new("Gaussian", mu.obj, La.obj, plates=w.shape(plates), initialize=False)
    return f


def ard_node(shape, plates):
    def f(w):
        mu = scen.Src(w, scen.gaussian, "m", (), ())
        al = scen.Src(w, scen.gamma, "l", (), ())
        return w.new("GaussianARD", mu.obj, al.obj, shape=w.shape(shape),
                     plates=w.shape(plates), initialize=False)
    return f


def gg_node(shape, plates):
    def f(w):
        mu = scen.Src(w, scen.gaussian, "m", (), shape)
        La = scen.Src(w, scen.wishart, "l", (), shape)
        a = w.it.call(w.it.get_class("GammaPriorMoments"), [], {})
        b = scen.Src(w, scen.gamma, "b", (), ())
        return w.new("GaussianGamma", mu.obj, La.obj, 3, b.obj, plates=w.shape(plates), initialize=False)
    return f


def chain_node(n, d, plates):
    def f(w):
        mu = scen.Src(w, scen.gaussian, "m", (), (d,))
        La = scen.Src(w, scen.wishart, "l", (), (d,))
        A = scen.Src(w, scen.gaussian, "A", (d,), (d,))
        v = scen.Src(w, scen.gamma, "v", (d,), ())
        return w.new("GaussianMarkovChain", mu.obj, La.obj, A.obj, v.obj, n=n,
                     plates=w.shape(plates), initialize=False)
    return f


def nodes():
    """(class, label, make, kind, shape, plates)"""
    out = []
    for pl in ((), ("N",), ("M", "N")):
        out.append(("Gaussian", gaussian_node(("d",), pl), "gaussian", ("d",), pl))
        for sh in (("d",), ("m", "d"), ("d", "d"), ("k", "m", "d")):
            if len(pl) == 2 and len(sh) == 3:
                continue
            out.append(("GaussianARD", ard_node(sh, pl), "gaussian", sh, pl))
        out.append(("GaussianGamma", gg_node(("d",), pl), "gg", ("d",), pl))
        out.append(("GaussianMarkovChain", chain_node(3, "d", pl), "chain", (3, "d"), pl))
    return out


def generic(w, node, name, plates, syms, dims=None):
    dims = node_specs(w, node) if dims is None else dims
    return [w.arr("%s%d" % (name, k), tuple(plates) + tuple(d), sym=s)
            for k, (d, s) in enumerate(zip(dims, syms))]


def node_specs(w, node):
    return [scen.axis_specs(w, d) for d in w.get(node, "dims")]


SYMS = {"gaussian": lambda sh: [0, len(sh)], "gg": lambda sh: [0, len(sh), 0, 0],
        "chain": lambda sh: [0, 1, 0]}


def set_state(w, node, kind, shape, plates, ppl, consistent=False):
    syms = SYMS[kind](shape)
    u = generic(w, node, "u", plates, syms)
    phi = generic(w, node, "p", ppl, syms)
    if consistent:
        n = len(shape)
        i = L(n)
        if kind == "gg":
            # u0 = tau*mean
            mean = es(w, "...a,...->...a", u[0],
                      tn.elementwise(lambda b: b.power(-1), u[2]))
            phi[0] = scale(es(w, "...ab,...b->...a", phi[1], mean), -2)
        else:
            phi[0] = scale(es(w, "...%s%s,...%s->...%s" % (i, i.upper(), i.upper(), i),
                              phi[1], u[0]), -2)
    g = w.arr("g", ppl)
    f = w.arr("f", plates)
    for k, v in (("u", list(u)), ("phi", list(phi)), ("g", g), ("f", f)):
        w.it.setattr(node, k, v)
    # values, as the transformations may work in place
    cp = lambda a: Arr(a.axes, dict(a.data), a.dtype)
    return [cp(x) for x in u], [cp(x) for x in phi], cp(g), cp(f)


def read(w, node):
    return ([tn.lift(x) for x in w.get(node, "u")], [tn.lift(x) for x in w.get(node, "phi")],
            tn.lift(w.get(node, "g")), tn.lift(w.get(node, "f")))


def judge(ctx, w, node, where, what, got, want, plates):
    """Compare (u, phi, g, f)."""
    pl = w.shape(plates)
    for part, a, b in (("moments", got[0], want[0]), ("natural parameters", got[1], want[1])):
        for k, (x, y, d) in enumerate(zip(a, b, w.get(node, "dims"))):
            ctx.verdict("posterior", what, equal(x, y, tuple(pl) + tuple(d)),
                        "%s %d are not those of the transformed variable" % (part, k), where)
        if len(a) != len(b):
            ctx.bad("posterior", what, "number of %s changed" % part, where)
    ctx.verdict("posterior", what, equal(got[2], want[2], pl),
                "the normaliser is not that of the transformed variable", where)
    ctx.verdict("posterior", what, equal(got[3], want[3], pl),
                "the fixed term changed", where)


def matrix(w, name="R", d="d"):
    R = w.arr(name, (d, d))
    return R, md.inv(R), md.logdet_arr(R)


def posterior(ctx, w):
    for cls, make, kind, shape, plates in nodes():
        where = ctx.class_where(cls)
        ppls = [plates] + ([tuple(1 for _ in plates)] if plates else [])
        for ppl in ppls:
            axes = [-1]
            if cls == "GaussianARD":
                axes = [a for a in range(-len(shape), len(shape)) if shape[a] == "d"]
            for axis, given in itertools.product(axes, (0, 1)):
                what = "%s%s.rotate(%s%s) plates %s%s" % (
                    cls, list(shape), "R" if not given else "R, inv, logdet",
                    ", axis=%d" % axis if axis != -1 else "", list(plates),
                    scen.describe(plates, ppl))
                with ctx.instance("posterior", what):
                    w.reset()
                    node = make(w)
                    u, phi, g, f = set_state(w, node, kind, shape, plates, ppl)
                    R, invR, logdetR = matrix(w)
                    kw = {}
                    if given:
                        kw.update(inv=invR, logdet=logdetR)
                    if axis != -1:
                        kw["axis"] = axis
                    w.it.call(w.it.getattr(node, "rotate"), [R], kw)

                    def spec():
                        law = Law("chain" if kind == "chain" else "gaussian", shape, axis)
                        it = es(w, "ij->ji", invR)
                        n = law.count(w)
                        dg = tn.elementwise(lambda b: b * n, logdetR)
                        return (law.apply(w, R, u), law.apply(w, it, phi),
                                tn.sub(g, dg), f)
                    judge(ctx, w, node, where, what, read(w, node), expected(spec), plates)
            if kind == "chain":
                continue
            for bpl in dict.fromkeys([plates, (), tuple(1 for _ in plates)]):
                what = "%s%s.translate(b%s) plates %s%s" % (
                    cls, list(shape), list(bpl) + list(shape), list(plates),
                    scen.describe(plates, ppl))
                with ctx.instance("posterior", what):
                    w.reset()
                    node = make(w)
                    u, phi, g, f = set_state(w, node, kind, shape, plates, ppl, True)
                    b = w.arr("b", tuple(bpl) + tuple(shape))
                    w.call(node, "translate", b)
                    judge(ctx, w, node, where, what, read(w, node),
                          expected(lambda: translated(w, kind, shape, u, phi, g, f, b)), plates)


def translated(w, kind, shape, u, phi, g, f, b):
    n = len(shape)
    i, I = L(n), L(n).upper()
    La = scale(phi[1], -2)
    Lb = es(w, "...%s%s,...%s->...%s" % (i, I, I, i), La, b)
    bLb = es(w, "...%s,...%s->..." % (i, i), Lb, b)
    dot = lambda x: es(w, "...%s,...%s->..." % (i, i), Lb, x)
    out = lambda x, y: es(w, "...%s,...%s->...%s%s" % (i, I, i, I), x, y)
    phi0 = tn.add(phi[0], Lb)
    if kind == "gaussian":
        u2 = [tn.add(u[0], b), add(u[1], out(u[0], b), out(b, u[0]), out(b, b))]
        g2 = add(g, scale(dot(u[0]), -1), scale(bLb, -HALF))
        return u2, [phi0, phi[1]], g2, f
    # (tau x, tau xx, tau, log tau)
    tb = es(w, "...a,...->...a", b, u[2])
    u2 = [tn.add(u[0], tb), add(u[1], out(u[0], b), out(b, u[0]), out(tb, b)), u[2], u[3]]
    mean = es(w, "...a,...->...a", u[0], tn.elementwise(lambda x: x.power(-1), u[2]))
    p2 = add(phi[2], scale(dot(mean), -1), scale(bLb, -HALF))
    return u2, [phi0, phi[1], p2, phi[3]], g, f



# ------------------------------------------------------- approximate plate rotations
def plate_rotations(ctx, w):
    """The mean is rotated exactly; moments and normaliser follow the parameters."""
    cases = []
    for sh in (("d",),):
        for pl in (("N",), ("M", "N"), ("N", "M"), ("M", "N", 1)):
            for ax in range(-len(pl), len(pl)):
                if pl[ax] == "N":
                    cases.append(("GaussianARD", ard_node(sh, pl), sh, pl, ax))
    cases.append(("Gaussian", gaussian_node(("d",), ("N",)), ("d",), ("N",), 0))
    for cls, make, sh, pl, ax in cases:
        for ppl in dict.fromkeys([pl, tuple(1 for _ in pl)]):
            if cls == "Gaussian" and ppl != pl:
                continue
            what = "%s%s.%s plates %s%s" % (
                cls, list(sh), "rotate(R, Q)" if cls == "Gaussian" else
                "rotate_plates(Q, %d)" % ax, list(pl), scen.describe(pl, ppl))
            with ctx.instance("posterior", what):
                w.reset()
                node = make(w)
                u, phi, g, f = set_state(w, node, "gaussian", sh, pl, ppl)
                Qm = w.arr("Q", ("N", "N"))
                n = len(sh)
                i, I = L(n), L(n).upper()
                k = pl.index("N")
                p, q = list("xyz"[:len(pl)]), list("xyz"[:len(pl)])
                p[k], q[k] = "w", "v"
                mean = es(w, "vw,%s%s->%s%s" % ("".join(p), i, "".join(q), i), Qm, u[0])
                if cls == "Gaussian":
                    R, invR, logdetR = matrix(w)
                    w.it.call(w.it.getattr(node, "rotate"), [R], {"Q": Qm})
                    mean = es(w, "ab,...b->...a", R, mean)
                else:
                    w.it.call(w.it.getattr(node, "rotate_plates"), [Qm], {"plate_axis": ax})
                got = read(w, node)
                phi1 = got[1][1]
                want = scale(es(w, "...%s%s,...%s->...%s" % (i, I, I, i), phi1, mean), -2)
                shape = tuple(w.shape(pl)) + tuple(w.shape(sh))
                ctx.verdict("posterior", what, equal(got[1][0], want, shape),
                            "the mean is not rotated exactly", ctx.class_where(cls))
                dist = w.get(node, "_distribution")
                u2, g2 = w.it.call(w.it.getattr(dist, "compute_moments_and_cgf"),
                                   [list(got[1])], {})
                ok = all(equal(x, tn.lift(y), tuple(w.shape(pl)) + tuple(d))
                         for x, y, d in zip(got[0], u2, w.get(node, "dims")))
                ctx.verdict("posterior", what, ok and equal(got[2], tn.lift(g2), w.shape(pl)),
                            "moments or normaliser differ from those of the natural parameters",
                            ctx.class_where(cls))


# ----------------------------------------------------------------- derivative
def deep(n):
    """Names in an atom, nested functions included."""
    if isinstance(n, tuple):
        for x in n:
            yield from deep(x)
    elif isinstance(n, Body):
        for m in n.names():
            yield from deep(m)
    elif isinstance(n, md.Mat):
        yield from deep(n.body)
    else:
        yield n


def mentions(n, name):
    return name in set(deep(n))


def varying(body, name):
    """The terms which depend on the matrix `name`."""
    return Body({(fs, bd): c for (fs, bd), c in body.t.items()
                 if any(mentions(f[0], name) for f in fs)})


def diff(body, name, i, j):
    """Derivative with respect to the element [i, j] of the matrix `name`."""
    out = tn.ZERO
    for (fs, bd), c in body.t.items():
        for at, (n, ix, q) in enumerate(fs):
            if not mentions(n, name):
                continue
            ren = {b: tn.fresh(b[0]) for b in bd}
            ix_ = tn._subst_idx(ix, ren)
            rest = Body({(tuple((m, tn._subst_idx(x, ren), r) for k, (m, x, r) in enumerate(fs)
                                if k != at), ()): c})
            d = diff_atom(n, ix_, name, i, j).scale(q)
            if q != 1:
                d = d * Body.atom(n, ix_, q - 1)
            out = out + (rest * d).bind(list(ren.values()))
    return out


def diff_atom(n, ix, name, i, j):
    if n == name:
        return Body.atom("delta", (ix[0], i)) * Body.atom("delta", (ix[1], j))
    if isinstance(n, tuple) and n[0] in ("poly", "log") and isinstance(n[1], Body):
        ph = tn.placeholder_order(n[1])
        if len(ph) == len(ix):
            b = n[1].rename(dict(zip(ph, ix)))
            d = diff(b, name, i, j)
            return d if n[0] == "poly" else d * b.power(-1)
    if isinstance(n, tuple) and n[0] == "abs" and isinstance(n[1], Body):
        ph = tn.placeholder_order(n[1])
        if len(ph) == len(ix):
            b = n[1].rename(dict(zip(ph, ix)))
            return diff(b, name, i, j) * b.power(-1) * Body.atom(n, ix)
    if isinstance(n, tuple) and isinstance(n[1], md.Mat) and n[1].body == \
            Body.atom(name, (n[1].row, n[1].col)):
        inv = lambda x, y: md.fn("inv", n[1], (), x, y)
        if n[0] == "logabsdet":
            return inv(j, i)
        if n[0] == "inv":
            return (inv(ix[0], i) * inv(j, ix[1])).scale(-1)
    raise Unsupported("derivative of %s" % (n,))


def gradient_of(w, body, name="R", d="d"):
    i, j = tn.fresh(d), tn.fresh(d)
    return Arr((i, j), {(): diff(body, name, i, j)})


def scalar(x):
    a = tn.lift(x)
    if a.ndim:
        raise ShapeError("not a scalar")
    return a.body()


def agree(a, b, name):
    """a == b up to terms which do not depend on the matrix."""
    d = varying(a - b, name)
    return d.is_zero() or varying(settle(d), name).is_zero()


def total(a):
    return tn.sum_axes(tn.lift(a)).body()


# -------------------------------------------------------------- rotators: GaussianARD
def sum_to(w, a, shape, full):
    """Sum of the array (broadcast to `full`) over the axes which `shape` lacks."""
    a = tn.broadcast_to(tn.lift(a), full)
    lead = len(full) - len(shape)
    axes = list(range(lead))
    a = tn.sum_axes(a, axes) if axes else a
    for k, n in enumerate(shape):
        if npdomain.is_same(n, 1) and not npdomain.is_same(full[lead + k], 1):
            a = tn.sum_axes(a, [k], keepdims=True)
    return a


class Ard:
    """GaussianARD with its mean and precision, arbitrary state."""

    def __init__(self, w, shape, plates, mpat, apat, gamma, axis, a0pat=(), b0pat=None):
        self.shape, self.plates, self.axis, self.gamma = shape, plates, axis, gamma
        self.full = tuple(w.shape(plates)) + tuple(w.shape(shape))
        mu = scen.Src(w, scen.gaussian, "m", mpat, ())
        self.mu = mu.u
        if gamma:
            b0 = scen.Src(w, scen.gamma, "b", apat if b0pat is None else b0pat, ())
            a0 = scen.Src(w, scen.gammaprior, "a", a0pat, ())
            self.a0, self.b0 = a0.u[0], b0.u[0]
            self.alpha = w.new("Gamma", a0.obj, b0.obj, plates=w.shape(apat), initialize=False)
            self.al = [w.arr("al%d" % k, apat) for k in (0, 1)]
            self.aphi = [w.arr("ap%d" % k, apat) for k in (0, 1)]
            w.it.setattr(self.alpha, "u", list(self.al))
            w.it.setattr(self.alpha, "phi", list(self.aphi))
            par = self.alpha
        else:
            self.alpha = None
            al = scen.Src(w, scen.gamma, "al", apat, ())
            self.al = al.u
            par = al.obj
        self.apat = w.shape(apat)
        self.X = w.new("GaussianARD", mu.obj, par, shape=w.shape(shape), plates=w.shape(plates),
                       initialize=False)
        self.u = [w.arr("u%d" % k, tuple(plates) + tuple(shape) * (k + 1), sym=k * len(shape))
                  for k in (0, 1)]
        w.it.setattr(self.X, "u", list(self.u))
        # all of it has observed descendants
        w.it.setattr(self.X, "mask", npdomain.call(w.it, "numpy.array", [True], {}))
        for parent in w.it.iterate(w.get(self.X, "parents")):
            w.call(parent, "_update_mask")

    def rotator(self, w, **kw):
        if len(self.shape) > 1 or self.axis != -1:
            kw["axis"] = self.axis
        return w.new("RotateGaussianARD", self.X, *([self.alpha] if self.alpha else []), **kw)

    def transformed(self, w, R, Qm=None, pax=None):
        """Moments of the rotated variable."""
        v, c = rot(self.shape, self.axis)
        x, xx = self.u
        if Qm is not None:
            n = len(self.shape)
            i, I = L(n), L(n).upper()
            cov = tn.sub(xx, es(w, "...%s,...%s->...%s%s" % (i, I, i, I), x, x))
            k = len(self.plates) + pax
            p, q = list("stxyz"[:len(self.plates)]), list("stxyz"[:len(self.plates)])
            p[k], q[k] = "w", "v"
            p, q = "".join(p), "".join(q)
            x = es(w, "vw,%s%s->%s%s" % (p, i, q, i), Qm, x)
            col = es(w, "vw->w", Qm)
            cov = es(w, "w,w,%s%s%s->%s%s%s" % (p, i, I, p, i, I), col, col, cov)
            xx = tn.add(cov, es(w, "...%s,...%s->...%s%s" % (i, I, i, I), x, x))
        return es(w, v, R, x), es(w, c, R, xx, R)

    def rotated(self, w, R, Qm=None, pax=None):
        """Elementwise moments of the rotated variable."""
        x, xx = self.transformed(w, R, Qm, pax)
        ii = L(len(self.shape))
        return x, es(w, "...%s%s->...%s" % (ii, ii, ii), xx)

    def square(self, x, xx):
        return add(xx, scale(tn.mul(x, self.mu[0]), -2), self.mu[1])

    def rate(self, w, sq):
        """The optimal rate of alpha."""
        b = tn.add(self.b0, scale(sum_to(w, sq, self.apat, self.full), HALF))
        return tn.broadcast_to(b, self.apat)

    def shape_parameter(self, w):
        n = sum_to(w, tn.broadcast_to(tn.lift(1), self.full), self.apat, self.full)
        return tn.broadcast_to(tn.add(self.a0, scale(n, HALF)), self.apat)

    def bounds(self, w, R, logdet, Qm=None, pax=None):
        """Lower bound terms of X and alpha after the rotation (up to constants)."""
        x, xx = self.rotated(w, R, Qm, pax)
        sq = self.square(x, xx)
        count = Body.const(1)
        for k, n in enumerate(self.full):
            if k != len(self.full) + self.axis - (len(self.shape) if self.axis >= 0 else 0):
                count = count * tn.to_body(n)
        ent = logdet.body() * count
        if Qm is not None:
            col = tn.elementwise(tn.log_body, tn.lift(npdomain.call(
                w.it, "numpy.abs", [es(w, "vw->w", Qm)], {})))
            c = Body.const(1)
            for k, n in enumerate(self.full):
                if k != len(self.plates) + pax:
                    c = c * tn.to_body(n)
            ent = ent + total(col) * c
        out = {}
        if self.alpha is None:
            out["X"] = total(tn.mul(sq, self.al[0])).scale(-HALF) + ent
            return out
        b = self.rate(w, sq)
        logb = tn.elementwise(tn.log_body, b)
        alpha = tn.mul(self.aphi[1], tn.elementwise(lambda v: v.power(-1), b))
        out["X"] = total(tn.broadcast_to(logb, self.full)).scale(-HALF) \
            + total(tn.broadcast_to(tn.mul(sq, alpha), self.full)).scale(-HALF) + ent
        out["alpha"] = total(tn.broadcast_to(add(scale(tn.mul(self.a0, logb), -1),
                                             scale(tn.mul(self.b0, alpha), -1)), self.apat))
        return out


def cost_ard(ctx, w):
    where = ctx.class_where("RotateGaussianARD")
    cases = []
    for sh, axis in ((("d",), -1), (("m", "d"), -1), (("d", "m"), -2), (("d", "m"), 0)):
        for pl in ((), ("N",), ("M", "N")):
            if len(pl) == 2 and len(sh) == 2:
                continue
            full = tuple(pl) + sh
            pats = scen.patterns(full)
            for gamma in (True, False):
                for apat in pats:
                    cases.append((sh, axis, pl, full, apat, gamma, apat, ()))
            cases.append((sh, axis, pl, sh, sh, True, (), ()))
            cases.append((sh, axis, pl, (), sh, True, sh, sh))
            cases.append((sh, axis, pl, (), sh, True, tuple(1 for _ in sh),
                          tuple(1 for _ in sh)))

    def job(case):
        sh, axis, pl, mpat, apat, gamma, b0, a0 = case
        what = "RotateGaussianARD(X%s, %s) axis=%d plates %s mu%s alpha%s%s" % (
            list(sh), "alpha" if gamma else "", axis, list(pl), list(mpat), list(apat),
            "" if b0 == apat else " b0%s a0%s" % (list(b0), list(a0)))
        with ctx.instance("cost", what):
            w.reset()
            m = Ard(w, sh, pl, mpat, apat, gamma, axis, a0, b0)
            R, invR, logdet = matrix(w)
            r = m.rotator(w)
            w.call(r, "setup")
            want = expected(lambda: m.bounds(w, R, logdet))
            compare(ctx, w, what, where, r, R, invR, logdet, want,
                    {"X": m.X, "alpha": m.alpha})

    return cases, job

def compare(ctx, w, what, where, r, R, invR, logdet, want, nodes, extra=None, name="R"):
    kw = {"logdet": logdet, "inv": invR}
    kw.update(extra or {})
    terms = w.it.call(w.it.getattr(r, "get_bound_terms"), [R], dict(kw))
    keys = {k: n for k, n in nodes.items() if n is not None}
    got = {k: scalar(terms[n]) for k, n in keys.items() if n in terms}
    ctx.verdict("cost", what, set(got) == set(keys) and len(terms) == len(keys),
                "the bound terms are not those of the nodes", where)
    for k in got:
        ctx.verdict("cost", what, agree(got[k], want[k], name),
                    "the term of %s is not its lower bound after the rotation" % k, where)
    res = w.it.call(w.it.getattr(r, "bound"), [R], dict(kw))
    b = scalar(res[0])
    s = tn.ZERO
    for v in want.values():
        s = s + v
    ctx.verdict("cost", what, agree(b, s, name), "the bound is not the sum of the terms", where)
    g = tn.broadcast_to(tn.lift(res[1]), R.shape())
    ctx.verdict("gradient", what, equal(g, gradient_of(w, varying(s, name), name), R.shape()),
                "the gradient is not the derivative of the bound", where)
    return res, s


def cost_plates(ctx, w):
    """Rotations of a plate axis along with the variable."""
    where = ctx.class_where("RotateGaussianARD")
    cases = []
    for sh, axis in ((("d",), -1), (("m", "d"), -1), (("d", "m"), -2)):
        for pl, pax in ((("e",), -1), (("N", "e"), -1), (("e", "N"), -2)):
            if len(pl) == 2 and len(sh) == 2:
                continue
            full = tuple(pl) + sh
            for gamma in (True, False):
                for apat in scen.patterns(full) if len(sh) == 1 else (sh, full, ()):
                    cases.append((sh, axis, pl, pax, (), apat, gamma, apat, ()))
            cases.append((sh, axis, pl, pax, full, sh, True, sh, ()))
            cases.append((sh, axis, pl, pax, (), sh, True, (), sh))
            cases.append((sh, axis, pl, pax, (), full, True, full, full))

    def job(case):
        (sh, axis, pl, pax, mpat, apat, gamma, b0, a0), pre = case
        what = "RotateGaussianARD(X%s, %s%s) axis=%d plates %s mu%s alpha%s%s, plate axis %d" % (
            list(sh), "alpha" if gamma else "", ", precompute" if pre else "", axis, list(pl),
            list(mpat), list(apat),
            "" if b0 == apat else " b0%s a0%s" % (list(b0), list(a0)), pax)
        with ctx.instance("cost", what):
            w.reset()
            m = Ard(w, sh, pl, mpat, apat, gamma, axis, a0, b0)
            R, invR, logdet = matrix(w)
            Qm = w.arr("Q", ("e", "e"))
            r = m.rotator(w, precompute=pre)
            w.it.call(w.it.getattr(r, "setup"), [], {"plate_axis": pax})
            want = expected(lambda: m.bounds(w, R, logdet, Qm, pax))
            nodes = {"X": m.X, "alpha": m.alpha}
            res, s = compare(ctx, w, what, where, r, R, invR, logdet, want, nodes, {"Q": Qm})
            g = tn.broadcast_to(tn.lift(res[2]), Qm.shape())
            ctx.verdict("gradient", what, equal(g, gradient_of(w, varying(s, "Q"), "Q", "e"),
                                                Qm.shape()),
                        "the gradient for the plates is not the derivative of the bound", where)
            for k in want:
                got = scalar(w.it.call(w.it.getattr(r, "get_bound_terms"), [R],
                                       {"logdet": logdet, "inv": invR, "Q": Qm})[nodes[k]])
                ctx.verdict("cost", what, agree(got, want[k], "Q"),
                            "the term of %s is not its lower bound after the rotation" % k, where)
    return list(itertools.product(cases, (False, True))), job


# ------------------------------------------------------------- rotators: Markov chains
def chain_moments(w, pl):
    """Moments (x, xx, xp) of a chain of three states, independent of its posterior."""
    return [w.arr("x0", tuple(pl) + (3, "d")), w.arr("x1", tuple(pl) + (3, "d", "d"), sym=1),
            w.arr("x2", tuple(pl) + (2, "d", "d"))]


class Chain:
    """A Markov chain with its initial state, dynamics and unit innovation noise."""

    def __init__(self, w, cls, pl, mu, la, args, rest, n=3):
        self.pl = pl
        self.mu = scen.Src(w, scen.gaussian, "cm", mu, ("d",))
        self.la = scen.Src(w, scen.wishart, "cl", la, ("d",))
        ones = npdomain.call(w.it, "numpy.ones", [w.n("d")], {})
        self.X = w.new(cls, self.mu.obj, self.la.obj, *args, ones, n=n, plates=w.shape(pl),
                       initialize=False, **rest)
        self.u = chain_moments(w, pl)
        w.it.setattr(self.X, "u", list(self.u))

    def term(self, w, R, logdet, rows):
        """-1/2 <|x0 - mu|^2 in Lambda> - 1/2 sum <|x_n - A_n x_{n-1}|^2> + entropy, of Rx.

        `rows(xp, xx)`: the second and third parts of the square, given the moments of the
        rotated states."""
        x, xx, xp = self.u
        x = es(w, "ij,...j->...i", R, x)
        xx = es(w, "ij,...jk,lk->...il", R, xx, R)
        xp = es(w, "ij,...jk,lk->...il", R, xp, R)
        full = tuple(w.shape(self.pl))
        first = lambda a, k: tn.getitem(a, (Ellipsis, 0) + (slice(None),) * k)
        t = tn.sub(es(w, "...ij,...ij->...", self.la.u[0], first(xx, 2)),
                   scale(es(w, "...i,...ij,...j->...", self.mu.u[0], self.la.u[0], first(x, 1)), 2))
        out = total(tn.broadcast_to(t, full)).scale(-HALF)
        after = tn.getitem(xx, (Ellipsis, slice(1, None), slice(None), slice(None)))
        out = out + total(es(w, "...ii->...", after)).scale(-HALF)
        before = tn.getitem(xx, (Ellipsis, slice(None, -1), slice(None), slice(None)))
        cross, square = rows(xp, before)
        steps = full + (2,)
        out = out + total(tn.broadcast_to(cross, steps)) \
            + total(tn.broadcast_to(square, steps)).scale(-HALF)
        count = Body.const(3)
        for k in full:
            count = count * tn.to_body(k)
        return out + logdet.body() * count


def cost_chain(ctx, w):
    """Markov chains with the rotation of their dynamics."""
    cases = []
    for pl in ((), ("N",)):
        for mu in scen.patterns(pl):
            for la in dict.fromkeys(((), pl)):
                cases.append(("", pl, mu, la, ("d",)))
    for pl in ((), ("N",)):
        for apl in ((2, "d"),) + ((tuple(pl) + (1, "d"), tuple(pl) + (2, "d")) if pl else ()):
            cases.append(("", pl, pl, (), apl))
    cases += [("", ("M", "N"), ("M", 1), (1, "N"), ("d",)),
              ("", ("M", "N"), (), (), ("M", 1, 1, "d"))]
    for kind in ("Varying", "Switching"):
        lead_ = ((), (1,)) if kind == "Varying" else ((),)
        for pl in ((), ("N",)):
            for extra in lead_:
                cases.append((kind, pl, pl, (), extra))

    def job(case):
        kind, pl, mu, la, apl = case
        name = "RotateSwitchingMarkovChain" if kind == "Switching" else \
            "Rotate%sMarkovChain" % (kind or "Gaussian")
        what = "%s plates %s mu%s Lambda%s A%s" % (
            name, list(pl), list(mu), list(la), list(apl))
        where = ctx.class_where(name)
        with ctx.instance("cost", what):
            w.reset()
            cls = "GaussianMarkovChain"
            if kind == "":
                m = Ard(w, ("d",), apl, (), ("d",), True, -1)
                c = Chain(w, cls, pl, mu, la, [m.X], {})
                r = w.new(name, c.X, m.rotator(w))
                rows = lambda a, aa: lambda xp, xx: (
                    es(w, "...nda,...nad->...n", lead(a, 3), xp),
                    es(w, "...ndab,...nab->...n", lead(aa, 4), xx))
            elif kind == "Varying":
                m = Ard(w, ("d", "k"), tuple(apl) + ("d",), (), ("d", "k"), True, -2)
                s = scen.Src(w, scen.gaussian, "S", (2, 1), ("k",))
                A = w.new("SumMultiply", "dk,k->d", m.X, s.obj)
                c = Chain(w, cls, pl, mu, la, [A], {})
                r = w.new(name, c.X, m.X, s.obj, m.rotator(w))
                s0 = tn.getitem(s.u[0], (slice(None), 0))
                s1 = tn.getitem(s.u[1], (slice(None), 0))
                one = lambda a: a if not apl else tn.getitem(a, (0,))
                rows = lambda a, aa: lambda xp, xx: (
                    es(w, "dak,nk,...nad->...n", one(a), s0, xp),
                    es(w, "dakbl,nkl,...nab->...n", one(aa), s1, xx))
            else:
                m = Ard(w, ("d",), ("k", "d"), (), ("d",), True, -1)
                z = scen.Src(w, scen.categorical, "Z", tuple(pl) + (2,), ("k",))
                sel = scen.Src(w, scen.categorical, "Z", tuple(pl) + (2, 1), ("k",))
                A = w.new("Gate", sel.obj, m.X, gated_plate=-2)
                c = Chain(w, cls, pl, mu, la, [A], {})
                r = w.new(name, c.X, m.X, z.obj, m.rotator(w))
                rows = lambda a, aa: lambda xp, xx: (
                    es(w, "kda,...nk,...nad->...n", a, z.u[0], xp),
                    es(w, "kdab,...nk,...nab->...n", aa, z.u[0], xx))
            R, invR, logdet = matrix(w)
            w.call(r, "setup")

            def spec():
                inv_t = es(w, "ij->ji", invR)
                neg = scale(logdet, -1)
                out = m.bounds(w, inv_t, neg, R, -1)
                out = {"A" if k == "X" else k: v for k, v in out.items()}
                out["X"] = c.term(w, R, logdet, rows(*m.transformed(w, inv_t, R, -1)))
                return out
            want = expected(spec)
            compare(ctx, w, what, where, r, R, invR, logdet, want,
                    {"X": c.X, "A": m.X, "alpha": m.alpha})
    return cases, job


def lead(a, n):
    """With unit axes in front, up to `n` axes."""
    a = tn.lift(a)
    while len(a.shape()) < n:
        a = tn.getitem(a, (None,))
    return a



def cost_gaussian(ctx, w):
    """Gaussian nodes with zero mean and common precision."""
    where = ctx.class_where("RotateGaussian")
    cases = [(), ("N",), ("M", "N"), ("N", 1)]

    def job(pl):
        what = "RotateGaussian plates %s" % list(pl)
        with ctx.instance("cost", what):
            w.reset()
            La = scen.Src(w, scen.wishart, "l", (), ("d",))
            zero = npdomain.call(w.it, "numpy.zeros", [w.n("d")], {})
            X = w.new("Gaussian", zero, La.obj, plates=w.shape(pl), initialize=False)
            u = [w.arr("u%d" % k, tuple(pl) + ("d",) * (k + 1), sym=k) for k in (0, 1)]
            w.it.setattr(X, "u", list(u))
            w.it.setattr(X, "mask", npdomain.call(w.it, "numpy.array", [True], {}))
            R, invR, logdet = matrix(w)
            r = w.new("RotateGaussian", X)
            w.call(r, "setup")

            def spec():
                n = Body.const(1)
                for k in w.shape(pl):
                    n = n * tn.to_body(k)
                sq = es(w, "ij,...jk,lk,il->...", R, u[1], R, La.u[0])
                return {"X": total(sq).scale(-HALF) + logdet.body() * n}
            compare(ctx, w, what, where, r, R, invR, logdet, expected(spec), {"X": X})
    return cases, job


# ------------------------------------------------------------- rotators: effect
def copies(xs):
    return [Arr(a.axes, dict(a.data), a.dtype) for a in map(tn.lift, xs)]


def fill(w, node, kind, shape, plates, name):
    """An arbitrary state of the node."""
    syms = SYMS[kind](shape)
    u = generic(w, node, name + "u", plates, syms)
    phi = generic(w, node, name + "p", plates, syms)
    g, f = w.arr(name + "g", plates), w.arr(name + "f", plates)

    def put():
        for k, v in (("u", copies(u)), ("phi", copies(phi)), ("g", copies([g])[0]),
                     ("f", copies([f])[0])):
            w.it.setattr(node, k, v)
    return put


def same_state(ctx, w, what, where, node, got, want, plates, text):
    full = tuple(w.shape(plates))
    ok = True
    for x, y, d in list(zip(got[0], want[0], w.get(node, "dims"))) \
            + list(zip(got[1], want[1], w.get(node, "dims"))):
        ok = ok and equal(x, y, full + tuple(d))
    ok = ok and equal(got[2], want[2], full) and equal(got[3], want[3], full)
    ctx.verdict("rotator", what, ok, text, where)


def judge_alpha(ctx, w, what, where, m):
    """alpha is at its optimum given the (rotated) moments of X."""
    got = [tn.lift(x) for x in w.get(m.alpha, "phi")]

    def spec():
        x, xx = [tn.lift(a) for a in w.get(m.X, "u")]
        ii = L(len(m.shape))
        return m.square(x, es(w, "...%s%s->...%s" % (ii, ii, ii), xx))
    sq = expected(spec)
    rate = expected(lambda: m.rate(w, sq))
    ctx.verdict("rotator", what, equal(got[0], scale(rate, -1), m.apat)
                and equal(got[1], expected(lambda: m.shape_parameter(w)), m.apat),
                "the posterior of alpha is not the optimum for the rotated variable", where)


def turned_plates(it, args, kw):
    """A stand-in for rotate_plates of a node with rotated plates of symbolic length."""
    node, Qm = args[0], args[1] if len(args) > 1 else kw["Q"]
    ax = args[2] if len(args) > 2 else kw.get("plate_axis", -1)
    full = tn.lift(it.getattr(node, "u")[0])
    if full.ndim != 2 or ax not in (-1, 0):
        return NotImplemented
    for name in ("u", "phi"):
        v = list(it.getattr(node, name))
        v[0] = npdomain.np_einsum(it, ["vw,wi->vi", tn.lift(Qm), tn.lift(v[0])], {})
        it.setattr(node, name, v)


def effect(ctx, w):
    plain_w = w
    chain_w = World(ctx, sizes=SIZES, overrides={
        "bayespy.inference.vmp.nodes.gaussian.GaussianARD.rotate_plates": turned_plates})
    cases = []
    for sh, axis in ((("d",), -1), (("d", "m"), -2)):
        for pl in ((), ("N",), ("M", "N")):
            for apat in dict.fromkeys((tuple(pl) + sh, sh, ())):
                cases.append(("ard", sh, axis, pl, apat, None))
                cases.append(("multiple", sh, axis, pl, apat, None))
    for pl, pax in ((("N",), -1), (("M", "N"), -1)):
        for apat in (tuple(pl) + ("d",), ("d",)):
            cases.append(("plates", ("d",), -1, pl, apat, pax))
    for pl in ((), ("N",)):
        for given in (True, False):
            cases.append(("chain", ("d",), -1, pl, ("d",), given))
    for pl in ((), ("N",), ("M", "N")):
        cases.append(("gaussian", ("d",), -1, pl, (), None))

    def job(case):
        kind, sh, axis, pl, apat, arg = case
        w = chain_w if kind == "chain" else plain_w
        cls = {"ard": "RotateGaussianARD", "plates": "RotateGaussianARD",
               "chain": "RotateGaussianMarkovChain", "multiple": "RotateMultiple",
               "gaussian": "RotateGaussian"}[kind]
        what = "%s.rotate %s plates %s%s%s" % (
            cls, list(sh), list(pl), "" if kind == "gaussian" else " alpha%s" % list(apat),
            {"plates": " with plates", "chain": "" if arg else " without inverse"}.get(kind, ""))
        where = ctx.class_where(cls)
        with ctx.instance("rotator", what):
            w.reset()
            R, invR, logdet = matrix(w)
            kw = {"inv": invR, "logdet": logdet}
            do = lambda node, name, args, kw: w.it.call(w.it.getattr(node, name), args, dict(kw))
            parts = []      # (node, plates, transformation)
            if kind == "gaussian":
                X = gaussian_node(("d",), pl)(w)
                r = w.new(cls, X)
                put = [fill(w, X, "gaussian", sh, pl, "x")]
                parts.append((X, pl, lambda: do(X, "rotate", [R], kw)))
                models = []
            elif kind == "chain":
                apl = ("d",)
                m = Ard(w, sh, apl, (), apat, True, axis)
                c = Chain(w, "GaussianMarkovChain", pl, (), (), [m.X], {})
                r = w.new(cls, c.X, m.rotator(w))
                put = [fill(w, c.X, "chain", (3, "d"), pl, "x"),
                       fill(w, m.X, "gaussian", sh, apl, "a")]
                w.it.setattr(m.X, "u", list(m.u))
                inv_t = es(w, "ij->ji", invR)
                parts.append((c.X, pl, lambda: do(c.X, "rotate", [R], kw)))

                def dynamics():
                    do(m.X, "rotate", [inv_t], {"inv": es(w, "ij->ji", R),
                                                "logdet": scale(logdet, -1)})
                    do(m.X, "rotate_plates", [R], {"plate_axis": -1})
                parts.append((m.X, apl, dynamics))
                models = [m]
                if not arg:
                    kw = {}
            else:
                m = Ard(w, sh, pl, (), apat, True, axis)
                put = [fill(w, m.X, "gaussian", sh, pl, "x")]
                r = m.rotator(w)
                models = [m]
                Qm = w.arr("Q", ("N", "N"))

                def turn():
                    do(m.X, "rotate", [R], dict(kw, axis=axis))
                    if kind == "plates":
                        do(m.X, "rotate_plates", [Qm], {"plate_axis": arg})
                parts.append((m.X, pl, turn))
                if kind == "multiple":
                    o = Ard(w, ("d",), ("N",), (), ("d",), False, -1)
                    put.append(fill(w, o.X, "gaussian", ("d",), ("N",), "o"))
                    parts.append((o.X, ("N",), lambda: do(o.X, "rotate", [R], kw)))
                    r = w.new(cls, r, o.rotator(w))
            for f in put:
                f()
            want = []
            for node, npl, f in parts:
                expected(f)
                s = read(w, node)
                want.append((copies(s[0]), copies(s[1]), copies([s[2]])[0], copies([s[3]])[0]))
            for f in put:
                f()
            if kind == "plates":
                do(r, "setup", [], {"plate_axis": arg})
                do(r, "rotate", [R], dict(kw, Q=Qm))
            else:
                do(r, "setup", [], {})
                do(r, "rotate", [R], kw)
            for (node, npl, f), x in zip(parts, want):
                same_state(ctx, w, what, where, node, read(w, node), x, npl,
                           "a node is not rotated as it should be")
            for m in models:
                judge_alpha(ctx, w, what, where, m)
    return cases, job


# ------------------------------------------------------------- optimiser
BLOCK = """
class Block:
    def __init__(self, b, db):
        self.b = b
        self.db = db
        self.asked = []
        self.applied = []
        self.ready = 0
    def nodes(self):
        return []
    def setup(self):
        self.ready = self.ready + 1
    def bound(self, R, logdet=None, inv=None):
        self.asked.append((R, logdet, inv, self.ready))
        return (self.b, self.db)
    def get_bound_terms(self, R, logdet=None, inv=None):
        return {}
    def rotate(self, R, inv=None, logdet=None):
        self.applied.append((R, logdet, inv))
"""


def optimiser(ctx):
    """RotationOptimizer.rotate with an arbitrary optimum and arbitrary blocks."""
    where = ctx.class_where("RotationOptimizer")
    D = 2
    seen = []

    def minimize(it, args, kw):
        cost = args[0]
        r = es(w, "i->i", w.arr("q", (D * D,)))
        w.it.bounds_before = [len(w.get(b, "asked")) for b in blocks]
        seen.append((r, it.call(cost, [r], {})))
        return w.arr("r", (D * D,))
    w = World(ctx, overrides={"bayespy.utils.optimize.minimize": minimize}, sizes=SIZES)
    for options in ({}, {"maxiter": 3}, {"check_bound": True}):
        what = "RotationOptimizer.rotate(%s)" % ", ".join("%s=%s" % i for i in options.items())
        with ctx.instance("optimiser", what):
            w.reset()
            del seen[:]
            mod = w.it.load_source("blocks", BLOCK)
            cls = mod.vars["Block"]
            db = [w.arr("db%d" % k, (D, D)) for k in (0, 1)]
            b = [w.arr("b%d" % k, ()) for k in (0, 1)]
            blocks = [w.it.call(cls, [b[k], db[k]], {}) for k in (0, 1)]
            opt = w.new("RotationOptimizer", blocks[0], blocks[1], D)
            w.it.call(w.it.getattr(opt, "rotate"), [], dict(options))

            def square(v):
                return npdomain.call(w.it, "numpy.reshape", [v, (D, D)], {})
            q, (c, dc) = seen[0]
            Rq, Rr = square(q), square(w.arr("r", (D * D,)))
            for k in (0, 1):
                asked = w.get(blocks[k], "asked")
                at = w.it.bounds_before[k]
                ctx.verdict("optimiser", what, len(asked) > at, "a block is not asked", where)
                ctx.verdict("optimiser", what, all(a[3] == 1 for a in asked),
                            "a block is asked for its bound before its setup", where)
                ctx.verdict("optimiser", what, pair(w, asked[at], Rq, k),
                            "block %d is not asked for its bound under the rotation it is to "
                            "get" % (k + 1), where)
                applied = w.get(blocks[k], "applied")
                ctx.verdict("optimiser", what, len(applied) == 1 and pair(w, applied[0], Rr, k),
                            "block %d is not rotated by the optimum" % (k + 1), where)
            ctx.verdict("optimiser", what,
                        equal(tn.lift(c), expected(lambda: scale(tn.add(b[0], b[1]), -1)), ()),
                        "the cost is not minus the sum of the bounds", where)

            def spec():
                i = md.inv(Rq)
                g = tn.sub(db[0], es(w, "ji,kj,lk->il", i, db[1], i))
                return npdomain.call(w.it, "numpy.ravel", [scale(g, -1)], {})
            ctx.verdict("optimiser", what, equal(tn.lift(dc), expected(spec), (D * D,)),
                        "the gradient is not that of the sum of the bounds", where)


    what = "RotateMultiple of 3"
    where = ctx.class_where("RotateMultiple")
    with ctx.instance("cost", what):
        w.reset()
        cls = w.it.load_source("blocks", BLOCK).vars["Block"]
        db = [w.arr("db%d" % k, (D, D)) for k in range(3)]
        b = [w.arr("b%d" % k, ()) for k in range(3)]
        blocks = [w.it.call(cls, [b[k], db[k]], {}) for k in range(3)]
        r = w.new("RotateMultiple", *blocks)
        w.call(r, "setup")
        R = w.arr("R", (D, D))
        i, ld = md.inv(R), md.logdet_arr(R)
        got = w.it.call(w.it.getattr(r, "bound"), [R], {"inv": i, "logdet": ld})
        for blk in blocks:
            asked = w.get(blk, "asked")
            ctx.verdict("cost", what, len(asked) == 1 and asked[0][3] == 1
                        and pair(w, asked[0], R, 0),
                        "a rotator is not set up, or not asked once for its bound", where)
        ctx.verdict("cost", what, equal(tn.lift(got[0]), expected(lambda: add(*b)), ()),
                    "the bound is not the sum", where)
        ctx.verdict("gradient", what, equal(tn.lift(got[1]), expected(lambda: add(*db)), (D, D)),
                    "the gradient is not the sum", where)


def pair(w, args, R, k):
    """(R, logdet, inv) as block k is to get them."""
    def spec():
        i, ld = md.inv(R), md.logdet_arr(R)
        if k == 0:
            return R, ld, i
        return es(w, "ij->ji", i), scale(ld, -1), es(w, "ij->ji", R)
    want = expected(spec)
    ok = equal(tn.lift(args[0]), want[0], R.shape())
    if args[1] is not None:
        ok = ok and equal(tn.lift(args[1]), want[1], ())
    if args[2] is not None:
        ok = ok and equal(tn.lift(args[2]), want[2], R.shape())
    return ok


def run(ctx):
    scen.prepare(ctx)
    ctx.rule("posterior", "transformed posteriors are those of the transformed variable", floor=60)
    ctx.rule("cost", "bounds of rotators are the lower bounds after the rotation", floor=20)
    ctx.rule("gradient", "gradients of rotators are the derivatives of their bounds", floor=20)
    ctx.rule("rotator", "rotators rotate their nodes and re-optimise the precision", floor=10)
    ctx.rule("optimiser", "cost, gradient and application of the optimal rotation", floor=3)
    ctx.assumptions = [
        "the inverse and the determinant of a matrix are primitives",
        "plate axes of 2 and 3 elements; variable axes of any size; chains of 3 instances"]
    only = os.environ.get("P09_ONLY")
    w = World(ctx, sizes=SIZES)
    for f in (posterior, plate_rotations):
        if not only or f.__name__ in only.split(","):
            f(ctx, w)
    ctx.functions.update(w.it.functions)
    if not only or "optimiser" in only:
        optimiser(ctx)
    jobs = []
    for f, world in ((cost_chain, w), (cost_gaussian, World(ctx)), (effect, w), (cost_plates, World(ctx)), (cost_ard, World(ctx))):
        if not only or f.__name__ in only.split(","):
            cases, job = f(ctx, world)
            jobs += [(job, c, world) for c in cases]

    def one(j):
        j[0](j[1])
        ctx.functions.update(j[2].it.functions)
    fan(ctx, jobs, one, lambda: ctx.functions)

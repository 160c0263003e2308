"""P08: deterministic nodes: moments of the documented function, multilinear in the
parents, and messages that are their exact adjoint.

Every deterministic node class is interpreted between arbitrary sources (any moments,
any legal broadcasting of them) and an arbitrary child (any message, any broadcasting,
any mask).  Decided per node / parent / broadcasting pattern:
  value    – on deterministic inputs the moments are the moments of the function value
             (or, for nodes that rearrange plates, the rearranged moments);
  linear   – the moments are affine in the moments of every parent;
  adjoint  – the message to a parent is the derivative of
             sum_c <message_c, moments_c> with respect to the parent's moments,
             summed over exactly the plates the parent does not have;
  shape    – moments have the declared variable axes and broadcast to the plates.
"""
from fan import fan
from scen import *


# -------------------------------------------------------------- scenarios
class Scenario:
    """name; parents: list of (kind, name, plates, dims); make(w, objs) -> node;
    plates: expected plates of the node; value(w, sources) -> expected moments given
    the parents' moments, or point(w, points) -> function value for Gaussian nodes."""

    def __init__(self, cls, name, parents, make, plates, value=None, point=None, skip=(),
                 masks=True):
        self.cls, self.name, self.parents, self.make = cls, name, parents, make
        self.plates, self.value, self.point = tuple(plates), value, point
        self.skip, self.masks = skip, masks


def build(w, sc, pats=None, points=False):
    srcs = []
    for k, (kind, name, plates, dims) in enumerate(sc.parents):
        pat = (pats or {}).get(k)
        u = None
        if points:
            ax = tuple(plates) + tuple(dims)
            x = w.arr("p" + name, ax)
            nd = len(dims)
            xx = tn.mul(expand_right(x, nd), expand_left(x, nd))
            u = [x, xx]
        srcs.append(Src(w, kind, name, plates, dims, pat, u))
    node = sc.make(w, [s.obj for s in srcs])
    return srcs, node


def run_scenario(ctx, w, sc):
    name = "%s: %s" % (sc.cls, sc.name)
    where = ctx.class_where(sc.cls)
    with ctx.instance("shape", name):
        w.reset()
        srcs, node = build(w, sc)
        plates = w.get(node, "plates")
        ok = tuple(tn.to_body(p) for p in plates) == \
            tuple(tn.to_body(p) for p in w.shape(sc.plates))
        ctx.verdict("shape", name, ok, "plates are %r, expected %r" % (plates, sc.plates), where)
    # value
    if sc.value is not None:
        combos = [{}]
        for k, (kind, nm, pl, dims) in enumerate(sc.parents):
            combos += [{k: p} for p in patterns(pl)[1:]]
        for pats in combos:
            lab = name + "".join(" %s%s" % (sc.parents[k][1], describe(sc.parents[k][2], p))
                                 for k, p in pats.items())
            with ctx.instance("value", lab):
                w.reset()
                srcs, node = build(w, sc, pats)
                u = node_moments(w, node)
                want = expected(lambda: sc.value(w, [s.u for s in srcs]))
                bad = []
                for c, (a, b) in enumerate(zip(u, want)):
                    if not same(a, b, w.call(node, "get_shape", c)):
                        bad.append("component %d is %r, expected %r" % (c, a, b))
                if len(u) != len(want):
                    bad.append("%d components" % len(u))
                ctx.verdict("value", lab, not bad, "; ".join(bad)[:500], where)
    if sc.point is not None:
        with ctx.instance("value", name):
            w.reset()
            srcs, node = build(w, sc, points=True)
            u = node_moments(w, node)
            pts = [s.u[0] for s in srcs]
            y = expected(lambda: sc.point(w, pts))
            nd = len(node_dims(w, node)[0])
            want = [y, tn.mul(expand_right(y, nd), expand_left(y, nd))]
            bad = ["component %d is %r, expected %r" % (c, a, b)
                   for c, (a, b) in enumerate(zip(u, want))
                   if not same(a, b, w.call(node, "get_shape", c))]
            ctx.verdict("value", name, not bad, "; ".join(bad)[:500], where)
    # linear + adjoint
    for j in range(len(sc.parents)):
        if j in sc.skip:
            continue
        adjoint(ctx, w, sc, j, name, where)


def combos_for(sc, j):
    """(moment patterns, message pattern, mask pattern) around the parent j."""
    out = [({}, None, None)]
    for mp in patterns(sc.plates)[1:]:
        out.append(({}, mp, None))
    for k, (kind, nm, pl, dims) in enumerate(sc.parents):
        for p in patterns(pl)[1:]:
            out.append(({k: p}, None, None))
            if k != j:
                for mp in patterns(sc.plates)[1:]:
                    out.append(({k: p}, mp, None))
    if sc.masks:
        for mk in patterns(sc.plates):
            out.append(({}, None, mk))
            out.append(({}, (), mk))
    return out


def adjoint(ctx, w, sc, j, name, where):
    for pats, mp, mk in combos_for(sc, j):
        lab = "%s, parent %d" % (name, j)
        for k, p in pats.items():
            lab += " moments of %s%s" % (sc.parents[k][1], describe(sc.parents[k][2], p))
        if mp is not None:
            lab += " message[%s]" % ",".join(map(str, mp))
        if mk is not None:
            lab += " mask[%s]" % ",".join(map(str, mk))
        with ctx.instance("adjoint", lab):
            w.reset()
            srcs, node = build(w, sc, pats)
            dims = [axis_specs(w, d) for d in node_dims(w, node)]
            g = message(w, dims, sc.plates, sc.plates if mp is None else mp, sym_of(w, node))
            mask = tn.lift(True) if mk is None else w.arr("M", mk, indicator=True)
            masked = []
            for a, d in zip(g, dims):
                mm = expand_right(mask, len(d))
                masked.append(tn.mul(mm, a))
            w.sink(node, w.get(node, "plates"), masked, mask)
            w.call(node, "_update_mask")
            u = node_moments(w, node)
            L = total(w, node, masked, u)
            pn = set(srcs[j].names)
            parts = L.degree_parts(lambda n: n in pn)
            hi = [d for d in parts if d not in (0, 1)]
            ctx.verdict("linear", lab, not hi,
                        "moments are of degree %s in the moments of the parent" % hi, where)
            m = w.call(srcs[j].obj, "_message_from_children")
            got = total(w, srcs[j].obj, m, srcs[j].u)
            want = parts.get(1, tn.ZERO)
            ctx.verdict("adjoint", lab, got == want,
                        "<message, moments> is %s; derivative of the child's term is %s"
                        % (str(got)[:400], str(want)[:400]), where)
            if pats == {} and mp is None:
                ok = True
                for c, mc in enumerate(m):
                    if mc is None:
                        continue
                    try:
                        tn.broadcast_to(tn.lift(mc), w.call(srcs[j].obj, "get_shape", c))
                    except ShapeError as err:
                        ok = False
                ctx.verdict("shape", lab + " message", ok, "message does not fit the parent",
                            where)


# ------------------------------------------------------------------ table
def k(*a):
    return a


def sum_pts(w, pts):
    y = pts[0]
    for p in pts[1:]:
        y = tn.add(y, p)
    return y


def ein(spec_in, spec_out):
    def f(w, pts):
        ins = [[Ellipsis] + list(s) for s in spec_in]
        return tn.einsum(pts, ins, [Ellipsis] + list(spec_out))
    return f


def each(f):
    """Same rearrangement of the plates for all components of one parent."""
    def g(w, us):
        return [f(w, a, nd) for a, nd in zip(us[0], NDIMS[len(us[0])])]
    return g


NDIMS = {2: (1, 2), 1: (1,)}


def fullplates(w, a, plates, nd):
    """Broadcast the plate axes explicitly."""
    sh = w.shape(plates) + a.shape()[a.ndim - nd:]
    return tn.broadcast_to(a, sh)


def scenarios():
    G = gaussian
    S = []

    def add(*a, **kw):
        S.append(Scenario(*a, **kw))
    add("Add", "x[N,K]+y[K]", [(G, "x", ("N", "K"), ("D",)), (G, "y", ("K",), ("D",))],
        lambda w, o: w.new("Add", *o), ("N", "K"), point=sum_pts)
    add("Add", "x[N]+y[N]+z[]", [(G, "x", ("N",), ("D",)), (G, "y", ("N",), ("D",)),
                                 (G, "z", (), ("D",))],
        lambda w, o: w.new("Add", *o), ("N",), point=sum_pts)
    add("Add", "scalars", [(G, "x", ("N",), ()), (G, "y", (), ())],
        lambda w, o: w.new("Add", *o), ("N",), point=sum_pts)
    add("Add", "matrices", [(G, "x", ("N",), ("D", "E")), (G, "y", (), ("D", "E"))],
        lambda w, o: w.new("Add", *o), ("N",), point=sum_pts)
    # SumMultiply
    for spec, par, plates in [
            ("i,i", [("x", ("N", "K"), "i"), ("y", ("K",), "i")], ("N", "K")),
            ("i,i", [("x", ("N", 1), "i"), ("y", (1, "K"), "i")], ("N", "K")),
            ("i,i", [("x", ("N",), "i"), ("y", (), "i")], ("N",)),
            ("i,i->i", [("x", ("N",), "i"), ("y", ("N",), "i")], ("N",)),
            ("i,j->ij", [("x", ("N",), "i"), ("y", ("K", "N"), "j")], ("K", "N")),
            ("ij,j->i", [("x", (), "ij"), ("y", ("N",), "j")], ("N",)),
            ("i,ij,j", [("x", ("N",), "i"), ("y", (), "ij"), ("z", ("N",), "j")], ("N",)),
            (",i->i", [("x", ("N",), ""), ("y", ("N",), "i")], ("N",)),
            ("ij->ji", [("x", ("N",), "ij")], ("N",)),
            ("ij->i", [("x", ("N",), "ij")], ("N",)),
            ("i,i,i", [("x", ("N",), "i"), ("y", (), "i"), ("z", ("N",), "i")], ("N",)),
    ]:
        if "->" in spec:
            i, o_ = spec.split("->")
        else:
            i, o_ = spec, ""
        add("SumMultiply", "%s %s" % (spec, " ".join("%s%s" % (a, list(b)) for a, b, _ in par)),
            [(G, a, b, tuple(c.upper() for c in c_)) for a, b, c_ in par],
            (lambda spec: lambda w, o: w.new("SumMultiply", spec, *o))(spec), plates,
            point=ein(i.split(","), o_))
    # plate rearrangements
    add("Take", "indices on the last plate", [(G, "x", ("N", 3), ("D",))],
        lambda w, o: w.new("Take", o[0], [2, 0, 0, 2]), ("N", 4),
        value=each(lambda w, a, nd: tn.take(fullplates(w, a, ("N", 3), nd),
                                            tn.lift([2, 0, 0, 2]), 1)))
    add("Take", "indices on an inner plate", [(G, "x", (3, "N"), ("D",))],
        lambda w, o: w.new("Take", o[0], [2, 0], plate_axis=-2), (2, "N"),
        value=each(lambda w, a, nd: tn.take(fullplates(w, a, (3, "N"), nd),
                                            tn.lift([2, 0]), 0)))
    add("Take", "matrix of indices", [(G, "x", (3, "N"), ("D",))],
        lambda w, o: w.new("Take", o[0], [[2, 0], [1, 1], [0, 2]], plate_axis=-2), (3, 2, "N"),
        value=each(lambda w, a, nd: tn.take(fullplates(w, a, (3, "N"), nd),
                                            tn.lift([[2, 0], [1, 1], [0, 2]]), 0)))
    add("Take", "negative index", [(G, "x", (3,), ("D",))],
        lambda w, o: w.new("Take", o[0], [-1, 0]), (2,),
        value=each(lambda w, a, nd: tn.take(fullplates(w, a, (3,), nd), tn.lift([2, 0]), 0)))
    add("Concatenate", "last plate", [(G, "x", ("N", 2), ("D",)), (G, "y", ("N", 3), ("D",)),
                                      (G, "z", ("N", 2), ("D",))],
        lambda w, o: w.new("Concatenate", *o), ("N", 7),
        value=lambda w, us: [tn.concatenate([fullplates(w, u[c], ("N", n), c + 1)
                                             for u, n in zip(us, (2, 3, 2))], 1)
                             for c in range(2)])
    add("Concatenate", "inner plate", [(G, "x", (2, "N"), ("D",)), (G, "y", (3, "N"), ("D",))],
        lambda w, o: w.new("Concatenate", *o, axis=-2), (5, "N"),
        value=lambda w, us: [tn.concatenate([fullplates(w, u[c], (n, "N"), c + 1)
                                             for u, n in zip(us, (2, 3))], 0)
                             for c in range(2)])
    for lab, key, plates in [
            ("[:, 1]", (slice(None), 1), ("N",)),
            ("[:, 1:3]", (slice(None), slice(1, 3)), ("N", 2)),
            ("[:, ::2]", (slice(None), slice(None, None, 2)), ("N", 2)),
            ("[:, ::-1]", (slice(None), slice(None, None, -1)), ("N", 3)),
            ("[None, :, -1:]", (None, slice(None), slice(-1, None)), (1, "N", 1)),
            ("[..., 0]", (Ellipsis, 0), ("N",)),
            ("[..., None, 1]", (Ellipsis, None, 1), ("N", 1)),
            ("[..., None]", (Ellipsis, None), ("N", 3, 1)),
            ("[:]", (slice(None),), ("N", 3))]:
        if lab == "[:, ::-1]":
            continue
        add("Slice", lab, [(G, "x", ("N", 3), ("D",))],
            (lambda key: lambda w, o: w.it.getitem(o[0], key))(key), plates,
            value=each((lambda key: lambda w, a, nd: tn.getitem(
                fullplates(w, a, ("N", 3), nd),
                tuple(key) + (() if Ellipsis in key else
                              (slice(None),) * (2 - sum(1 for q in key if q is not None)))
                + (slice(None),) * nd))(key)))
    # gate
    add("Gate", "last plate", [(categorical, "z", ("N",), ("K",)), (G, "x", ("N", "K"), ("D",))],
        lambda w, o: w.new("Gate", *o), ("N",),
        value=lambda w, us: [tn.einsum([us[0][0], fullplates(w, us[1][c], ("N", "K"), c + 1)],
                                       [[Ellipsis, "k"], [Ellipsis, "k"] + list("ab"[:c + 1])],
                                       [Ellipsis] + list("ab"[:c + 1]))
                             for c in range(2)])
    add("Gate", "shared parameters", [(categorical, "z", ("N",), ("K",)), (G, "x", ("K",), ("D",))],
        lambda w, o: w.new("Gate", *o), ("N",),
        value=lambda w, us: [tn.einsum([us[0][0], fullplates(w, us[1][c], ("K",), c + 1)],
                                       [[Ellipsis, "k"], [Ellipsis, "k"] + list("ab"[:c + 1])],
                                       [Ellipsis] + list("ab"[:c + 1]))
                             for c in range(2)])
    add("Gate", "inner plate", [(categorical, "z", ("N", "E"), ("K",)),
                                (G, "x", ("K", "E"), ("D",))],
        lambda w, o: w.new("Gate", *o, gated_plate=-2), ("N", "E"),
        value=lambda w, us: [tn.einsum([fullplates(w, us[0][0], ("N", "E"), 1),
                                        fullplates(w, us[1][c], ("K", "E"), c + 1)],
                                       [["n", "e", "k"], ["k", "e"] + list("ab"[:c + 1])],
                                       ["n", "e"] + list("ab"[:c + 1]))
                             for c in range(2)])
    # functions building such nodes
    def func(w, name, o):
        return w.it.call(w.func("bayespy.inference.vmp.nodes." + name), list(o), {})
    for par in ([("x", ("N",))], [("x", ("N",)), ("y", ())],
                [("x", ("N", 1)), ("y", ("K",)), ("z", ("N", "K"))]):
        add("SumMultiply", "Dot %s" % " ".join("%s%s" % (a, list(b)) for a, b in par),
            [(G, a, b, ("I",)) for a, b in par], lambda w, o: func(w, "dot.Dot", o),
            par[0][1] if len(par) < 3 else ("N", "K"), point=ein(["i"] * len(par), ""))

    def chosen(plates):
        def value(w, us):
            out = []
            for c in range(2):
                t = None
                for k in range(3):
                    z = fullplates(w, us[0][0], plates, 1)
                    z = expand_right(tn.getitem(z, (Ellipsis, k)), c + 1)
                    x = fullplates(w, us[k + 1][c], plates, c + 1)
                    t = tn.mul(z, x) if t is None else tn.add(t, tn.mul(z, x))
                out.append(t)
            return out
        return value
    for plates in (("N",), ("N", "M")):
        add("Gate", "Choose of three nodes over (%s)" % ", ".join(plates),
            [(categorical, "z", plates, (3,))]
            + [(G, "x%d" % k, plates, ("D",)) for k in range(3)],
            lambda w, o: func(w, "gate.Choose", o), plates, value=chosen(plates),
            skip=() if len(plates) == 1 else (1, 2))
    # change of the number of variable axes
    for dims, to in (((2, 3), 1), ((2, 3), 0), (("D",), 0), ((2, 3, 2), 1), ((2, 3, 2), 2)):
        k = len(dims) - to
        lt, at = "abc"[:len(dims)], "xyz"[:len(dims)]
        add("NodeConverter", "x[N] of %d axes to %d" % (len(dims), to), [(G, "x", ("N",), dims)],
            (lambda to: lambda w, o: w.call(o[0], "_ensure_moments", o[0],
                                            w.it.get_class("GaussianMoments"), ndim=to))(to),
            ("N",) + dims[:k],
            value=(lambda lt, at, k: lambda w, us: [
                us[0][0], tn.einsum([us[0][1]], [[Ellipsis] + list(lt + lt[:k] + at[k:])],
                                    [Ellipsis] + list(lt + at[k:]))])(lt, at, k))
    # new plate axis
    for to, plates, ax in ((-1, ("N", "K", 1), 2), (-2, ("N", 1, "K"), 1), (-3, (1, "N", "K"), 0)):
        add("_AddPlateAxis", "at %d" % to, [(G, "x", ("N", "K"), ("D",))],
            (lambda to: lambda w, o: w.call(o[0], "add_plate_axis", to))(to), plates,
            value=each((lambda ax: lambda w, a, nd: tn.insert_axis(
                fullplates(w, a, ("N", "K"), nd), ax))(ax)))
    # tiling
    for t, plates in ((2, ("N", 6)), ([2], ("N", 6))):
        add("_Tile", "tile %r" % (t,), [(G, "x", ("N", 3), ("D",))],
            (lambda t: lambda w, o: w.it.call(w.func(
                "bayespy.inference.vmp.nodes.deterministic.tile"), [o[0], t]))(t), plates,
            value=each(lambda w, a, nd: tn.take(fullplates(w, a, ("N", 3), nd),
                                                tn.lift([0, 1, 2, 0, 1, 2]), 1)))
    add("_Tile", "tile (3,2)", [(G, "x", (2, 2), ("D",))],
        lambda w, o: w.it.call(w.func("bayespy.inference.vmp.nodes.deterministic.tile"),
                               [o[0], (3, 2)]), (6, 4),
        value=each(lambda w, a, nd: tn.take(tn.take(fullplates(w, a, (2, 2), nd),
                                                    tn.lift([0, 1] * 3), 0),
                                            tn.lift([0, 1] * 2), 1)))
    # concatenation of vectors
    add("ConcatGaussian", "x[N] (2), y[] (3), z[N] (1)",
        [(G, "x", ("N",), (2,)), (G, "y", (), (3,)), (G, "z", ("N",), (2,))],
        lambda w, o: w.new("ConcatGaussian", *o), ("N",),
        point=lambda w, pts: tn.concatenate(
            [tn.broadcast_to(p, w.shape(("N",)) + (p.shape()[-1],)) for p in pts], 1))
    # Gaussian-gamma
    add("SumMultiply", "gaussian-gamma x[N], gaussian y[N,K] -> i",
        [(gaussgamma, "x", ("K",), ("I",)), (G, "y", ("N", "K"), ("I",))],
        lambda w, o: w.new("SumMultiply", "i,i->i", *o), ("N", "K"), value=gg_product)
    add("SumMultiply", "gaussian-gamma x[K], gaussian-gamma y[N,K]",
        [(gaussgamma, "x", ("K",), ("I",)), (gaussgamma, "y", ("N", "K"), ("I",))],
        lambda w, o: w.new("SumMultiply", "i,i", *o), ("N", "K"), value=gg_inner)
    add("SumMultiply", "constant c[K,I], x[N,K]", [(G, "x", ("N", "K"), ("I",))],
        lambda w, o: w.new("SumMultiply", "i,i", const(w, "c", ("K", "I")), o[0]), ("N", "K"),
        point=lambda w, pts: tn.einsum([const(w, "c", ("K", "I")), pts[0]],
                                       [[Ellipsis, "i"], [Ellipsis, "i"]], [Ellipsis]))
    add("SumMultiply", "x[N,K], constant c[N,1,I] -> i",
        [(G, "x", ("N", "K"), ("I",))],
        lambda w, o: w.new("SumMultiply", "i,i->i", o[0], const(w, "c", ("N", 1, "I"))),
        ("N", "K"),
        point=lambda w, pts: tn.einsum([const(w, "c", ("N", 1, "I")), pts[0]],
                                       [[Ellipsis, "i"], [Ellipsis, "i"]], [Ellipsis, "i"]))
    add("SumMultiply", "gaussian-gamma x[N,K], constant c[K,I]",
        [(gaussgamma, "x", ("N", "K"), ("I",))],
        lambda w, o: w.new("SumMultiply", "i,i", o[0], const(w, "c", ("K", "I"))), ("N", "K"),
        value=lambda w, us: [
            tn.einsum([us[0][0], const(w, "c", ("K", "I"))],
                      [[Ellipsis, "i"], [Ellipsis, "i"]], [Ellipsis]),
            tn.einsum([us[0][1], const(w, "c", ("K", "I")), const(w, "c", ("K", "I"))],
                      [[Ellipsis, "i", "j"], [Ellipsis, "i"], [Ellipsis, "j"]], [Ellipsis]),
            us[0][2], us[0][3]])
    add("GaussianToGaussianGamma", "x[N]", [(G, "x", ("N",), ("D",))],
        lambda w, o: w.new("GaussianToGaussianGamma", o[0]), ("N",),
        value=lambda w, us: [us[0][0], us[0][1], tn.lift(1), tn.lift(0)])
    add("WrapToGaussianGamma", "x[N], alpha[K,1]",
        [(G, "x", ("N",), ("D",)), (gamma, "a", ("K", 1), ())],
        lambda w, o: w.new("WrapToGaussianGamma", *o), ("K", "N"),
        value=lambda w, us: [tn.mul(us[0][0], trail(us[1][0], 1)),
                             tn.mul(us[0][1], trail(us[1][0], 2)), us[1][0], us[1][1]])
    add("WrapToGaussianGamma", "(x, tau)[N], alpha[]",
        [(gaussgamma, "x", ("N",), ("D",)), (gamma, "a", (), ())],
        lambda w, o: w.new("WrapToGaussianGamma", *o), ("N",),
        value=lambda w, us: [tn.mul(us[0][0], trail(us[1][0], 1)),
                             tn.mul(us[0][1], trail(us[1][0], 2)),
                             tn.mul(us[0][2], us[1][0]), tn.add(us[0][3], us[1][1])])
    for X, lab in ((G, "gaussian"), (gaussgamma, "gaussian-gamma")):
        add("WrapToGaussianWishart", lab + " x[N], Lambda[K,1]",
            [(X, "x", ("N",), ("D",)), (wishart, "L", ("K", 1), ("D",))],
            lambda w, o: w.new("WrapToGaussianWishart", *o), ("K", "N"),
            value=lambda w, us: gw_wrap(w, us), skip=())
    add("_ScaledWishart", "Lambda[N], alpha[K,1]",
        [(wishart, "L", ("N",), ("D",)), (gamma, "a", ("K", 1), ())],
        lambda w, o: w.new("_ScaledWishart", *o), ("K", "N"),
        value=lambda w, us: [tn.mul(us[0][0], trail(us[1][0], 2)),
                             tn.add(us[0][1], tn.mul(tn.lift(w.n("D")), us[1][1]))])
    add("_GammaToDiagonalWishart", "alpha[N,D]", [(gamma, "a", ("N", "D"), ())],
        lambda w, o: w.new("_GammaToDiagonalWishart", o[0]), ("N",),
        value=lambda w, us: [tn.mul(tn.insert_axis(fullplates(w, us[0][0], ("N", "D"), 0), 1),
                                    tn.eye(w.n("D"))),
                             tn.sum_axes(fullplates(w, us[0][1], ("N", "D"), 0), 1)])
    add("_GammaToScalarWishart", "alpha[N]", [(gamma, "a", ("N",), ())],
        lambda w, o: w.new("_GammaToScalarWishart", o[0]), ("N",), value=lambda w, us: us[0])
    # discrete
    add("CategoricalToBernoulli", "z[N]", [(categorical, "z", ("N",), (2,))],
        lambda w, o: w.new("CategoricalToBernoulli", o[0]), ("N",),
        value=lambda w, us: [tn.pick(us[0][0], us[0][0].ndim - 1, 0)])
    add("Complement", "p[N]", [(beta, "p", ("N",), ())],
        lambda w, o: w.new("Complement", o[0]), ("N",),
        value=lambda w, us: [tn.take(us[0][0], tn.lift([1, 0]), us[0][0].ndim - 1)])
    add("CategoricalMarkovChainToCategorical", "z[N], 4 steps", [(cmc, "z", ("N",), ("K", 4))],
        lambda w, o: w.new("CategoricalMarkovChainToCategorical", o[0]), ("N", 4),
        value=lambda w, us: [tn.concatenate(
            [tn.insert_axis(fullplates(w, us[0][0], ("N",), 1), 1),
             tn.sum_axes(fullplates(w, us[0][1], ("N",), 3), 2)], 1)])
    add("_MarkovChainToGaussian", "x[N], 4 steps", [(gmc, "x", ("N",), (4, "D"))],
        lambda w, o: w.new("_MarkovChainToGaussian", o[0]), ("N", 4),
        value=lambda w, us: us[0][:2])
    return S


def const(w, name, axes):
    return w.arr(name, axes)


def trail(a, n):
    return expand_right(a, n)


def gg_product(w, us):
    x, y = us
    return [tn.mul(x[0], y[0]), tn.mul(x[1], y[1]), x[2], x[3]]


def gg_inner(w, us):
    x, y = us
    return [tn.einsum([x[0], y[0]], [[Ellipsis, "i"]] * 2, [Ellipsis]),
            tn.einsum([x[1], y[1]], [[Ellipsis, "i", "j"]] * 2, [Ellipsis]),
            tn.mul(x[2], y[2]), tn.add(x[3], y[3])]


def gw_wrap(w, us):
    x, L = us
    if len(x) == 2:
        x = [x[0], x[1], tn.lift(1), tn.lift(0)]
    return [tn.einsum([L[0], x[0]], [[Ellipsis, "i", "j"], [Ellipsis, "j"]], [Ellipsis, "i"]),
            tn.einsum([L[0], x[1]], [[Ellipsis, "i", "j"], [Ellipsis, "i", "j"]], [Ellipsis]),
            tn.mul(L[0], trail(x[2], 2)),
            tn.add(L[1], tn.mul(tn.lift(w.n("D")), x[3]))]


def run(ctx):
    prepare(ctx)
    ctx.rule("shape", "moments and messages have the declared axes", floor=10)
    ctx.rule("value", "moments on deterministic inputs are those of the function value", floor=10)
    ctx.rule("linear", "moments are affine in the moments of every parent", floor=10)
    ctx.rule("adjoint", "message to a parent is the derivative of the child's term", floor=10)
    w = World(ctx)
    import os, time
    only = os.environ.get("P08_ONLY")
    def job(sc):
        t = time.time()
        run_scenario(ctx, w, sc)
        if os.environ.get("CHECK_DEBUG"):
            print("%-40s %.2fs" % (sc.cls + " " + sc.name, time.time() - t))
    fan(ctx, [sc for sc in scenarios() if not only or only in sc.cls + ":" + sc.name], job,
        lambda: w.it.functions)

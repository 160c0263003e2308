"""P02 on whole arrays: activity masks, element by element.

 own      mask == observed or any child's report, for any exponential-family node, after
          observe / unobserve, with parents of every plate shape; each parent hears of it;
 exact    for every node class of the program and each parent: a plate of the parent is
          active exactly when the message to that plate can be nonzero, i.e. when the
          moments of that plate occur in the masked term of the node (plates enumerated,
          one active element at a time and in combination).
"""
import itertools

import tensor as tn
import famworld as fw
from famworld import Fam, Any, MASKS, P, DIMS, F, T, cmask
from nodeworld import World
import scen
import expscen
from rules import p06, p08

SIZES = {"N": 2, "K": 3, "M": 2, "D": 2, "E": 2, "L": 2}


def boolean(a, shape):
    """dict position -> bool of an array of constants"""
    a = tn.broadcast_to(tn.lift(a), shape)
    full = [range(x) for x in shape]
    enum = a.enum_axes()
    out = {}
    for pos in itertools.product(*full):
        c = a.data[tuple(pos[k] for k in enum)].constant()
        if c is None:
            raise tn.Unsupported("mask is not constant")
        out[pos] = bool(c)
    return out


def run(ctx):
    own(ctx)
    w = World(ctx, sizes=SIZES)
    for sc in expscen.table():
        for j in range(len(sc.parents)):
            if j not in sc.skip:
                exact(ctx, w, sc, j, True)
    for sc in p08.scenarios():
        for j in range(len(sc.parents)):
            if j not in sc.skip:
                exact(ctx, w, sc, j, False)


def collapse(m, shape, plates):
    """any() over the plates the parent does not have"""
    out = {}
    for pos in itertools.product(*[range(x) for x in plates]):
        out[pos] = False
    for pos, v in m.items():
        q = pos[len(shape) - len(plates):]
        q = tuple(0 if n == 1 else i for i, n in zip(q, plates))
        out[q] = out[q] or v
    return out


def show(m):
    return "{%s}" % ", ".join(str(list(p)) for p, v in sorted(m.items()) if v)


def own(ctx):
    w = Fam(ctx)
    where = ctx.class_where("Stochastic")
    G = scen.gaussian
    parents = [(), (3,), (1,), (2, 1), (1, 3), (2, 3), (1, 1)]

    def node(ps, plates=P, observed=None, name=""):
        dims = (w.shape(("D",)),)
        z = [w.arr("phi", P + ("D",))]
        dist = w.it.call(w.AnyDistribution, [z, w.arr("g", P), (z, w.arr("gn", P)),
                                             {"x": (z, w.arr("fn", P))}, z], {})
        mom = w.it.call(w.AnyMoments, [{"x": z}, dims], {})
        return w.it.call(w.AnyNode, list(ps), dict(distribution=dist, moments=mom, dims=dims,
                                                   plates=plates, initialize=False))

    def verify(label, nd, want, srcs):
        got = boolean(w.get(nd, "mask"), P)
        err = None
        if got != want:
            err = "active plates are %s; must be %s" % (show(got), show(want))
        for s, pl in srcs:
            g = tn.lift(w.get(s.obj, "mask"))
            try:
                g = boolean(g, pl)
            except (tn.ShapeError, IndexError):
                err = err or "mask of a parent with plates %s has another shape" % (pl,)
                continue
            e = collapse(want, P, pl)
            if g != e:
                err = err or "active plates of the parent with plates %s are %s; must be %s" % (
                    pl, show(g), show(e))
        ctx.verdict("axes", label, err is None, err or "", where)

    def family(children):
        srcs = [(scen.Src(w, G, "m%d" % k, pl, ("D",)), pl) for k, pl in enumerate(parents)]
        nd = node([s.obj for s, _ in srcs])
        for m, extra in children:
            pl = (2,) * extra + P
            w.sink(nd, pl, [w.arr("msg", pl + ("D",))], cmask(m))
        return nd, srcs

    def bl(m):
        return boolean(cmask(m), P)

    def orr(*ms):
        return {p: any(m[p] for m in ms) for p in ms[0]}
    for (la, a), (lb, b) in itertools.product(MASKS, MASKS):
        label = "observed: %s; active plates of a child: %s" % (la, lb)
        with ctx.instance("axes", label):
            w.reset()
            nd, srcs = family([(b, 0)])
            w.call(nd, "_update_mask")
            verify(label + " (before the observation)", nd, bl(b), srcs)
            w.call(nd, "observe", "x", mask=cmask(a))
            verify(label, nd, orr(bl(a), bl(b)), srcs)
            w.call(nd, "unobserve")
            verify(label + " (withdrawn)", nd, bl(b), srcs)
        label = "active plates of two children: %s; %s" % (la, lb)
        with ctx.instance("axes", label):
            w.reset()
            nd, srcs = family([(a, 0), (b, 1)])
            w.call(nd, "_update_mask")
            verify(label, nd, orr(bl(a), bl(b)), srcs)
        label = "observed: %s, then %s" % (la, lb)
        with ctx.instance("axes", label):
            w.reset()
            nd, srcs = family([])
            w.call(nd, "observe", "x", mask=cmask(a))
            w.call(nd, "observe", "x", mask=cmask(b))
            verify(label, nd, bl(b), srcs)
    # two levels
    for la, a in MASKS:
        label = "child with %s observed below a latent node" % la
        with ctx.instance("axes", label):
            w.reset()
            nd, srcs = family([])
            child = node([nd])
            w.call(child, "observe", "x", mask=cmask(a))
            verify(label, nd, bl(a), srcs)
            w.call(child, "unobserve")
            verify(label + " (withdrawn)", nd, bl(F), srcs)


def masks_for(plates):
    pos = list(itertools.product(*[range(n) for n in plates]))
    out = [set(pos), set()]
    out += [{p} for p in pos]
    if len(pos) > 2:
        out += [set(pos[:2]), set(pos) - {pos[0]}]
    return out


def exact(ctx, w, sc, j, stochastic):
    where = ctx.class_where(sc.cls)
    name = sc.name if stochastic else "%s: %s" % (sc.cls, sc.name)
    plates = tuple(w.shape(sc.plates))
    if not all(isinstance(n, int) for n in plates):
        return
    for on in masks_for(plates):
        lab = "%s, parent %s, active %s" % (name, sc.parents[j][1], sorted(map(list, on)))
        with ctx.instance("axes", lab):
            w.reset()
            axes = tuple(None if n == 1 else n for n in plates)
            data = {}
            for pos in itertools.product(*[range(n) for n in plates]):
                data[tuple(i for i, n in zip(pos, plates) if n != 1)] = \
                    tn.Body.const(int(pos in on))
            mask = tn.Arr(axes, data, "b")
            if stochastic:
                srcs, node = sc.build(w)
                u = sc.own(w, node)
                w.it.setattr(node, "u", list(u))
                w.it.setattr(node, "observed", mask)
                w.call(node, "_update_mask")
                us = w.call(node, "_message_from_parents")
                L = p06.expected_log_density(w, sc, node, us, u, mask)
            else:
                srcs, node = p08.build(w, sc)
                dims = [scen.axis_specs(w, d) for d in scen.node_dims(w, node)]
                g = scen.message(w, dims, sc.plates, sc.plates, scen.sym_of(w, node))
                masked = [tn.mul(scen.expand_right(mask, len(d)), a) for a, d in zip(g, dims)]
                w.sink(node, w.get(node, "plates"), masked, mask)
                w.call(node, "_update_mask")
                L = scen.total(w, node, masked, scen.node_moments(w, node))
            src = srcs[j]
            pl = tuple(w.shape(src.plates))
            occur = set()
            for (fs, bd), c in L.t.items():
                for (n, ix, q) in fs:
                    if n in src.names:
                        p = list(ix[:sum(1 for x in pl if x != 1)])
                        occur.add(tuple(0 if x == 1 else p.pop(0) for x in pl))
            got = boolean(w.get(src.obj, "mask"), pl)
            want = {p: p in occur for p in got}
            ctx.verdict("axes", lab, got == want, "active plates of the parent are %s; its "
                        "moments occur at %s" % (show(got), show(want)), where)

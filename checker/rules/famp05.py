"""P05 on whole arrays: update, gradient, initialisation of any exponential-family node."""
import tensor as tn
import famworld as fw
from famworld import Fam, Any, DIMS, F, T


def plus(*xs):
    r = None
    for x in xs:
        r = tn.lift(x) if r is None else tn.add(r, tn.lift(x))
    return r


def optimum(s, r=1, children=True):
    """annealing * (prior's parameters + bias + messages of the children)"""
    out = []
    for c in range(len(DIMS)):
        phi_p = s.phi_p[c]
        while phi_p.ndim > len(s.shape(c)):
            phi_p = tn.drop_axis(phi_p, 0)
        t = tn.broadcast_to(plus(phi_p, *( [s.bias[c]] if s.bias else [])), s.shape(c))
        if children:
            t = tn.mul(tn.lift(s.annealing), tn.add(t, s.message(c, r)))
        out.append(t)
    return out


def run(ctx):
    w = Fam(ctx)
    for p in fw.PLATES:
        fw.plates(p)
        plates_(ctx, w)
    fw.plates(fw.PLATES[0])
    ctx.functions.update(w.it.functions)


def plates_(ctx, w):
    where = ctx.class_where("ExponentialFamily")

    def check(label, err):
        ctx.verdict("axes", label, err is None, err or "", where)

    def updated(s, phi, label, latent=True):
        want = dict(u=[s.where(a, b, c) for c, (a, b) in enumerate(zip(s.u_new, s.u))],
                    g=s.where(s.g_new, s.g_q))
        if phi is not None:
            want["phi"] = phi
        err = s.state(**want)
        seen = w.get(s.dist, "seen")
        if err is None and phi is not None:
            if len(seen) != 1:
                err = "moments are computed %d times" % len(seen)
            else:
                for c, a in enumerate(seen[0][0]):
                    err = err or s.eq(a, phi[c], c)
                    if tn.lift(a).ndim != len(s.shape(c)):
                        err = err or "moments are computed of parameters without all the axes"
                err = err and "moments are not those of the new parameters: " + err
                err = err or s.eq(seen[0][1], s.where(tn.lift(1), tn.lift(0)))
        check(label, err)

    # update of latent plates
    for lab, pats in fw.one_by_one(["phi_p", "phi_q", "u", "g_q", "u_new", "g_new", "msg1", "msg2"], extra=True):
        for an in ((1, 0.5) if not pats else (0.5,)):
            label = "update, annealing %s, %s" % (an, lab or "full arrays")
            label += fw.label()
            with ctx.instance("axes", label):
                w.reset()
                s = Any(w, pats, annealing=an, observed=[[T, F, T], [F, T, F]],
                        m1=[[T, T, F], [T, F, T]], m2=[[T], [F]])
                w.call(s.node, "update")
                updated(s, optimum(s), label)
    for mlab, m in fw.masks():
        label = "update with %s observed" % mlab
        label += fw.label()
        with ctx.instance("axes", label):
            w.reset()
            s = Any(w, observed=m)
            w.call(s.node, "update")
            full = all(b.constant() for b in tn.lift(s.observed).data.values())
            if full:
                check(label, s.state(u=s.u, g=s.g_q))
            else:
                updated(s, optimum(s), label)
        for k in (0, 1):
            label = "update with active plates of child %d: %s" % (k + 1, mlab)
            label += fw.label()
            with ctx.instance("axes", label):
                w.reset()
                s = Any(w, **{"m%d" % (k + 1): m})
                w.call(s.node, "update")
                updated(s, optimum(s), label)
    for bias in (True, False):
        label = "update %s bias" % ("with" if bias else "without")
        label += fw.label()
        with ctx.instance("axes", label):
            w.reset()
            s = Any(w, bias=bias)
            w.call(s.node, "update")
            updated(s, optimum(s), label)
    for mult, cm, r in (((1, 1), (1, 5), 5), ((1, 5), (1, 5), 1), ((4, 1), (4, 5), 5), ((4, 1), (4, 1), 1)) \
            if fw.P == (2, 3) else ():
        label = "update, plate multiplier %s, of the child %s" % (mult, cm)
        label += fw.label()
        with ctx.instance("axes", label):
            w.reset()
            s = Any(w, multiplier=mult, child_multiplier=cm)
            if mult != (1, 1):
                continue        # the other child would be inconsistent
            w.call(s.node, "update")
            updated(s, optimum(s, r), label)

    # natural gradient
    for lab, pats in fw.one_by_one(["phi_p", "phi_q", "msg1", "msg2"]):
        for an in ((1, 0.5) if not pats else (0.5,)):
            label = "natural gradient, annealing %s, %s" % (an, lab or "full arrays")
            label += fw.label()
            with ctx.instance("axes", label):
                w.reset()
                s = Any(w, pats, annealing=an, m1=[[T, T, F], [T, F, T]], m2=[[T], [F]])
                g = w.call(s.node, "get_riemannian_gradient")
                err = None
                for c, (a, opt) in enumerate(zip(g, optimum(s))):
                    err = err or s.eq(a, tn.sub(opt, tn.broadcast_to(s.phi_q[c], s.shape(c))), c)
                    if tn.lift(a).shape() != tn.lift(tn.broadcast_to(opt, s.shape(c))).shape():
                        err = err or "component %d does not have the shape of the node" % c
                err = err or (len(g) != len(DIMS) and "has %d components" % len(g)) or None
                err = err or s.state(phi=s.phi_q, u=s.u, g=s.g_q)
                check(label, err)
    for an in (1, 0.5):
        label = "ordinary gradient, annealing %s" % an
        label += fw.label()
        with ctx.instance("axes", label):
            w.reset()
            s = Any(w, annealing=an)
            rg = [w.arr("rg%d" % c, fw.P + tuple(d)) for c, d in enumerate(DIMS)]
            g0 = [tn.Arr(a.axes, dict(a.data), a.dtype) for a in s.grad]
            g = w.call(s.node, "get_gradient", list(rg))
            err = None
            for c, a in enumerate(g):
                err = err or s.eq(a, tn.div(g0[c], tn.lift(an)), c)
            args = w.get(s.dist, "graded")
            for k, (nm, want) in enumerate((("natural gradient", rg), ("moments", s.u),
                                            ("parameters", s.phi_q))):
                for c in range(len(DIMS)):
                    e = s.eq(args[k][c], want[c], c)
                    err = err or (e and "computed from other %s: %s" % (nm, e))
            check(label, err)

    # initialisation and parameter setting
    for mlab, m in fw.masks():
        full = all(b.constant() for b in tn.lift(fw.cmask(m)).data.values())
        label = "initialisation from the prior, %s observed" % mlab
        label += fw.label()
        with ctx.instance("axes", label):
            w.reset()
            s = Any(w, observed=m, annealing=0.5)
            w.call(s.node, "initialize_from_prior")
            if full:
                check(label, s.state(u=s.u))
            else:
                updated(s, optimum(s, children=False), label)
        label = "parameter setting, %s observed" % mlab
        label += fw.label()
        with ctx.instance("axes", label):
            w.reset()
            s = Any(w, observed=m, annealing=0.5)
            x = [w.arr("x%d" % c, fw.P + tuple(d)) for c, d in enumerate(DIMS)]
            w.call(s.node, "set_parameters", list(x))
            if full:
                check(label, s.state(u=s.u, g=s.g_q))
            else:
                updated(s, x, label)
        for meth, args in (("initialize_from_value", ("x",)), ("initialize_from_random", ())):
            label = "%s, %s observed" % (meth, mlab)
            label += fw.label()
            with ctx.instance("axes", label):
                w.reset()
                s = Any(w, observed=m)
                w.call(s.node, meth, *args)
                err = s.state(u=[s.where(a, b, c) for c, (a, b) in enumerate(zip(s.u_fix, s.u))])
                if meth == "initialize_from_random":
                    phi, plates = w.get(s.dist, "drawn")
                    for c, a in enumerate(phi):
                        e = s.eq(a, s.phi_q[c], c)
                        err = err or (e and "drawn with other parameters: " + e)
                    if tuple(plates) != fw.P:
                        err = err or "drawn with plates %s" % (plates,)
                check(label, err)
    label = "parameters are returned as independent copies"
    label += fw.label()
    with ctx.instance("axes", label):
        w.reset()
        s = Any(w)
        x = w.call(s.node, "get_parameters")
        err = None
        for c, a in enumerate(x):
            err = err or s.eq(a, s.phi_q[c], c)
        check(label, err)

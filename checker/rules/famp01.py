"""P01 on whole arrays: no operation of any exponential-family node touches the
observed part; giving data touches nothing else."""
import tensor as tn
import famworld as fw
from famworld import Fam, Any, DIMS, F, T, cmask
import scen


def run(ctx):
    w = Fam(ctx)
    for p in fw.PLATES:
        fw.plates(p)
        plates_(ctx, w)
    fw.plates(fw.PLATES[0])
    ctx.functions.update(w.it.functions)


def plates_(ctx, w):
    where = ctx.class_where("Stochastic")

    def kept(s, m, what):
        """At the plates of m the moments and the base measure are those of the data."""
        full = s.shape()
        m = tn.broadcast_to(tn.lift(cmask(m)), full)
        for c, d in enumerate(DIMS):
            e = scen.expand_right(m, len(d))
            got = tn.lift(w.get(s.node, "u")[c])
            if got.ndim > len(s.shape(c)):
                return "moment %d has too many axes" % c
            diff = tn.mul(e, tn.sub(tn.broadcast_to(got, s.shape(c)),
                                    tn.broadcast_to(what[c], s.shape(c))))
            if not all(x.is_zero() for x in diff.data.values()):
                return "moment %d of observed plates is altered" % c
        got = tn.lift(w.get(s.node, "f"))
        diff = tn.mul(m, tn.sub(tn.broadcast_to(got, full), tn.broadcast_to(s.f_new, full)))
        if not all(x.is_zero() for x in diff.data.values()):
            return "the base measure of observed plates is altered"
        obs = tn.broadcast_to(tn.lift(w.get(s.node, "observed")), full)
        if not all(x.is_zero() for x in tn.sub(obs, m).data.values()):
            return "the observed plates are not the given ones"
        act = tn.broadcast_to(tn.lift(w.get(s.node, "mask")), full)
        one = tn.lift(1)
        miss = tn.mul(m, tn.sub(one, act))
        if not all(x.is_zero() for x in miss.data.values()):
            return "observed plates are not active"
        return None

    def ops(s, x=None):
        x = [w.arr("x%d" % c, fw.P + tuple(d)) for c, d in enumerate(DIMS)]
        return [("update", ("update",)), ("initialize_from_prior", ("initialize_from_prior",)),
                ("initialize_from_value", ("initialize_from_value", "x2")),
                ("initialize_from_random", ("initialize_from_random",)),
                ("set_parameters", ("set_parameters", x)),
                ("initialize_from_parameters", ("initialize_from_parameters",)),
                ("get_riemannian_gradient", ("get_riemannian_gradient",)),
                ("lower_bound_contribution", ("lower_bound_contribution",)),
                ("random", ("random",)), ("_update_mask", ("_update_mask",))]
    names = [
        "update", "initialize_from_prior", "initialize_from_value", "initialize_from_random",
        "set_parameters", "initialize_from_parameters", "get_riemannian_gradient",
        "lower_bound_contribution", "random", "_update_mask"]
    pats = [("", {})] + [("%s broadcast as [%s]" % (n, ",".join(map(str, p))), {n: p})
                         for p in scen.patterns(fw.P)[1:] + [(1,) * len(fw.P)]
                         if len(p) == len(fw.P) for n in ("u", "u_new", "phi_p", "g_new")]
    pats += [("all broadcast as [%s]" % ",".join(map(str, p)),
              {n: p for n in ("u", "u_new", "phi_p", "g_new", "phi_q")})
             for p in scen.patterns(fw.P)[1:] + [(1,) * len(fw.P)] if len(p) == len(fw.P)]
    for mlab, m in fw.masks():
        for plab, pat in pats:
            if plab and mlab not in ("elements", "columns", "rows"):
                continue
            for nm in names:
                label = "%s with %s observed%s" % (nm, mlab, plab and ", " + plab)
                label += fw.label()
                with ctx.instance("axes", label):
                    w.reset()
                    s = Any(w, pat)
                    w.it.setattr(s.node, "observed", False)
                    x2 = [w.arr("other%d" % c, fw.P + tuple(d)) for c, d in enumerate(DIMS)]
                    w.it.getattr(w.get(s.node, "_moments"), "fixed")["x2"] = x2
                    w.it.getattr(w.get(s.node, "_moments"), "fixed")["sample"] = x2
                    w.call(s.node, "observe", "x", mask=cmask(m))
                    err = kept(s, m, s.u_fix)
                    if err is None:
                        args = dict((o[0], o[1]) for o in ops(s))[nm]
                        w.call(s.node, *args)
                        err = kept(s, m, s.u_fix)
                    else:
                        err = "after the observation: " + err
                    ctx.verdict("axes", label, err is None, err or "", where)

    # giving data leaves the rest alone
    for mlab, m in fw.masks():
        label = "observation of %s" % mlab
        label += fw.label()
        with ctx.instance("axes", label):
            w.reset()
            s = Any(w)
            w.it.setattr(s.node, "observed", False)
            w.call(s.node, "observe", "x", mask=cmask(m))
            s.observed = cmask(m)
            err = s.state(u=[s.where(b, a, c) for c, (a, b) in enumerate(zip(s.u_fix, s.u))],
                          f=s.where(s.f, s.f_new), phi=s.phi_q, g=s.g_q)
            ctx.verdict("axes", label, err is None, err or "", where)
        for mlab2, m2 in fw.masks():
            label = "observation of %s after %s" % (mlab2, mlab)
            label += fw.label()
            with ctx.instance("axes", label):
                w.reset()
                s = Any(w)
                w.it.setattr(s.node, "observed", False)
                y = [w.arr("other%d" % c, fw.P + tuple(d)) for c, d in enumerate(DIMS)]
                fy = w.arr("fother", fw.P)
                w.get(s.dist, "fixed")["y"] = (y, fy)
                w.call(s.node, "observe", "y", mask=cmask(m))
                w.call(s.node, "observe", "x", mask=cmask(m2))
                err = kept(s, m2, s.u_fix)
                ctx.verdict("axes", label, err is None, err or "", where)
        label = "withdrawal of the observation of %s" % mlab
        label += fw.label()
        with ctx.instance("axes", label):
            w.reset()
            s = Any(w)
            w.it.setattr(s.node, "observed", False)
            w.call(s.node, "observe", "x", mask=cmask(m))
            w.call(s.node, "unobserve")
            obs = tn.broadcast_to(tn.lift(w.get(s.node, "observed")), s.shape())
            err = None if all(x.is_zero() for x in obs.data.values()) else "still observed"
            ctx.verdict("axes", label, err is None, err or "", where)

"""P04 on whole arrays: the contribution of any exponential-family node to the bound."""
import tensor as tn
import famworld as fw
from famworld import Fam, Any, DIMS, F, T
from nodeworld import contract
import scen


def expected_bound(s, mask, factor):
    """sum over active plates of g_p + phi_p u + { f | -(g_q + phi_q u)/annealing }"""
    w = s.w
    full = s.shape()
    act = tn.broadcast_to(tn.lift(mask), full)
    obs = tn.broadcast_to(tn.lift(s.observed), full)
    lat = tn.sub(tn.lift(1), obs)
    temp = tn.div(tn.lift(1), tn.lift(s.annealing))
    L = contract(s.g_p, act, full)
    L = L + contract(s.f, tn.mul(act, obs), full)
    L = L - contract(tn.mul(tn.lift(s.g_q), temp), tn.mul(act, lat), full)
    for c, d in enumerate(DIMS):
        e = lambda x: scen.expand_right(x, len(d))
        sh = s.shape(c)
        t = tn.sub(tn.broadcast_to(s.phi_p[c], sh),
                   tn.mul(tn.mul(tn.broadcast_to(s.phi_q[c], sh), temp), e(lat)))
        L = L + contract(tn.mul(t, e(act)), s.u[c], sh)
    return L.scale(factor)


def run(ctx):
    w = Fam(ctx)
    for p in fw.PLATES:
        fw.plates(p)
        plates_(ctx, w)
    fw.plates(fw.PLATES[0])
    ctx.functions.update(w.it.functions)


def plates_(ctx, w):
    where = ctx.class_where("ExponentialFamily")

    def bound(label, factor=1, ignore=True, **kw):
        label += fw.label()
        with ctx.instance("axes", label):
            w.reset()
            s = Any(w, bias=False, **kw)
            w.call(s.node, "_update_mask")
            mask = tn.lift(True)
            if ignore:
                full = s.shape()
                a = tn.broadcast_to(tn.lift(s.m1), full)
                b = tn.broadcast_to(tn.lift(s.m2), full)
                o = tn.broadcast_to(tn.lift(s.observed), full)
                one = tn.lift(1)
                n = tn.mul(tn.mul(tn.sub(one, a), tn.sub(one, b)), tn.sub(one, o))
                mask = tn.sub(one, n)
            got = tn.lift(w.call(s.node, "lower_bound_contribution", **(
                {} if ignore else {"ignore_masked": False})))
            want = expected_bound(s, mask, factor)
            if got.ndim:
                ctx.bad("axes", label, "is not a scalar", where)
                return
            g = got.body()
            ctx.verdict("axes", label, g == want, "is %s; must be %s" % (
                str(g)[:500], str(want)[:500]), where)

    for lab, pats in fw.one_by_one(["phi_p", "phi_q", "u", "g_p", "g_q", "f"]):
        for mlab, m in (("partly observed", [[T, F, T], [F, F, T]]), ("latent", F),
                        ("observed", T)):
            bound("%s, %s" % (mlab, lab or "full arrays"), pats=pats, observed=m, annealing=0.5,
                  m1=[[T, T, F], [T, F, T]], m2=[[F, F, F]])
    for ig in (True, False):
        for mlab, m in fw.masks():
            bound("%s observed%s" % (mlab, "" if ig else ", all plates"), observed=m, ignore=ig,
                  m1=[[T, T, F], [T, F, T]], m2=F)
            bound("active plates: %s%s" % (mlab, "" if ig else ", all plates"), m1=m, m2=F,
                  ignore=ig)
            bound("active plates: %s%s, partly observed" % (mlab, "" if ig else ", all plates"),
                  m1=F, m2=m, ignore=ig, observed=[[T], [F]])
        for an in (1, 0.5, 2):
            bound("annealing %s%s" % (an, "" if ig else ", all plates"), annealing=an,
                  observed=[T, F, F], ignore=ig)
        for mult in ((1, 5), (4, 1), (4, 5), (5,)) if len(fw.P) == 2 else ():
            bound("plate multiplier %s%s" % (mult, "" if ig else ", all plates"), multiplier=mult,
                  factor=mult[0] * mult[-1] if len(mult) > 1 else mult[0], ignore=ig,
                  m1=[[T], [F]], m2=F)
        for pats in ({n: (1,) * len(fw.P) for n in ("phi_p", "g_p", "u", "phi_q", "g_q", "f")},):
            for mlab, m in fw.masks():
                if not isinstance(m, list) or len(m) != 2 or len(m[0]) != 3:
                    bound("all broadcast, active plates: %s%s" % (mlab, "" if ig else ", all plates"),
                          pats=pats, m1=m, m2=F, ignore=ig)

    # log-density of a value
    for lab, pats in fw.one_by_one(["phi_q", "g_q", "f_new", "u_fix"]):
        label = "log-density, %s" % (lab or "full arrays")
        label += fw.label()
        with ctx.instance("axes", label):
            w.reset()
            s = Any(w, pats, bias=False)
            got = w.call(s.node, "logpdf", "x")
            want = tn.add(tn.broadcast_to(s.g_q, s.shape()), tn.broadcast_to(s.f_new, s.shape()))
            for c, d in enumerate(DIMS):
                t = tn.mul(tn.broadcast_to(s.phi_q[c], s.shape(c)), tn.broadcast_to(s.u_fix[c], s.shape(c)))
                for _ in d:
                    t = tn.sum_axes(t, (t.ndim - 1,))
                want = tn.add(want, t)
            err = s.eq(got, want)
            ctx.verdict("axes", label, err is None, err or "", where)

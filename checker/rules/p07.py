"""P07: each built-in distribution is the documented one.

Rules
 density   f(x) + g(parents) + sum_i phi_i(parents) u_i(x) with the moments of
           fixed values equals the documented log-density identically;
 moments   the moments returned for natural parameters phi are the negative
           gradient of the log-normaliser returned with them;
 cgf       the log-normaliser as a function of phi, at phi(fixed parents),
           equals the one computed from the parents' moments.
"""
from dists import *
import os
import scen
from rules import famp07


def run(ctx):
    ctx.rule("density", "f + g + phi.u == documented log-density", floor=5)
    ctx.rule("moments", "u_i(phi) == -dg/dphi_i", floor=5)
    ctx.rule("cgf", "g(phi(parents)) == g(parents) for fixed parents", floor=5)
    ctx.rule("axes", "axis by axis: moments of fixed values, and f + g + phi.u weighted by any "
             "array over the plates, == the documented ones", floor=50)
    ctx.rule("axesphi", "axis by axis: moments and log-normaliser of natural parameters == "
             "documented ones", floor=50)
    ctx.assumptions = ["formulas are compared after erasing array axes (2 components for "
                       "category vectors)",
                       "the documented log-densities are those of the distribution table"]
    scen.prepare(ctx)
    with ctx.guard("axes", "distributions"):
        famp07.run(ctx, os.environ.get("P07_ONLY"))
    funcs = opaque_utils(ctx.p)
    for d in DISTS:
        v = View(ctx, d, funcs)
        with ctx.guard("moments", d.cls):
            moments(ctx, v)
        with ctx.guard("density", d.cls):
            density(ctx, v)
        with ctx.guard("cgf", d.cls):
            cgf(ctx, v)


def each(ctx, v, rule, f, check):
    for cases, r in run_cases(f, v.fixed_cases):
        cn = case_name({c: x for c, x in cases.items() if c not in v.fixed_cases})
        if isinstance(r, Undecided):
            ctx.und(rule, v.d.cls + cn, str(r))
            continue
        check(r, cn, scalar_case(cases))


def scalar_case(cases):
    """In the branch for 0-dimensional variables the dimension is one."""
    for c, x in cases.items():
        z = ndim_zero(c)
        if z is not None and z == x:
            return {("s", "D"): Poly.const(1)}
    return {}


def ndim_zero(c):
    """True: the condition says ndim == 0; False: it says ndim > 0; None: other."""
    if c.op == "cmp" and len(c.a) == 3:
        op, a, b = c.a
        nd = [y for y in (a, b) if y.op == "attr" and y.a[1] == "ndim"]
        zero = [y for y in (a, b) if y is const(0)]
        if nd and zero:
            if op == "==":
                return True
            if op == "!=" or (op == "<" and a is zero[0]):
                return False
    return None


def moments(ctx, v):
    where = v.method_where("compute_moments_and_cgf")

    def check(r, cn, dim):
        u, g = r
        for (lab, sym), (_, got) in zip(flat(v.phi[1]), flat(u)):
            want = -g.diff(atom_of(sym))
            ctx.verdict("moments", "%s moment %s" % (v.d.cls, lab), got.subst(dim) == want.subst(dim),
                        "%s: returned %s, -dg/dphi is %s" % (cn, got, want), where)
    each(ctx, v, "moments", v.moments_and_cgf, check)


def parent_values(v, spec, cases):
    """Substitution: parent moment symbols -> moments of the fixed parent values."""
    sub = {}
    for k, (mcls, val) in enumerate(spec["parents"]):
        kinds = v.d.parents[k]
        if mcls is None:
            vals = val
        else:
            x = param("fixed_parent")
            tab = {x: val, mk("attr", self_of(mcls), "k"): Poly.sym("D"),
                   mk("attr", self_of(mcls), "N"): Poly.sym("N")}
            t = v.build("compute_fixed_moments", [x], kwargs={"gradient": NONE} if
                        mcls == "WishartMoments" else None, cls=mcls)
            # np.any(..) validation conditions only guard raises
            items = strip_seq(t, cases)
            if len(items) != len(kinds):
                raise Undecided("%s returns %d moments" % (mcls, len(items)))
            e = Erase(tab, cases, v.d.K)
            vals = [tuple(e.at(j)(i) for j in range(v.d.K)) if kd == "v" else e(i)
                    for i, kd in zip(items, kinds)]
        for (_, s), (_, x) in zip(flat(v.par[k][1]), flat(vals)):
            sub[atom_of(s)] = x
    return sub


def subst(seq, table):
    return [tuple(y.subst(table) for y in x) if isinstance(x, tuple) else x.subst(table)
            for x in seq]


def density(ctx, v):
    spec = v.d.fixed()
    where = v.method_where("compute_fixed_moments_and_f")
    xs = spec["x"]
    if isinstance(xs, list):
        xt = mk("tuple", *[param("x%d" % i) for i in range(len(xs))])
        for i, val in enumerate(xs):
            v.table[xt.a[i]] = val
    else:
        xt = param("x")
        v.table[xt] = xs

    def f(cases):
        sub = parent_values(v, spec, cases)
        phi = subst(v.phi_from_parents(cases), sub)
        g = v.cgf_from_parents(cases).subst(sub)
        ut, ft = v.fixed_u_f(xt, cases)
        u = spec["u"] if v.d.u_free else v.seq(ut, v.d.u, cases, "fixed moments")
        return v.log_joint(phi, u, g) + v.value(ft, "s", cases)

    def check(r, cn, dim):
        ctx.verdict("density", v.d.cls, r.subst(dim) == spec["logp"].subst(dim),
                    "%s: code computes %s; documented %s; difference %s"
                    % (cn, r, spec["logp"], r - spec["logp"]), where)
    each(ctx, v, "density", f, check)


def cgf(ctx, v):
    spec = v.d.fixed()
    where = v.method_where("compute_cgf_from_parents")

    def f(cases):
        sub = parent_values(v, spec, cases)
        phi = subst(v.phi_from_parents(cases), sub)
        g1 = v.cgf_from_parents(cases).subst(sub)
        _, g = v.moments_and_cgf(cases)
        t2 = {atom_of(s): x for (_, s), (_, x) in zip(flat(v.phi[1]), flat(phi))}
        return g1, g.subst(t2)

    def check(r, cn, dim):
        ctx.verdict("cgf", v.d.cls, r[0].subst(dim) == r[1].subst(dim),
                    "%s: from parents %s, from natural parameters %s" % (cn, r[0], r[1]), where)
    each(ctx, v, "cgf", f, check)

"""P06: messages to parents are the exact derivatives of the expected log-density.

For a distribution with natural parameters phi(u_parents), log-normaliser
g(u_parents) and own moments u, the expected log-density is
    L = sum_i <phi_i(u_parents), u_i> + g(u_parents),
which is linear in the moments of each parent.  The message to parent k must be
dL/du_{k,c} for every component c, identically in all moments.

Two decisions: `message` on the formulas with array axes erased, and `axes`: the node
between arbitrary parents, interpreted over index-typed tensors, with the sums over the
plates and variable axes, for all broadcasting patterns and masks.
"""
from dists import *
import scen
from fan import fan
import expscen
import tensor as tn


def run(ctx):
    scen.prepare(ctx)
    ctx.rule("message", "message component == derivative of the expected log-density w.r.t. that "
             "moment of that parent", floor=8)
    ctx.rule("axes", "message received by a parent, axis by axis == derivative of the expected "
             "log-density summed over the plates", floor=20)
    ctx.assumptions = ["rule message: formulas are compared after erasing array axes (2 "
                       "components for category vectors)"]
    funcs = opaque_utils(ctx.p)
    for d in DISTS:
        v = View(ctx, d, funcs)
        for k in range(len(d.parents)):
            if k in d.skip_message:
                continue
            name = "%s message to parent %d" % (d.cls, k)
            with ctx.guard("message", name):
                message(ctx, v, k, name)
    import os
    import time
    only = os.environ.get("P06_ONLY")
    w = scen.World(ctx)

    def job(t):
        sc, j = t
        t = time.time()
        axes(ctx, w, sc, j)
        if os.environ.get("CHECK_DEBUG"):
            print("%-40s %.2fs" % (sc.name, time.time() - t))
    fan(ctx, [(sc, j) for sc in expscen.table() if not only or only in sc.name
              for j in range(len(sc.parents)) if j not in sc.skip], job,
        lambda: w.it.functions)


def message(ctx, v, k, name):
    where = v.method_where("compute_message_to_parent")

    def f(cases):
        phi = v.phi_from_parents(cases)
        g = v.cgf_from_parents(cases)
        L = v.log_joint(phi, v.u[1], g)
        return L, v.message(k, cases)
    for cases, r in run_cases(f, v.fixed_cases):
        cn = case_name({c: x for c, x in cases.items() if c not in v.fixed_cases})
        if isinstance(r, Undecided):
            ctx.und("message", name + cn, str(r))
            continue
        L, m = r
        for (lab, sym), (_, got) in zip(flat(v.par[k][1]), flat(m)):
            want = L.diff(atom_of(sym))
            ctx.verdict("message", "%s component %s" % (name, lab), got == want,
                        "in %s%s: message is %s, derivative is %s" % (d_name(v), cn, got, want),
                        where)


def d_name(v):
    return v.d.cls


# ---------------------------------------------------------------- axes
def combos(sc, j):
    """(patterns of the parents' moments, pattern of the own moments, mask pattern)"""
    out = [({}, None, None)]
    for p in scen.patterns(sc.plates)[1:]:
        if sc.own_lead or len(p) == len(sc.plates):
            out.append(({}, p, None))
    for k, (kind, nm, pl, dims) in enumerate(sc.parents):
        for p in scen.patterns(pl)[1:]:
            if sc.lead or len(p) == len(pl):
                out.append(({k: p}, None, None))
    out += [(p, None, None) for p in together(sc)]
    for mk in scen.patterns(sc.plates):
        out.append(({}, None, mk))
        out.append(({}, () if sc.own_lead else (1,) * len(sc.plates), mk))
    return out


def together(sc):
    """The same trailing plate axis broadcast in all parents."""
    out = []
    for t in range(1, 1 + max(len(p[2]) for p in sc.parents)):
        out.append({k: tuple(1 if len(p[2]) - i == t else a for i, a in enumerate(p[2]))
                    for k, p in enumerate(sc.parents)})
    return out


def expected_log_density(w, sc, node, us, u, mask):
    dist = w.get(node, "_distribution")
    phi = w.call(dist, "compute_phi_from_parents", *us)
    g = w.call(dist, "compute_cgf_from_parents", *us)
    plates = w.get(node, "plates")
    L = None
    for c, (a, b) in enumerate(zip(phi, u)):
        d = len(sc.dims[c])
        t = scen.contract(tn.mul(scen.expand_right(mask, d), tn.lift(a)), b,
                          w.call(node, "get_shape", c))
        L = t if L is None else L + t
    return L + scen.contract(g, mask, plates)


def constant_over_categories(d, names):
    """Every term contains sum_k z[..., k] of a categorical parent, which is one."""
    for (fs, bd), c in d.t.items():
        z = [ix for (n, ix, q) in fs if n in names and q == 1]
        if len(z) != 1 or not tn.is_idx(z[0][-1]) or z[0][-1] not in bd:
            return False
        if sum(1 for (n, ix, q) in fs for i in ix if i == z[0][-1]) != 1:
            return False
    return True


def axes(ctx, w, sc, j):
    where = ctx.class_where(sc.cls)
    for pats, up, mk in combos(sc, j):
        lab = "%s, parent %s" % (sc.name, sc.parents[j][1])
        for k, p in pats.items():
            lab += " moments of %s%s" % (sc.parents[k][1], scen.describe(sc.parents[k][2], p))
        if up is not None:
            lab += " own moments[%s]" % ",".join(map(str, up))
        if mk is not None:
            lab += " mask[%s]" % ",".join(map(str, mk))
        with ctx.instance("axes", lab):
            w.reset()
            srcs, node = sc.build(w, pats)
            u = sc.own(w, node, up)
            mask = tn.lift(True) if mk is None else w.arr("M", mk, indicator=True)
            w.it.setattr(node, "u", list(u))
            w.it.setattr(node, "observed", mask)
            w.call(node, "_update_mask")
            us = w.call(node, "_message_from_parents")
            L = expected_log_density(w, sc, node, us, u, mask)
            pn = set(srcs[j].names)
            parts = L.degree_parts(lambda n: n in pn)
            hi = [d for d in parts if d not in (0, 1)]
            if hi:
                ctx.bad("axes", lab, "the expected log-density is of degree %s in the moments of "
                        "the parent" % hi, where)
                continue
            m = w.call(srcs[j].obj, "_message_from_children")
            got = scen.total(w, srcs[j].obj, m, srcs[j].u)
            want = parts.get(1, tn.ZERO)
            ok = got == want
            if not ok and sc.parents[j][0] is scen.categorical:
                ok = constant_over_categories(got - want, pn)
            ctx.verdict("axes", lab, ok,
                        "<message, moments> is %s; derivative of the expected log-density is %s"
                        % (str(got)[:400], str(want)[:400]), where)

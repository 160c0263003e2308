"""P05: variational updates and natural gradients have the exact fixed-point form.

Rules
 update    an update sets every natural parameter to
             annealing * (phi(parents) + bias + message from the children)
           whenever the node is not completely observed, then recomputes moments
           and normaliser from exactly these parameters;
 natural   the natural gradient is  annealing * (phi(parents) + bias + m) - phi,
           i.e. parameters + gradient = updated parameters;
 scale     the ordinary gradient is the distribution's gradient at the node's
           present moments and parameters divided by the annealing;
 jacobian  the distribution's gradient is the natural gradient times the Jacobian
           of the moments with respect to the natural parameters;
 params    reading the parameters returns copies, setting them stores copies and
           recomputes the moments from the new parameters;
 init      initialisation from the prior sets phi(parents) + bias, then the moments;
 axes      all of the above on whole arrays: the methods of any exponential-family
           node are interpreted over symbolic tensors for every broadcasting pattern of
           the arrays, observation pattern, activity of the children's plates, plate
           multiplier and annealing (famp05).
"""
from elems import *
from forms import *
from dists import *
from rules import famp05
import scen
from rules.p07 import scalar_case, case_name

OPQ = {"compute_phi_from_parents", "compute_cgf_from_parents", "_message_from_parents",
       "_message_from_children", "compute_gradient", "compute_moments_and_cgf", "_check_shape",
       "_set_moments", "compute_fixed_moments"}
S = Poly.sym


def run(ctx):
    p = ctx.p
    ctx.rule("update", "phi := annealing*(phi(parents)+bias+messages), then moments of it", floor=1)
    ctx.rule("natural", "natural gradient == updated parameters - parameters", floor=1)
    ctx.rule("scale", "gradient == distribution gradient / annealing", floor=1)
    ctx.rule("jacobian", "gradient_i == sum_j g_j du_j/dphi_i", floor=3)
    ctx.rule("params", "copies out, copies in, moments recomputed", floor=1)
    ctx.rule("init", "initialisation sets phi(parents)+bias", floor=1)
    ctx.rule("axes", "state after the operation == specified arrays", floor=100)
    scen.prepare(ctx)
    famp05.run(ctx)
    ctx.assumptions = ["formulas are compared after erasing array axes (2 components for "
                       "category vectors)"]
    funcs = opaque_utils(p)
    for rule, f in (("update", update), ("natural", natural), ("scale", scale),
                    ("params", params), ("init", init)):
        with ctx.guard(rule, "ExponentialFamily." + rule):
            f(ctx, funcs)
    for d in DISTS:
        m = p.find_method(p.get_class(d.cls), "compute_gradient")
        if m is None or m.cls.name in ("Distribution", "ExponentialFamilyDistribution"):
            continue
        with ctx.guard("jacobian", d.cls):
            jacobian(ctx, View(ctx, d, funcs))


def names(slf):
    return [
        (mcall_is("compute_phi_from_parents"), "phi_p"),
        (mcall_is("_message_from_children"), "m"),
        (attr_is("_phi_bias", slf), "bias"),
        (attr_is("phi", slf), "phi"),
        (attr_is("u", slf), "u"),
        (attr_is("annealing", slf), "annealing"),
        (lambda t: t is param("annealing"), "arg"),
    ]


def make(ctx, funcs, method, cls="ExponentialFamily", opq=OPQ):
    b = build(ctx.p, cls, method, Policy(opaque=opq, opaque_funcs=funcs))
    ctx.saw(b)
    return b, self_of(cls), ctx.p.find_method(ctx.p.get_class(cls), method).where


def parents_ok(t, slf):
    """compute_phi_from_parents is applied to the messages of the node's own parents."""
    ok = None
    for x in subterms(t):
        if x.op == "mcall" and x.a[0] == "compute_phi_from_parents":
            args = x.a[2]
            if len(args) == 1 and args[0].op == "star":
                y = args[0]
                while y.op in ("star", "tuple", "list") and len(y.a) == 1:
                    y = y.a[0]
                r = y.op == "mcall" and y.a[0] == "_message_from_parents" and y.a[1] is slf \
                    and not y.a[2] and not y.a[3] or y.op == "param"
                ok = bool(r) if ok is not False else False
    return ok


def compare(ctx, rule, name, term, slf, want, where, cases_sub=None, ncomp=True):
    """Interpret the generic element of `term` and compare with `want`."""
    t = elem(term)
    dom = domain_of(term)

    def f(cases):
        return Elem(names(slf), cases)(t)
    if ncomp and dom is not None:
        ctx.verdict(rule, name + ": every component", covers(dom),
                    "components are left out: %s" % str(dom)[:120], where)
    for cases, r in run_cases(f):
        cn = case_name(cases)
        if isinstance(r, Undecided):
            ctx.und(rule, name + cn, str(r))
            continue
        sub = {}
        bad = skip = False
        obs = mk("attr", slf, "observed")
        for c, v in cases.items():
            k = one_case(c)
            if k is None:
                w = [holds_in([(c, v)], obs, False, x) for x in (False, True)]
                if w == [False, False]:
                    skip = True
                elif True not in w:
                    bad = True
            elif v == k[1]:
                sub[("s", k[0])] = Poly.const(1)
        if skip:
            continue
        if bad:
            ctx.und(rule, name + cn, "condition not understood")
            continue
        ctx.verdict(rule, name, r.subst(sub) == want.subst(sub),
                    "%s computes %s, expected %s" % (cn, r, want), where)


def one_case(c):
    if c.op == "cmp" and c.a[0] in ("==", "!="):
        for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
            if is_const(y) and y.a[0] == 1:
                if x is param("annealing"):
                    return "arg", c.a[0] == "=="
                if x.op == "attr" and x.a[1] == "annealing":
                    return "annealing", c.a[0] == "=="
    return None


def domain_of(t):
    if t.op in ("list", "tuple") and len(t.a) == 1 and t.a[0].op == "each":
        return t.a[0].a[0]
    if t.op == "foldmap":
        return t.a[2]
    if t.op == "obj":
        return domain_of(t.a[0])
    return None


def update(ctx, funcs):
    b, slf, where = make(ctx, funcs, "update")
    st = stores(b, slf, "phi")
    if not st:
        ctx.bad("update", "ExponentialFamily.update", where, "the parameters are never stored")
        return
    last = max(st, key=lambda e: e.n)
    val = last.value
    want = S("annealing") * (S("phi_p") + S("bias") + S("arg") * S("m"))
    compare(ctx, "update", "updated parameters", val, slf, want, where)
    ctx.verdict("update", "messages of the own parents", parents_ok(val, slf),
                "phi is not computed from the messages of the node's parents", where)
    own = [x for x in subterms(val) if x.op == "mcall" and x.a[0] == "_message_from_children"]
    ctx.verdict("update", "messages of the own children",
                all(x.a[1] is slf and not x.a[2] for x in own) and bool(own) or None,
                "messages of %s" % [str(x)[:60] for x in own], where)
    # guards: executed exactly when not everything is observed
    obs = mk("attr", slf, "observed")
    for world, allv, anyv in (("latent", False, False), ("partially observed", False, True)):
        ctx.verdict("update", "executed for a %s variable" % world,
                    holds_in(conds_of(last), obs, allv, anyv),
                    "the update is executed only under %s" % str(conds_of(last))[:160], where)
    recompute(ctx, b, slf, last, "update", "ExponentialFamily.update", where)


def holds_in(conds, obs, allv, anyv):
    """Are the guards true when all()/any() of `observed` have these values?"""
    try:
        g = guard_form(conds)
    except ValueError:
        return None
    env = {}
    for a in atoms(g):
        x = None
        if a.op == "call" and a.a[0] in ("np.all", "np.any") and len(a.a[1]) == 1:
            kind, x = a.a[0][3:], a.a[1][0]
        elif a.op == "mcall" and a.a[0] in ("all", "any") and not a.a[2]:
            kind, x = a.a[0], a.a[1]
        if x is None:
            return None
        x = strip_shape(x)
        f = boolform(x)
        if atoms(f) != [obs]:
            return None
        if evalf(f, {obs: True}):                 # observed itself
            env[a] = allv if kind == "all" else anyv
        else:                                     # its complement
            env[a] = (not anyv) if kind == "all" else (not allv)
    return evalf(g, env)


def recompute(ctx, b, slf, last, rule, name, where, checked=False):
    """After the store of phi, moments and cgf of exactly this phi are computed and stored."""
    calls = [e for e in b.effects if e.kind == "call" and isinstance(e.target, T) and
             e.target.op == "bound" and e.target.a[1] == "compute_moments_and_cgf"]
    after = [e for e in calls if e.n > last.n]
    if not after:
        ctx.verdict(rule, name + ": moments recomputed", False if not calls else False,
                    "no moments are computed after the parameters were set", where)
        return
    e = after[-1]
    a = call_arg(e, 0, "phi")
    cur = mk("attr", slf, "phi")
    ok = a is last.value or a is cur or checked or None
    if not ok:
        try:
            x, y = elem(a), elem(last.value)
            ok = True if x is y else None
            if ok is None:
                def f(cases):
                    e = Elem(names(slf), cases)
                    return e(x), e(y)
                rs = [r for _, r in run_cases(f)]
                if not any(isinstance(r, Undecided) for r in rs):
                    ok = all(r[0] == r[1] for r in rs)
        except Undecided:
            ok = None
    ctx.verdict(rule, name + ": moments of the new parameters", ok,
                "moments are computed from %s" % str(a)[:120], where)
    res = mk("mcall", "compute_moments_and_cgf", e.target.a[0], tuple(e.extra[0]),
             tuple(sorted(e.extra[1].items())))
    sets = [x for x in b.effects if x.kind == "call" and isinstance(x.target, T) and
            x.target.op == "bound" and x.target.a[1] == "_set_moments" and x.n > e.n]
    okm = None
    for x in sets:
        u = call_arg(x, 0, "u")
        if u is not None and u.op == "sub" and is_const(u.a[1]):
            if u.a[0].op == "mcall" and u.a[0].a[0] == "compute_moments_and_cgf":
                okm = u.a[1].a[0] == 0
    ctx.verdict(rule, name + ": moments stored", okm if sets else False,
                "the computed moments are not stored", where)
    gs = [x for x in stores(b, slf, "g") if x.n > e.n]
    okg = None
    for x in gs:
        items = [y for y in subterms(x.value) if y.op == "sub" and is_const(y.a[1]) and
                 y.a[0].op == "mcall" and y.a[0].a[0] == "compute_moments_and_cgf"]
        if items:
            okg = all(y.a[1].a[0] == 1 for y in items)
    ctx.verdict(rule, name + ": normaliser stored", okg if gs else False,
                "the normaliser is not stored with the new moments", where)


def natural(ctx, funcs):
    b, slf, where = make(ctx, funcs, "get_riemannian_gradient")
    want = S("annealing") * (S("phi_p") + S("bias") + S("m")) - S("phi")
    compare(ctx, "natural", "natural gradient", b.ret, slf, want, where)
    ctx.verdict("natural", "messages of the own parents", parents_ok(b.ret, slf),
                "not computed from the messages of the node's parents", where)


def scale(ctx, funcs):
    b, slf, where = make(ctx, funcs, "get_gradient")
    calls = [x for x in subterms(b.ret) if x.op == "mcall" and x.a[0] == "compute_gradient"]
    if not calls:
        raise Undecided("no distribution gradient")
    c = calls[0]
    want_args = (param("rg"), mk("attr", slf, "u"), mk("attr", slf, "phi"))
    ctx.verdict("scale", "arguments", tuple(c.a[2]) == want_args if not c.a[3] and
                len(c.a[2]) == 3 else None,
                "gradient evaluated at %s" % [str(x)[:40] for x in c.a[2]], where)
    t = elem(b.ret)
    nm = names(slf) + [(mcall_is("compute_gradient"), "grad")]
    r = Elem(nm, {})(t)
    ctx.verdict("scale", "annealing", r == S("grad") / S("annealing"),
                "computes %s" % r, where)
    d = domain_of(b.ret)
    if d is not None:
        ctx.verdict("scale", "every component", covers(d), "left out: %s" % str(d)[:100], where)


COPIES = ("np.copy", "np.array", "copy.copy", "copy.deepcopy")


def is_copy_of(t, base):
    """t is a fresh array equal to (an element of) base."""
    if t.op == "call" and t.a[0] in COPIES and len(t.a[1]) == 1:
        kw = dict(t.a[2])
        if kw.get("copy") is FALSE:
            return False
        return inner_is(t.a[1][0], base)
    if t.op == "mcall" and t.a[0] == "copy":
        return inner_is(t.a[1], base)
    if inner_is(t, base):
        return False
    return None


def inner_is(t, base):
    return t.op == "sub" and t.a[0] is base


def params(ctx, funcs):
    b, slf, where = make(ctx, funcs, "get_parameters")
    r = b.ret
    ph = mk("attr", slf, "phi")
    if r is ph:
        ok = False
    else:
        e = elem(r)
        ok = is_copy_of(e, ph)
        if contains(r, lambda x: x.op == "call" and x.a[0] == "copy.deepcopy" and
                    x.a[1] == (ph,)):
            ok = True
    ctx.verdict("params", "parameters are returned as copies", ok,
                "a caller of get_parameters gets %s" % str(r)[:100], where)
    b, slf, where = make(ctx, funcs, "set_parameters")
    st = stores(b, slf, "phi")
    if not st:
        ctx.bad("params", "parameters are stored", where, "phi is not stored")
        return
    last = max(st, key=lambda e: e.n)
    x = param("x")
    v = last.value
    ok = False if v is x else is_copy_of(elem(v), x)
    ctx.verdict("params", "parameters are stored as copies", ok,
                "phi is set to %s" % str(v)[:100], where)
    if conds_of(last):
        ctx.und("params", "unconditional", "guarded store")
    recompute(ctx, b, slf, last, "params", "set_parameters", where)


def init(ctx, funcs):
    b, slf, where = make(ctx, funcs, "initialize_from_prior")
    st = stores(b, slf, "phi")
    if not st:
        ctx.bad("init", "initialize_from_prior", where, "phi is not set")
        return
    last = max(st, key=lambda e: e.n)
    cur = b.store.get((slf, "phi")) if isinstance(b.store, dict) else None
    calls = [e for e in method_calls(b, "compute_moments_and_cgf")]
    t = call_arg(calls[-1], 0, "phi") if calls else last.value
    compare(ctx, "init", "prior parameters", t, slf, S("phi_p") + S("bias"), where, ncomp=False)
    recompute(ctx, b, slf, last, "init", "initialize_from_prior", where, checked=bool(calls))


# -------------------------------------------------------------------------- jacobian
def jacobian(ctx, v):
    where = v.method_where("compute_gradient")
    gt = v.symbols("g", v.d.u)[1]

    def f(cases):
        u, _ = v.moments_and_cgf(cases)
        _, t = v.gradient(cases)
        try:
            items = strip_seq(t, cases)
        except Undecided:
            items = (t,)
        if len(items) != len(v.d.u):
            items = (t,) if len(v.d.u) == 1 else items
        if len(items) != len(v.d.u):
            raise Undecided("gradient has %d components" % len(items))
        got = [v.value(x, k, cases) for x, k in zip(items, v.d.u)]
        return u, got
    for cases, r in run_cases(f, v.fixed_cases):
        cn = case_name({c: x for c, x in cases.items() if c not in v.fixed_cases})
        if isinstance(r, Undecided):
            ctx.und("jacobian", v.d.cls + cn, str(r))
            continue
        u, got = r
        # the gradient may be expressed by the moments u
        table = {atom_of(s): x for (_, s), (_, x) in zip(flat(v.u[1]), flat(u))}
        for (lab, s), (_, x) in zip(flat(v.phi[1]), flat(got)):
            want = Poly()
            for (_, gg), (_, uu) in zip(flat(gt), flat(u)):
                want = want + gg * uu.diff(atom_of(s))
            x = x.subst(table)
            dim = scalar_case(cases)
            ctx.verdict("jacobian", "%s component %s" % (v.d.cls, lab),
                        x.subst(dim) == want.subst(dim),
                        "%s gradient is %s, chain rule gives %s" % (cn, x, want), where)

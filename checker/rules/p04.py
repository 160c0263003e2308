"""P04: the lower bound is the sum of the exact terms E[log p] - T E[log q].

Rules
 terms      per plate element a node contributes
              observed:  g(parents) + f + sum_i phi_i(parents) u_i
              latent:    g(parents) - T g + sum_i (phi_i(parents) - T phi_i) u_i
            with T = 1/annealing (the -log q part is omitted for observed values),
            summed over the axes of the variable only, all components included;
 plates     the element terms are summed over active plates only and multiplied by
            the broadcasting multiplier of exactly the summed arrays and by the
            plate multiplier;
 pointwise  the log-density functions of a node are g + f + sum_i phi_i u_i;
 total      the bound of the engine is the sum of the contributions of all the
            nodes of the model, each recorded under its own node;
 callable   every node that can be part of a model accepts the way the engine asks
            for its contribution.
"""
from rules import famp04
import scen
from elems import *
from forms import *


OPQ = {"compute_phi_from_parents", "compute_cgf_from_parents", "_message_from_parents",
       "compute_fixed_moments_and_f"}


def names(slf):
    return [
        (mcall_is("compute_phi_from_parents"), "phi_p"),
        (mcall_is("compute_cgf_from_parents"), "g_p"),
        (attr_is("_phi_bias", slf), "bias"),
        (attr_is("phi", slf), "phi_q"),
        (attr_is("u", slf), "u"),
        (attr_is("f", slf), "f"),
        (attr_is("g", slf), "g_q"),
        (attr_is("annealing", slf), "annealing"),
    ]


class Obs(Elem):
    """decides conditions under an assumption about `observed` and the annealing."""

    def __init__(self, names, cases, observed, slf, mixed=False):
        Elem.__init__(self, names, cases)
        self.observed, self.slf, self.mixed = observed, slf, mixed

    def reduce(self, kind, arg):
        """all()/any() of a formula over `observed` in a uniform or mixed node."""
        obs = mk("attr", self.slf, "observed")
        g = boolform(arg)
        if atoms(g) != [obs]:
            return None
        x, y = evalf(g, {obs: self.observed}), evalf(g, {obs: not self.observed})
        if not self.mixed:
            return x
        return (x and y) if kind == "all" else (x or y)

    def decide(self, c):
        obs = mk("attr", self.slf, "observed")
        f = boolform(c)
        env = {}
        for a in atoms(f):
            if a is obs:
                env[a] = self.observed
            elif a.op == "call" and a.a[0] in ("np.all", "np.any") and len(a.a[1]) == 1:
                env[a] = self.reduce(a.a[0][3:], a.a[1][0])
                if env[a] is None:
                    env = None
                    break
            elif a.op == "mcall" and a.a[0] in ("all", "any") and not a.a[2] and \
                    self.reduce(a.a[0], a.a[1]) is not None:
                env[a] = self.reduce(a.a[0], a.a[1])
            elif a in self.cases:
                env[a] = self.cases[a]
            else:
                raise NeedCase(a)
        if env is None:
            return Erase.decide(self, c)
        return evalf(f, env)


def run(ctx):
    p = ctx.p
    ctx.rule("terms", "element term of the lower bound", floor=1)
    ctx.rule("plates", "masked sum times the multipliers of the summed arrays", floor=1)
    ctx.rule("pointwise", "log-density of a node: g + f + sum_i phi_i u_i", floor=1)
    ctx.rule("total", "sum over all the nodes, recorded per node", floor=2)
    ctx.rule("callable", "every node accepts the engine's call", floor=3)
    ctx.rule("axes", "state of any exponential-family node after the operation, as arrays", floor=100)
    scen.prepare(ctx)
    famp04.run(ctx)
    ctx.assumptions = ["a plate element is either observed or latent",
                       "0 * log 0 is taken as 0 where a moment is zero"]
    funcs = opaque_utils(p)
    with ctx.guard("terms", "ExponentialFamily.lower_bound_contribution"):
        terms(ctx, funcs)
    with ctx.guard("pointwise", "ExponentialFamilyDistribution.compute_logpdf"):
        logpdf_dist(ctx, funcs)
    with ctx.guard("pointwise", "ExponentialFamily.logpdf"):
        logpdf_node(ctx, funcs)
    for m in ("compute_lowerbound", "loglikelihood_lowerbound", "compute_lowerbound_terms"):
        with ctx.guard("total", "VB." + m):
            total(ctx, funcs, m)
    callable_rule(ctx, funcs)


# -------------------------------------------------------------------- element term
def find_folds(t):
    return [x for x in subterms(t) if x.op == "fold" and x.a[0] == "+"]


def is_case(c, val):
    """Is case condition c of the form annealing==1 / u != 0?"""


def variants(v):
    """All return values of the contribution under its own flags."""
    out, work = [], [((), v)]
    while work:
        cs, t = work.pop()
        if t.op == "phi":
            work.append((cs + ((t.a[0], True),), t.a[1]))
            work.append((cs + ((t.a[0], False),), t.a[2]))
        else:
            out.append((cs, t))
    return out


def factors(t):
    """Multiplicative factors of a product term (list, or None for a division)."""
    if t.op == "bin" and t.a[0] == "*":
        return factors(t.a[1]) + factors(t.a[2])
    if t.op == "call" and t.a[0] == "np.multiply" and len(t.a[1]) == 2:
        return factors(t.a[1][0]) + factors(t.a[1][1])
    return [t]


def terms(ctx, funcs):
    b = build(ctx.p, "ExponentialFamily", "lower_bound_contribution",
              Policy(opaque=OPQ, opaque_funcs=funcs))
    ctx.saw(b)
    slf = self_of("ExponentialFamily")
    where = b.entry_where if hasattr(b, "entry_where") else ctx.p.find_method(
        ctx.p.get_class("ExponentialFamily"), "lower_bound_contribution").where
    done = set()
    for cs, t in variants(b.ret):
        flag = [v for c, v in cs if c is param("ignore_masked")]
        masked = flag[0] if flag else None
        label = "contribution%s" % ("" if masked is None else
                                    " (ignoring masked plates)" if masked else " (all plates)")
        with ctx.guard("plates", label):
            L = plates(ctx, t, slf, masked, label, where)
            if L is not None and L not in done:
                done.add(L)
                with ctx.guard("terms", label):
                    element(ctx, L, slf, where)


def plates(ctx, t, slf, masked, label, where):
    fs = factors(t)
    sums = [x for x in fs if (x.op == "call" and x.a[0] in ("np.sum", "np.nansum")) or
            (x.op == "mcall" and x.a[0] == "sum")]
    if len(sums) != 1:
        raise Undecided("not a product with one sum: %s" % str(t)[:200])
    s = sums[0]
    arr = s.a[1][0] if s.op == "call" else s.a[1]
    rest = [x for x in fs if x is not s]
    kw = dict(s.a[2] if s.op == "call" else s.a[3])
    extra = (s.a[1][1:] if s.op == "call" else s.a[2]) or kw
    if extra:
        raise Undecided("sum over selected axes: %s" % str(s)[:100])
    arrays = []
    mask = mk("attr", slf, "mask")
    if arr.op == "call" and arr.a[0] == "np.where" and len(arr.a[1]) == 3:
        c, x, z = arr.a[1]
        fc = boolform(c)
        if atoms(fc) == [mask] and z is const(0):
            pos = evalf(fc, {mask: True}) and not evalf(fc, {mask: False})
            ctx.verdict("plates", label + ": active plates", pos,
                        "inactive plates are selected: %s" % str(c)[:80], where)
        elif atoms(fc) == [mask] and x is const(0):
            pos = evalf(fc, {mask: False}) and not evalf(fc, {mask: True})
            ctx.verdict("plates", label + ": active plates", pos,
                        "inactive plates are selected", where)
            x = z
        elif const(0) in (x, z) and all(
                (a.op == "attr" and a.a[0] is slf) or contains(a, lambda y: y is x or y is z)
                for a in atoms(fc)):
            # a condition over the node's own state that is not equivalent to the mask
            ctx.verdict("plates", label + ": active plates", False,
                        "the summed plates are selected by %s and not by the mask"
                        % str(c)[:120], where)
            x = x if z is const(0) else z
        else:
            raise Undecided("selection of plates by %s" % str(c)[:80])
        L = x
        arrays = [L, mask]
    elif arr.op == "bin" and arr.a[0] == "*" and mask in arr.a[1:]:
        L = arr.a[1] if arr.a[2] is mask else arr.a[2]
        arrays = [L, mask]
        ctx.ok("plates", label + ": active plates")
    else:
        L = arr
        arrays = [L]
        if masked is not False:
            ctx.verdict("plates", label + ": active plates", False,
                        "plates that are masked out contribute to the bound", where)
    bm = [x for x in rest if "broadcasting_multiplier" in head(x)]
    pm = [x for x in rest if x not in bm]
    if len(bm) == 1:
        x = bm[0]
        shapes = set(x.a[1] if x.op == "call" else x.a[2])
        want = {mk("attr", slf, "plates")} | {mk("call", "np.shape", (a,), ()) for a in arrays}
        got = set()
        for y in shapes:
            if y.op == "attr" and y.a[1] == "shape":
                y = mk("call", "np.shape", (y.a[0],), ())
            if y.op == "call" and y.a[0] == "np.shape" and y.a[1][0] is arr:
                got |= {mk("call", "np.shape", (a,), ()) for a in arrays}
                continue
            got.add(y)
        ok = got == want if got <= want or want <= got else None
        ctx.verdict("plates", label + ": broadcasting multiplier", ok,
                    "multiplier of %s, but the summed arrays are %s"
                    % ([str(g)[:60] for g in got], [str(g)[:60] for g in want]), where)
    elif not bm:
        ctx.verdict("plates", label + ": broadcasting multiplier", False,
                    "broadcast plates are not counted", where)
    mult = [x for x in pm if any(y.op in ("attr",) and y.a[1].endswith("plates_multiplier")
                                 for y in subterms(x))]
    ok = None
    if not mult:
        ok = False
    elif len(mult) == 1 and len(pm) == 1:
        m = mult[0]
        if m.op == "call" and m.a[0] in ("np.prod", "np.product", "math.prod") and \
                m.a[1][0].op == "attr":
            ok = True
        elif m.op == "attr":
            ok = None
    ctx.verdict("plates", label + ": plate multiplier", ok,
                "plate multiplier factor is %s" % [str(x)[:60] for x in pm], where)
    return L


def head(x):
    return str(x.a[0]) if x.op in ("call", "mcall") else ""


def split_fold(L):
    """L -> (init term, per-component term, domain); several shapes of loops."""
    if L.op == "fold" and L.a[0] == "+":
        return L.a[1], L.a[2], L.a[3]
    folds = [x for x in subterms(L) if x.op == "fold" and x.a[0] == "+"]
    outer = [x for x in folds if not any(x is not y and contains(y, lambda z: z is x)
                                         for y in folds)]
    if len(outer) == 1:
        f = outer[0]
        init = substitute(L, {f: f.a[1]})
        return init, f.a[2], f.a[3]
    raise Undecided("no single sum over the components in %s" % str(L)[:120])


REDUCE = {"np." + n for n in ("mean", "average", "median", "max", "min", "amax", "amin", "prod",
                             "nanmean", "nanmax", "nanmin", "ptp", "std", "var", "product")}


def sum_axes_ok(t):
    """Sums inside the component term: True if each runs over the variable's axes only."""
    res = True
    for s in subterms(t):
        if (s.op == "call" and s.a[0] in REDUCE) or \
                (s.op == "mcall" and "np." + s.a[0] in REDUCE and not s.a[2]):
            x = s.a[1][0] if s.op == "call" and s.a[1] else s.a[1]
            if isinstance(x, T) and contains(x, lambda y: y.op == "attr" and y.a[1] in
                                             ("u", "phi") or y.op == "param" and
                                             y.a[0] in ("u", "phi")):
                return False
        if s.op == "call" and s.a[0] == "np.sum":
            kw = dict(s.a[2])
            ax = kw.get("axis", s.a[1][1] if len(s.a[1]) > 1 else None)
            if ax is None or ax is NONE:
                return False
            r = ax
            if r.op == "call" and r.a[0] == "tuple":
                r = r.a[1][0]
            if r.op == "call" and r.a[0] == "range" and len(r.a[1]) == 2 and \
                    r.a[1][1] is const(0) and r.a[1][0].op == "un" and r.a[1][0].a[0] == "-":
                n = r.a[1][0].a[1]
                if n.op == "call" and n.a[0] == "len" and n.a[1] and n.a[1][0].op == "sub" \
                        and is_const(n.a[1][0].a[1]):
                    return False            # the axes of one fixed component
                if n.op == "sub" and n.a[0].op == "attr" and n.a[0].a[1] == "ndims" and \
                        is_const(n.a[1]):
                    return False
                if (n.op == "call" and n.a[0] == "len") or \
                        (n.op == "sub" and n.a[0].op == "attr" and n.a[0].a[1] == "ndims") or \
                        (n.op == "sub" and is_ix(n.a[1])):
                    continue
            res = None
    return res


def element(ctx, L, slf, where):
    init, expr, dom = split_fold(L)
    ctx.verdict("terms", "every component", covers(dom),
                "components are skipped: the sum runs over %s" % str(dom)[:120], where)
    ctx.verdict("terms", "summed axes", sum_axes_ok(expr),
                "the component term is not summed over exactly the variable's axes", where)
    S = Poly.sym
    for observed, mixed in ((True, False), (False, False), (True, True), (False, True)):
        def f(cases):
            e = Obs(names(slf), cases, observed, slf, mixed)
            return e(init), e(expr)
        for cases, r in run_cases(f):
            nm = "%s element%s" % ("observed" if observed else "latent",
                                   " of a partially observed node" if mixed else "")
            cn = case_name(cases)
            if isinstance(r, Undecided):
                ctx.und("terms", nm + cn, str(r))
                continue
            i, x = r
            sub, zero = {}, False
            k = True
            for c, v in cases.items():
                k = case_kind(c, names(slf))
                if k is None:
                    break
                kind, sym = k
                if kind == "one" and v:
                    sub[("s", sym)] = Poly.const(1)
                if (kind == "zero") == v and kind != "one":
                    sub[("s", sym)] = Poly()
            if k is None:
                ctx.und("terms", nm + cn, "condition not understood")
                continue
            T = S("annealing").inverse()
            if observed:
                wi, wx = S("g_p") + S("f"), S("phi_p") * S("u")
            else:
                wi = S("g_p") - T * S("g_q")
                wx = (S("phi_p") - T * S("phi_q")) * S("u")
            i, x, wi, wx = (y.subst(sub) for y in (i, x, wi, wx))
            ctx.verdict("terms", nm + " constant part", i == wi,
                        "%s computes %s, exact term is %s" % (cn, i, wi), where)
            alt = wx.subst({("s", "phi_p"): S("phi_p") + S("bias")})
            ctx.verdict("terms", nm + " component part", x == wx or x == alt,
                        "%s computes %s, exact term is %s" % (cn, x, wx), where)


def case_name(cases):
    return " [" + ", ".join("%s%s" % ("" if v else "not ", str(c)[:50])
                            for c, v in cases.items()) + "]" if cases else ""


def case_kind(c, nms):
    """(kind, symbol) of a test `X == 0`, `X != 0`, `annealing == 1` or a truth test of X."""
    def sym(t):
        if t.op == "sub" and is_ix(t.a[1]):
            t = t.a[0]
        for pred, nm in nms:
            if pred(t):
                return nm
        return None
    if sym(c) is not None:
        return "nonzero", sym(c)
    if c.op == "cmp" and c.a[0] in ("==", "!="):
        op, a, b = c.a
        for x, z in ((a, b), (b, a)):
            if is_const(z) and z.a[0] == 1 and op == "==" and \
                    {y.a[1] for y in subterms(x) if y.op == "attr"} == {"annealing"}:
                return "one", "annealing"
            if is_const(z) and sym(x) is not None:
                if z.a[0] == 1 and sym(x) == "annealing" and op == "==":
                    return "one", "annealing"
                if z.a[0] == 0:
                    return ("zero" if op == "==" else "nonzero"), sym(x)
    return None


# ------------------------------------------------------------------------ pointwise
def logpdf_dist(ctx, funcs):
    b = build(ctx.p, "ExponentialFamilyDistribution", "compute_logpdf",
              Policy(opaque_funcs=funcs))
    ctx.saw(b)
    where = ctx.p.find_method(ctx.p.get_class("ExponentialFamilyDistribution"),
                              "compute_logpdf").where
    nms = [(lambda t, n=n: t is param(n), n) for n in ("u", "phi", "g", "f")]
    check_pointwise(ctx, b.ret, nms, "compute_logpdf", where, ("g", "f"), "phi", "u")


def logpdf_node(ctx, funcs):
    b = build(ctx.p, "ExponentialFamily", "logpdf", Policy(opaque=OPQ, opaque_funcs=funcs))
    ctx.saw(b)
    slf = self_of("ExponentialFamily")
    where = ctx.p.find_method(ctx.p.get_class("ExponentialFamily"), "logpdf").where
    fx = mcall_is("compute_fixed_moments_and_f")
    nms = [(attr_is("phi", slf), "phi"), (attr_is("g", slf), "g"),
           (item_is(fx, 0), "u"), (item_is(fx, 1), "f")]
    check_pointwise(ctx, b.ret, nms, "logpdf", where, ("g", "f"), "phi", "u")


def check_pointwise(ctx, ret, nms, name, where, consts, ph, u):
    init, expr, dom = split_fold(ret)
    ctx.verdict("pointwise", name + ": every component", covers(dom),
                "components are skipped: %s" % str(dom)[:100], where)
    ctx.verdict("pointwise", name + ": summed axes", sum_axes_ok(expr),
                "not summed over exactly the variable's axes", where)
    S = Poly.sym

    def f(cases):
        e = Elem(nms, cases)
        return e(init), e(expr)
    for cases, r in run_cases(f):
        if isinstance(r, Undecided):
            ctx.und("pointwise", name + case_name(cases), str(r))
            continue
        sub = {}
        known = True
        for c, v in cases.items():
            if c.op == "cmp" and c.a[0] in ("!=", "==") and const(0) in c.a:
                if v == (c.a[0] == "=="):
                    sub[("s", u)] = Poly()
            else:
                known = False
        if not known:
            ctx.und("pointwise", name + case_name(cases), "condition not understood")
            continue
        i, x = (y.subst(sub) for y in r)
        wi = S(consts[0]) + S(consts[1])
        wx = (S(ph) * S(u)).subst(sub)
        ctx.verdict("pointwise", name + ": constant part", i == wi,
                    "computes %s instead of g + f" % i, where)
        ctx.verdict("pointwise", name + ": component part", x == wx,
                    "computes %s instead of phi*u" % x, where)


# ---------------------------------------------------------------------------- total
def total(ctx, funcs, m):
    b = build(ctx.p, "VB", m, Policy(opaque={"lower_bound_contribution"}, opaque_funcs=funcs))
    ctx.saw(b)
    slf = self_of("VB")
    model = mk("attr", slf, "model")
    where = ctx.p.find_method(ctx.p.get_class("VB"), m).where
    calls = [e for e in b.effects if e.kind == "call" and e.target is not None and
             isinstance(e.target, T) and e.target.op == "bound" and
             e.target.a[1] == "lower_bound_contribution"]
    if m == "compute_lowerbound_terms":
        vals = [x for x in subterms(b.ret) if x.op == "mcall" and
                x.a[0] == "lower_bound_contribution"]
        if b.ret.op != "dict" or len(b.ret.a) != 1 or b.ret.a[0].op != "each" or not vals:
            raise Undecided("not one mapping of nodes to terms: %s" % str(b.ret)[:120])
        d, kv, c = b.ret.a[0].a
        if kv.op == "tuple" and len(kv.a) == 2:
            key, val = kv.a
            ok = c is TRUE and val.op == "mcall" and val.a[1] is key
            ctx.verdict("total", m, ok, "the term stored for %s is %s" % (key, val), where)
        return
    if b.ret is None:
        raise Undecided("no result")
    r = b.ret
    good = None
    if r.op == "fold" and r.a[0] == "+":
        init, expr, dom = r.a[1], r.a[2], r.a[3]
        ok_dom = each_loop_covers(dom, model)
        good = (init is const(0) or init is const(0.0)) and ok_dom and \
            expr.op == "mcall" and expr.a[0] == "lower_bound_contribution"
        if good and not ranges_over(expr.a[1], model):
            good = None
        detail = "sum of %s over %s starting at %s" % (expr, dom, init)
        if not ok_dom and dom.op not in ("attr", "call", "list", "tuple", "sub"):
            good = None
    elif r.op == "call" and r.a[0] in ("sum", "np.sum") and r.a[1][0].op in ("list", "tuple") \
            and len(r.a[1][0].a) == 1 and r.a[1][0].a[0].op == "each":
        dom, expr, c = r.a[1][0].a[0].a
        good = each_loop_covers(dom, model) and c is TRUE and expr.op == "mcall" and \
            expr.a[0] == "lower_bound_contribution"
        detail = "sum of %s over %s if %s" % (expr, dom, c)
    else:
        lost = dropped_sum(r)
        if lost is None:
            raise Undecided("not a sum: %s" % str(r)[:160])
        good, detail = False, "the sum is not kept when %s" % lost
    ctx.verdict("total", "VB.%s: sum over the model" % m, good, detail, where)
    if m == "loglikelihood_lowerbound":
        recs = [e for e in b.effects if e.kind == "mutate" and e.target is not None and
                contains_attr(e.target, "l")]
        ok = None
        for e in recs:
            idx = e.extra[1] if isinstance(e.extra, tuple) and len(e.extra) > 1 else None
            if e.value.op == "mcall" and e.value.a[0] == "lower_bound_contribution":
                t = e.target
                node = t.a[1] if t.op == "sub" else None
                ok = node is e.value.a[1] and idx is mk("attr", slf, "iter") and \
                    not conds_of(e)
            elif contains(e.value, lambda x: x.op in ("carry", "fold", "loopout")):
                ok = False              # the running total, not this node's contribution
        ctx.verdict("total", "VB.%s: record per node" % m, ok,
                    "the contribution of a node is not recorded under that node at the "
                    "present iteration", where)


def dropped_sum(r):
    """A loop result one of whose branches forgets the total accumulated so far."""
    if r.op != "loopout":
        return None
    loopid, init, cur = r.a[:3]
    if not contains(cur, lambda x: x.op == "mcall" and x.a[0] == "lower_bound_contribution"):
        return None
    for conds, t in variants(cur):
        if not contains(t, lambda x: x.op == "carry"):
            return ", ".join("%s is %s" % (str(c)[:80], v) for c, v in conds[:1] + ()) \
                if conds else "the loop goes on"
    return None


def contains_attr(t, name):
    return any(x.op == "attr" and x.a[1] == name for x in subterms(t))


def ranges_over(t, model):
    return t.op == "sub" and t.a[0] is model or contains(t, lambda x: x is model)


# ------------------------------------------------------------------------- callable
def callable_rule(ctx, funcs):
    """The engine's keywords must be accepted by every implementation."""
    p = ctx.p
    kws = set()
    b = build(p, "VB", "compute_lowerbound", Policy(opaque={"lower_bound_contribution"},
                                                    opaque_funcs=funcs))
    for e in method_calls(b, "lower_bound_contribution"):
        kws |= set(e.extra[1])
    seen = set()
    for c in node_classes(p):
        m = p.find_method(c, "lower_bound_contribution")
        if m is None or m in seen:
            continue
        seen.add(m)
        a = m.node.args
        have = {x.arg for x in a.args + a.kwonlyargs}
        ok = a.kwarg is not None or kws <= have
        ctx.verdict("callable", m.where.split(":")[-1], ok,
                    "the engine passes %s, which this node does not accept" % sorted(kws - have),
                    m.where)

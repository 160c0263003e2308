"""P17: optimisation steps are monotone and rejected steps are undone.

Rules
 accept      a trial point of the gradient optimiser is accepted only when the
             bound evaluated at it is not NaN and has not decreased (beyond the
             stated tolerance) with respect to the last recorded bound;
 rollback    on every path that rejects a trial after the collapsed nodes were
             touched, the parameters the collapsed nodes had before are restored;
 trial       every trial point is (last accepted point) + scale * (search
             direction), the last accepted point moves only to an accepted trial,
             and the direction is the gradient plus a multiple of the previous
             direction;
 vector      the vector operations are componentwise y1 + scale*y2 and the full
             inner product; a gradient step is parameters + scale * natural
             gradient; parameters and gradients pair up with the nodes in order;
 pattern     the pattern search minimises the negative bound along p1 + a (p1-p0)
             and finally leaves the model at the best step found, with the
             collapsed nodes updated at that point.
"""
from vg import *
from forms import *
from common import *
from alg import *
from rules.p15 import STEP

OPQ = {STEP, "set_parameters", "get_parameters", "get_gradients", "add", "dot",
       "compute_lowerbound", "__getitem__"}
FRESH = {"get_parameters"}


def same_call(t, e):
    """Is term t the result of the call effect e (up to the call-site mark)?"""
    return t.op == "mcall" and t.a[0] == e.target.a[1] and t.a[1] is e.target.a[0] and \
        t.a[2] == tuple(e.extra[0]) and site(t) in (None, line_of(e)) and \
        {k: v for k, v in t.a[3] if k != "@"} == dict(e.extra[1])


def site(t):
    s = dict(t.a[3]).get("@")
    return None if s is None else s.a[0].rsplit("/", 1)[1]


def line_of(e):
    return "%s:%s" % (getattr(e.node, "lineno", 0), getattr(e.node, "col_offset", 0))


def run(ctx):
    p = ctx.p
    ctx.rule("accept", "accepted => bound not NaN and not decreased", floor=1)
    ctx.rule("rollback", "rejected => collapsed parameters restored", floor=1)
    ctx.rule("trial", "trial = last accepted point + scale * ascent direction", floor=1)
    ctx.rule("vector", "add/dot/gradient_step/set/get pair nodes, parameters and gradients",
             floor=2)
    ctx.rule("pattern", "final state of the pattern search is the best point found", floor=1)
    ctx.assumptions = ["setting the parameters of a node fully determines its state",
                       "the scale is positive"]
    funcs = opaque_utils(p)
    with ctx.guard("accept", "VB.optimize"):
        optimize(ctx, funcs)
    with ctx.guard("pattern", "VB.pattern_search"):
        pattern(ctx, funcs)
    vector(ctx, funcs)


def optimize(ctx, funcs):
    p = ctx.p
    b = build(p, "VB", "optimize", Policy(opaque=OPQ, opaque_funcs=funcs, fresh=FRESH))
    ctx.saw(b)
    slf = self_of("VB")
    con = "VB.optimize"
    A = lambda n: mk("attr", slf, n)
    lb = [e for e in b.effects if e.kind == "call" and e.target.op == "bound" and
          e.target.a[1] in ("compute_lowerbound", "loglikelihood_lowerbound") and
          e.target.a[0] is slf]
    nodes = mk("param", "*nodes")
    setp = [e for e in method_calls(b, "set_parameters", slf)]
    trial = [e for e in setp if any(is_star_of(x, nodes) for x in e.extra[0])]
    rest = [e for e in setp if e not in trial]
    if not lb:
        ctx.bad("accept", con, "trial points are accepted without evaluating the bound", "")
        return
    if not trial:
        ctx.und("accept", con, "no trial point found")
        return
    L = mk("mcall", lb[0].target.a[1], slf, lb[0].extra[0], ())
    inner = [l for l in b.loops if l.begin <= lb[0].n < l.end]
    inner = max(inner, key=lambda l: l.depth) if inner else None
    if inner is None or not (inner.begin <= trial[0].n < inner.end):
        ctx.und("accept", con, "no retry loop around the trial")
        return
    # when is the retry loop left?
    acc = []
    brk = [e for e in b.effects if e.kind in ("break", "return") and inner.begin <= e.n < inner.end
           and len(loops_of(e)) == inner.depth + 1]
    for e in brk:
        acc.append(own_form(e.guards, inner))
    test = inner.test
    if test is not None and truth(test) is not True:
        f = boolform(test)
        table = {}
        ok = True
        for a in atoms(f):
            if a.op == "carry" and a.a[1] in inner.carried:
                table[a] = boolform(inner.carried[a.a[1]][1])
            else:
                ok = False
        if ok:
            acc.append(AND(own_form(inner.guards, inner), NOT(subst_form(f, table))))
        else:
            ctx.und("accept", con, "loop condition %s" % test)
            return
    if not acc:
        ctx.und("accept", con, "the retry loop has no recognised exit")
        return
    accf = OR(*acc)
    # NaN test and decrease test
    prev = mk("sub", A("L"), mk("bin", "-", A("iter"), const(1)))
    ats = atoms(accf)
    isnan = [a for a in ats if a.op == "call" and a.a[0] in ("np.isnan", "math.isnan")
             and a.a[1] and a.a[1][0] is L]
    notself = [a for a in ats if a.op == "cmp" and a.a[0] in ("==", "!=") and a.a[1] is L
               and a.a[2] is L]
    fin = [a for a in ats if a.op == "call" and a.a[0] in ("np.isfinite", "math.isfinite") and
           a.a[1] and a.a[1][0] is L]
    where = lb[0].where
    try:
        if isnan:
            r = implies(accf, NOT(ATOM(isnan[0])))
        elif fin:
            r = implies(accf, ATOM(fin[0]))
        elif notself:
            r = None
        else:
            lt = [a for a in ats if a.op == "cmp" and a.a[0] in ("<", "<=") and L in a.a[1:]]
            r = False
            for a in lt:
                if a.a[2] is L and implies(accf, ATOM(a)):
                    r = True
        ctx.verdict("accept", con + ":nan", r, "a NaN bound can be accepted (accepted under %s)"
                    % showform(accf), where)
        lt = [a for a in ats if a.op == "cmp" and a.a[0] in ("<", "<=") and
              contains(a, lambda x: x is L)]
        dec = None
        why = showform(accf)
        if not lt:
            dec = False
            why = "the bound at the trial point is not compared with the recorded one: " + why
        for a in lt:
            lo, hi = a.a[1], a.a[2]
            tolat = [ATOM(x) for x in ats if x.op == "call" and x.a[0] in
                     ("np.allclose", "np.isclose", "math.isclose") and
                     L in x.a[1] and tol_ok(x)]
            first = [x for x in ats if x.op == "cmp" and A("iter") in x.a[1:] and
                     any(is_const(y) for y in x.a[1:])]
            started = []
            for x in first:
                if x.a[0] == "<" and x.a[2] is A("iter") and x.a[1].a[0] == 0:
                    started.append(ATOM(x))
                elif x.a[0] in ("!=",):
                    started.append(ATOM(x))
                elif x.a[0] == "==" and 0 in [y.a[0] for y in x.a[1:] if is_const(y)]:
                    started.append(NOT(ATOM(x)))
                elif x.a[0] == "<=" and x.a[2] is A("iter") and x.a[1].a[0] == 1:
                    started.append(ATOM(x))
            if any(x is A("iter") for x in ats):
                started.append(ATOM(A("iter")))
            if lo is L and hi is prev:
                decreased = ATOM(a)
            elif lo is prev and hi is L:
                decreased = NOT(ATOM(a))
            elif {lo, hi} & {L} and any(x.op == "sub" and x.a[0] is A("L") for x in (lo, hi)):
                dec = False
                why = "the bound is compared with %s" % (hi if lo is L else lo)
                break
            else:
                why = "comparison %s" % a
                continue
            g = AND(*([decreased] + started + [NOT(x) for x in tolat]))
            dec = unsat(AND(accf, g))
            if dec is False:
                why = "a decreased bound is accepted: " + showform(accf)
            elif dec and not started:
                # the first iteration has nothing to compare with
                pass
            break
        ctx.verdict("accept", con + ":decrease", dec, why, where)
    except ValueError as err:
        ctx.und("accept", con, str(err))
    # the bound is evaluated at the trial
    coll_up = [e for e in b.effects if e.kind == "call" and e.target.op == "bound" and
               e.target.a[1] == "update" and inner.begin <= e.n < inner.end]
    after = trial[-1].n < lb[0].n and all(e.n < lb[0].n for e in coll_up)
    ctx.verdict("accept", con + ":evaluated-at-trial", bool(after),
                "the bound is evaluated before the trial point (or its collapsed nodes) is set",
                where)
    rollback(ctx, b, slf, con, inner, accf, coll_up, rest, lb)
    trials(ctx, b, slf, con, inner, trial, nodes)


def tol_ok(x):
    kw = dict(x.a[2])
    for k in ("rtol", "rel_tol"):
        if k in kw:
            return is_const(kw[k]) and isinstance(kw[k].a[0], (int, float)) and kw[k].a[0] <= 1e-4
    return True


def is_star_of(t, v):
    return t.op == "star" and t.a[0] is v


def own_form(guards, loop):
    """Boolean guards inside the loop body, exceptional guards as atoms."""
    fs = []
    seen_loop = False
    for g in guards:
        if g[0] == "loop":
            if g[2] == loop.depth:
                seen_loop = True
                fs = []
            continue
        if len(g) == 2 and isinstance(g[1], bool):
            if loop.test is not None and g[0] is loop.test:
                continue
            f = boolform(g[0])
            fs.append(f if g[1] else NOT(f))
        elif g[0] == "exc":
            fs.append(ATOM(g[1]))
    return AND(*fs)


def subst_form(f, table):
    if f[0] == "atom":
        return table.get(f[1], f)
    if f[0] == "not":
        return NOT(subst_form(f[1], table))
    if f[0] in ("and", "or"):
        return (f[0], tuple(subst_form(x, table) for x in f[1]))
    return f


def showform(f):
    if f[0] == "atom":
        return str(f[1])[:120]
    if f[0] == "not":
        return "not(%s)" % showform(f[1])
    if f[0] in ("and", "or"):
        return "(" + (" %s " % f[0]).join(showform(x) for x in f[1]) + ")"
    return str(f[1])


def rollback(ctx, b, slf, con, inner, accf, coll_up, rest, lb):
    if not coll_up:
        ctx.und("rollback", con, "no collapsed updates")
        return
    first = coll_up[0]
    # collapsed parameters taken before the update
    coll = loops_of(first)[-1][1]
    good, stale = [], []
    gets = [e for e in method_calls(b, "get_parameters", slf)
            if any(is_star_of(x, coll) for x in e.extra[0])]
    for e in rest:
        if e.n < first.n or not any(is_star_of(x, coll) for x in e.extra[0]):
            continue
        v = call_arg(e, 0, "x")
        src = [g for g in gets if same_call(v, g)]
        if src and all(g.n < first.n for g in src) and \
                all(inner.begin <= g.n < inner.end for g in src):
            good.append(e)
        elif src:
            stale.append(e)
    if stale:
        ctx.bad("rollback", con + ":snapshot", "the collapsed parameters are restored to a "
                "snapshot that was not taken just before the trial", stale[0].where)
    # rejection because of the bound
    bound_rej = [e for e in good if not any(g[0] == "exc" for g in e.guards)]
    exc_rej = [e for e in good if any(g[0] == "exc" for g in e.guards)]
    try:
        rej = NOT(accf)
        cover = OR(*[own_form(e.guards, inner) for e in bound_rej]) if bound_rej else ("c", False)
        # exceptional paths are handled separately
        excs = [a for a in atoms(rej) if a.op == "exc"]
        if excs:
            rej = AND(rej, *[NOT(ATOM(a)) for a in excs])
        r = implies(rej, cover)
    except ValueError:
        r = None
    ctx.verdict("rollback", con + ":bound", r, "a rejected trial does not restore the collapsed "
                "nodes", lb[0].where)
    handlers = [l for l in b.effects if any(g[0] == "exc" for g in l.guards)]
    # an exception while updating the collapsed nodes
    if any(g[0] == "trybody" for g in first.guards):
        tid = [g[1] for g in first.guards if g[0] == "trybody"][-1]
        rest_exc = [e for e in exc_rej if any(g[0] == "exc" and g[1].a[0] is tid
                                              for g in e.guards)]
        ctx.verdict("rollback", con + ":failure", bool(rest_exc), "a failing update of a "
                    "collapsed node leaves the collapsed nodes modified", first.where)
        for e in rest_exc:
            bg = [c for c in own_atoms(e, inner) if c.op != "exc"]
            ctx.verdict("rollback", con + ":failure-always", not bg, "restored only under %s"
                        % (bg,), e.where)


def own_atoms(e, inner):
    return atoms(own_form(e.guards, inner))


def trials(ctx, b, slf, con, inner, trial, nodes):
    outer = [l for l in b.loops if l.depth == inner.depth - 1 and l.begin <= trial[0].n < l.end]
    e = trial[0]
    x = call_arg(e, 0, "x")
    base = x
    if not (isinstance(x, T) and x.op == "mcall" and x.a[0] == "add" and x.a[1] is slf):
        ctx.und("trial", con, "trial point is %s" % str(x)[:100])
        return
    P, S, sc = mcall_arg(x, 0, "x1"), mcall_arg(x, 1, "x2"), mcall_arg(x, 2, "scale", const(1))

    def is_point(t):
        return t.op == "carry" and t.a[0].op == "loopid" and contains(
            t.a[2], lambda y: y.op == "mcall" and y.a[0] == "get_parameters")
    if not is_point(P) and is_point(S) and sc is const(1):
        P, S = S, P
    if P.op == "carry":
        lp = [l for l in b.loops if l.loopid is P.a[0] and P.a[1] in l.carried]
        name = P.a[1]
        init, cur = lp[0].carried[name] if lp else (None, None)
        own = bool(lp) and lp[0] is not inner
        ctx.verdict("trial", con + ":start", init is not None and init.op == "mcall" and
                    init.a[0] == "get_parameters" or None, "starting point %s" % (init,), e.where)
        ctx.verdict("trial", con + ":base", own, "the last accepted point is moved inside the "
                    "retry loop: rejected trials are not undone", e.where)
        if own and cur is not None:
            moved = [moves_to(t, x, P, b, slf, inner, nodes) for t, _ in branches(cur)]
            ctx.verdict("trial", con + ":move", False if False in moved else None if None in moved
                        else True,
                        "after acceptance the current point becomes %s, not the accepted trial"
                        % str(cur)[:160], e.where)
    else:
        gp = P.op == "mcall" and P.a[0] == "get_parameters"
        gets = [g for g in method_calls(b, "get_parameters", slf)
                if any(is_star_of(y, nodes) for y in g.extra[0])]
        own = [g for g in gets if gp and same_call(P, g)]
        if own and len(trial) == 1 and all(inner.begin <= g.n < inner.end for g in own):
            ctx.bad("trial", con + ":base", "the trial starts from the parameters the nodes have "
                    "inside the retry loop: a rejected trial is not undone", e.where)
            return
        ok = gp and all(not (inner.begin <= g.n < inner.end) for g in own or gets)
        ctx.verdict("trial", con + ":base", True if ok and not outer else
                    False if gp and outer and not any(outer[0].begin <= g.n for g in gets) else
                    None if not gp else ok or None,
                    "trial is not based on the last accepted point: %s" % str(P)[:120], e.where)
    # direction
    sneg = sc.op == "un" and sc.a[0] == "-" or (is_const(sc) and sc.a[0] <= 0)
    ctx.verdict("trial", con + ":ascent", not sneg, "the step has scale %s" % (sc,), e.where)
    grads = set()
    for l in ([inner] + outer):
        for k, (a, z) in l.carried.items():
            if S.op == "carry" and k == S.a[1]:
                grads |= {t for t, _ in branches(a)} | {t for t, _ in branches(z)}
    if not grads:
        grads = {t for t, _ in branches(S)}
    okd = True
    why = ""
    for t in grads:
        while t.op == "loopout":
            t = t.a[2]
        if t.op == "carry" or t.op == "undef":
            continue
        c = grad_kind(t)
        if c == "grad":
            continue
        if t.op == "mcall" and t.a[0] == "add":
            a0, a1 = mcall_arg(t, 0, "x1"), mcall_arg(t, 1, "x2")
            if all(grad_kind(y) for y, _ in branches(a0)):
                continue
            if okd:
                okd, why = False, "direction %s" % str(t)[:200]
            continue
        okd, why = (None if okd else okd), "direction %s" % str(t)[:200]
    ctx.verdict("trial", con + ":direction", okd, why, e.where)
    # the direction of the natural-gradient mode is the natural gradient
    modes(ctx, b, slf, con, grads, e)


def moves_to(t, x, P, b, slf, inner, nodes):
    """After leaving the retry loop the current point t is the accepted trial x."""
    if t is x or (t.op == "loopout" and t.a[2] is x):
        return True
    if t is P:
        return False                     # stays although the trial was accepted
    if t.op == "mcall" and t.a[0] == "get_parameters":
        own = [g for g in method_calls(b, "get_parameters", slf) if same_call(t, g)]
        return True if own and all(g.n >= inner.end for g in own) and \
            any(is_star_of(y, nodes) for y in t.a[2]) else None
    return None if t.op in ("loopout", "phi", "carry") else False


def grad_kind(t):
    leaves = [y for y, _ in branches(t)]
    for y in leaves:
        z = y.a[0] if y.op == "sub" else y
        if not (z.op == "mcall" and z.a[0] == "get_gradients" or z.op == "phi" and grad_kind(z)):
            return None
    return "grad"


def modes(ctx, b, slf, con, grads, e):
    """Conjugate direction: inner products <euclidean, search gradient>."""
    R = param("riemannian")
    for t in grads:
        for y, cond in branches(t):
            z = y
            if z.op == "mcall" and z.a[0] == "add":
                z = mcall_arg(z, 0, "x1")
            for w, c2 in branches(z):
                cc = dict(cond + c2)
                if R not in cc:
                    # conjunctions that contain riemannian
                    pos = [c for c, pol in cc.items() if pol and c.op == "and" and R in c.a]
                    if not pos:
                        continue
                    pol = True
                else:
                    pol = cc[R]
                if w.op == "sub" and is_const(w.a[1]) and w.a[0].op == "mcall" and \
                        w.a[0].a[0] == "get_gradients":
                    want = 0 if pol else 1
                    ctx.verdict("trial", con + ":natural=%s" % pol, w.a[1].a[0] == want,
                                "with riemannian=%s the search follows gradient number %s"
                                % (pol, w.a[1].a[0]), e.where)
    # beta
    dots = method_calls(b, "dot", slf)
    for d in dots:
        a0, a1 = d.extra[0][0], d.extra[0][1]
        n = None
        for y, _ in branches(a0):
            pass
        ctx.verdict("trial", con + ":beta", bool(grad_kind(a0) and grad_kind(a1)) or None,
                    "conjugacy uses %s" % str(d.extra[0])[:160], d.where)


def vector(ctx, funcs):
    p = ctx.p
    slf = self_of("VB")
    # add
    with ctx.guard("vector", "VB.add"):
        b = build(p, "VB", "add", Policy(opaque_funcs=funcs))
        ctx.saw(b)
        rets = b.ret
        leaf = [x for x in subterms(rets) if x.op == "each" and
                not contains(x.a[1], lambda y: y.op == "each")]
        if not leaf:
            ctx.und("vector", "VB.add", str(rets)[:100])
        else:
            e = leaf[0]
            x1, x2, sc = param("x1"), param("x2"), param("scale")

            def role(t, conv):
                if t.op == "sub" and t.a[0].op == "sub":
                    r = t.a[0].a[0]
                    if r is x1:
                        return Poly.sym("a")
                    if r is x2:
                        return Poly.sym("b")
                if t is sc:
                    return Poly.sym("c")
                return None
            v = Conv(role)(e.a[1])
            want = Poly.sym("a") + Poly.sym("c") * Poly.sym("b")
            known = not any(a[0] == "t" for a in v.deep_atoms())
            ctx.verdict("vector", "VB.add", True if v == want else False if known else None,
                        "componentwise result is %s" % v)
            aligned = all(contains(e.a[0], lambda y, r=r: y is r) for r in (x1, x2)) or None
            ctx.verdict("vector", "VB.add:all", (e.a[2] is TRUE) and aligned,
                        "components are filtered by %s" % (e.a[2],))
    with ctx.guard("vector", "VB.dot"):
        b = build(p, "VB", "dot", Policy(opaque_funcs=funcs))
        ctx.saw(b)
        v = b.ret
        fold = [x for x in subterms(v) if x.op == "fold"]
        carry = [x for x in subterms(v) if x.op == "carry"]
        r = None
        if fold:
            r = all(x.a[0] == "+" for x in fold)
            z = fold[-1].a[2]
            has = [contains(v, lambda y, q=q: y is param(q)) for q in ("x1", "x2")]
            r = r and all(has)
            if v.op == "loopout":
                # outer accumulation must continue from the carried value
                r = r and any(x.op == "fold" and x.a[1].op == "carry" for x in fold)
        elif v.op == "call" and v.a[0] in ("sum", "np.sum"):
            r = all(contains(v, lambda y, q=q: y is param(q)) for q in ("x1", "x2")) or False
        elif v.op == "loopout":
            r = False if not carry else None
        ctx.verdict("vector", "VB.dot", r, "inner product is %s" % str(v)[:200])
    with ctx.guard("vector", "VB.gradient_step"):
        b = build(p, "VB", "gradient_step", Policy(opaque=OPQ, opaque_funcs=funcs))
        ctx.saw(b)
        nodes = mk("param", "*nodes")
        st = method_calls(b, "set_parameters", slf)
        r, why = False, "parameters are never set"
        for e in st:
            x = call_arg(e, 0, "x")
            r, why = None, "new parameters %s" % str(x)[:160]
            if x.op == "mcall" and x.a[0] == "add":
                a0, a1 = mcall_arg(x, 0, "x1"), mcall_arg(x, 1, "x2")
                sc = mcall_arg(x, 2, "scale", const(1))
                ok0 = a0.op == "mcall" and a0.a[0] == "get_parameters"
                ok1 = a1.op == "mcall" and a1.a[0] == "get_gradients"
                eu = dict(a1.a[3]).get("euclidian") if ok1 else None
                r = ok0 and ok1 and (eu is None or eu is FALSE) and sc is param("scale")
            if conds_of(e):
                r = False if r is not None else None
                why = "only under %s" % str(conds_of(e))[:100]
        ctx.verdict("vector", "VB.gradient_step", r, why, st[0].where if st else "")
    for name in ("get_parameters", "set_parameters", "get_gradients"):
        con = "VB." + name
        with ctx.guard("vector", con):
            b = build(p, "VB", name, Policy(opaque_funcs=funcs))
            ctx.saw(b)
            nodes = mk("param", "*nodes")
            if name == "set_parameters":
                cs = [e for e in method_calls(b, "set_parameters")
                      if e.target.a[0] is not slf]
                if not cs:
                    ctx.bad("vector", con, "parameters are not set", "")
                for e in cs:
                    ix = [x for x in subterms(e.target.a[0]) if x.op == "ix"]
                    v = call_arg(e, 0, "x")
                    jx = [x for x in subterms(v) if x.op == "ix"]
                    r = contains(e.target.a[0], lambda y: y is nodes) and \
                        contains(v, lambda y: y is param("x"))
                    ctx.verdict("vector", con, bool(r and ix == jx and not conds_of(e)),
                                "node %s gets %s" % (e.target.a[0], v), e.where)
                continue
            m = "get_parameters" if name == "get_parameters" else "get_riemannian_gradient"
            calls = [e for e in method_calls(b, m) if e.target.a[0] is not slf]
            ctx.verdict("vector", con, bool(calls) and all(
                not conds_of(e) for e in calls),
                "%s of every node" % m)
            es = [x for x in subterms(b.ret) if x.op == "each"]
            r = bool(es) and all(x.a[2] is TRUE for x in es)
            for x in es:
                d = x.a[0]
                if not each_or_zip(d, nodes):
                    r = None if contains(d, lambda y: y is nodes) and d.op != "call" else r and None
                if d.op == "call" and d.a[0] in ("reversed", "set", "sorted"):
                    r = False
            ctx.verdict("vector", con + ":order", r, "results are collected as %s"
                        % str(b.ret)[:160])
            if name == "get_gradients":
                for t, cond in branches(b.ret):
                    if t.op == "tuple" and len(t.a) == 2:
                        eu = [contains(y, lambda z: z.op == "mcall" and z.a[0] == "get_gradient")
                              for y in t.a]
                        ctx.verdict("vector", con + ":pair", eu == [False, True],
                                    "(natural, Euclidean) pair is %s" % str(t)[:160])
                g = [e for e in method_calls(b, "get_gradient")]
                for e in g:
                    v = call_arg(e, 0, "rg")
                    ok = v is not None and contains(v, lambda y: y.op == "mcall" and
                                                    y.a[0] == "get_riemannian_gradient" and
                                                    y.a[1] is e.target.a[0])
                    ctx.verdict("vector", con + ":euclidean", ok or (
                        None if v is not None else False),
                        "the Euclidean gradient of %s is computed from %s"
                        % (e.target.a[0], str(v)[:120]), e.where)


def each_or_zip(d, seq):
    if d.op == "call" and d.a[0] == "zip":
        return any(each_or_zip(x, seq) for x in d.a[1])
    return each_loop_covers(d, seq)


def pattern(ctx, funcs):
    p = ctx.p
    b = build(p, "VB", "pattern_search", Policy(opaque=OPQ, opaque_funcs=funcs, fresh=FRESH))
    ctx.saw(b)
    slf = self_of("VB")
    con = "VB.pattern_search"
    mn = [e for e in b.effects if e.kind == "call" and e.target.op == "name" and
          e.target.a[0].startswith("scipy.optimize")]
    if not mn:
        ctx.und("pattern", con, "no minimiser call")
        return
    m = mn[0]
    res = mk("attr", mk("call", m.target.a[0], m.extra[0], tuple(m.extra[1].items())), "x")
    later = [e for e in b.effects if e.n > m.n]
    sets = [e for e in later if e.kind == "call" and e.target.op == "bound" and
            e.target.a[1] == "set_parameters" and e.target.a[0] is slf]
    step = method_calls(b, STEP, slf)
    if not sets:
        ctx.bad("pattern", con + ":final", "the model is left at the last point tried by the "
                "line search", m.where)
        return
    e = sets[-1]
    x = call_arg(e, 0, "x")
    uses_best = contains(x, lambda y: y.op == "attr" and y.a[1] == "x" and
                         y.a[0].op in ("call", "mcall")) 
    ctx.verdict("pattern", con + ":final", bool(uses_best) and not conds_of(e),
                "final parameters %s" % str(x)[:200], e.where)
    coll = param("collapsed")
    ups = [u for u in later if u.kind == "call" and u.target.op == "bound" and
           u.target.a[1] == "update" and u.n > e.n and
           contains(u.target.a[0], lambda y: y is coll)]
    ctx.verdict("pattern", con + ":collapsed", bool(ups) and all(not conds_of(u) for u in ups),
                "collapsed nodes are not updated at the final point", e.where)
    if step:
        ctx.verdict("pattern", con + ":order", all(u.n < step[0].n for u in ups + [e]),
                    "the end-of-iteration step precedes the final state", step[0].where)
    # the cost function
    clos = [a for a in m.extra[0] if a.op == "closure"]
    if not clos:
        ctx.und("pattern", con + ":cost", "cost function not found")
        return
    n0 = len(b.effects)
    alpha = param("alpha!")
    b.frames.append(b.closures[clos[0]].frame)
    try:
        v = b.call_closure(clos[0], (alpha,))
    finally:
        b.frames.pop()
    v = b.freeze(v)
    leaves = [t for t, _ in branches(v)]
    want = mk("un", "-", mk("mcall", "compute_lowerbound", slf, (), ()))
    ok = any(t is want for t in leaves)
    neg = any(t is want.a[1] for t in leaves)
    ctx.verdict("pattern", con + ":cost", True if ok and not neg else False if neg else None,
                "the minimised cost is %s" % str(v)[:200], m.where)
    eff = b.effects[n0:]
    cs = [c for c in eff if c.kind == "call" and c.target.op == "bound" and
          c.target.a[1] == "set_parameters" and c.target.a[0] is slf]
    if cs:
        x2 = call_arg(cs[0], 0, "x")
        # same line as the final assignment
        same = substitute(x2, {alpha: const(0)}) is not None
        line_final = None
        bests = [y for y in subterms(x) if y.op == "attr" and y.a[1] == "x" and
                 y.a[0].op in ("call", "mcall")]
        if bests:
            line_final = substitute(x2, {alpha: bests[0]}) is x
        ctx.verdict("pattern", con + ":same-line", line_final, "the final point %s is not on the "
                    "searched line %s" % (str(x)[:120], str(x2)[:120]), e.where)
        lbs = [c for c in eff if c.kind == "call" and c.target.op == "bound" and
               c.target.a[1] == "compute_lowerbound"]
        cu = [c for c in eff if c.kind == "call" and c.target.op == "bound" and
              c.target.a[1] == "update"]
        ctx.verdict("pattern", con + ":cost-state", bool(lbs) and bool(cu) and
                    all(c.n < lbs[-1].n for c in cs + cu),
                    "the cost is evaluated before the collapsed nodes are updated", m.where)
    else:
        ctx.bad("pattern", con + ":cost-state", "the cost function does not set the parameters",
                m.where)
    # direction of the search: p1 - p0 with p1 taken after p0
    if cs and x2.op == "mcall" and x2.a[0] == "add":
        D = mcall_arg(x2, 1, "x2")
        if D.op == "mcall" and D.a[0] == "add":
            X, Y = mcall_arg(D, 0, "x1"), mcall_arg(D, 1, "x2")
            sc = mcall_arg(D, 2, "scale", const(1))
            minus = sc is const(-1) or (sc.op == "un" and sc.a[0] == "-" and sc.a[1] is const(1))
            pts = [t.op == "mcall" and t.a[0] == "get_parameters" for t in (X, Y)]
            ctx.verdict("pattern", con + ":difference", minus and X is not Y if all(pts) and
                        is_const(sc) or minus else None,
                        "the search direction is %s" % str(D)[:160], m.where)
    gets = [g for g in method_calls(b, "get_parameters", slf) if g.n < m.n]
    ups = [u for u in b.effects if u.kind == "call" and u.target.op == "bound" and
           u.target.a[1] == "update" and u.n < m.n]
    nodes = mk("param", "*nodes")
    if len(gets) >= 2:
        between = [u for u in ups if gets[0].n < u.n < gets[1].n and
                   contains(u.target.a[0], lambda y: y is nodes)]
        ctx.verdict("pattern", con + ":direction", bool(between), "the two reference points are "
                    "taken without an update in between", gets[1].where)

"""P16: when the engine reports convergence.

Rules
 criterion   at the end of a step the converged flag equals
             checks enabled  AND  annealing not changed  AND  not the first
             iteration  AND  (new - old) / (mean magnitude) < tolerance;
 tolerance   the tolerance is the caller's value, or the engine's default when
             none is given;
 reset       a change of annealing clears the flag, marks the change, and sets
             the new temperature on every node of the model; the mark is cleared
             at the end of every step, after it was consulted;
 report      the step returns, and `has_converged` reports, exactly that flag.
"""
from vg import *
from forms import *
from fold import *
from common import *
from alg import *
from rules.p15 import STEP, strip_updates


def run(ctx):
    p = ctx.p
    ctx.rule("criterion", "converged <=> checks on, annealing unchanged, iter > 0, relative "
             "increase of the bound < tol", floor=1)
    ctx.rule("tolerance", "tol argument, else the engine's default", floor=1)
    ctx.rule("reset", "annealing change: every node set, flag cleared, change remembered for "
             "exactly one step", floor=2)
    ctx.rule("report", "the flag is what the step returns and has_converged reports", floor=1)
    ctx.assumptions = ["bounds are real numbers with a non-zero mean magnitude"]
    funcs = opaque_utils(p)
    with ctx.guard("criterion", "VB." + STEP):
        criterion(ctx, funcs)
    with ctx.guard("reset", "VB.set_annealing"):
        reset(ctx, funcs)
    with ctx.guard("report", "VB.has_converged"):
        b = build(p, "VB", "has_converged", Policy(opaque_funcs=funcs))
        ctx.saw(b)
        v = strip_bool(b.ret) if b.ret is not None else NONE
        ctx.verdict("report", "VB.has_converged", v is mk("attr", self_of("VB"), "converged"),
                    "reports %s" % v)


def strip_bool(t):
    while t.op == "call" and t.a[0] in ("bool", "np.bool_", "np.asarray") and t.a[1]:
        t = t.a[1][0]
    return t


def criterion(ctx, funcs):
    """The algebraic rule first; constant propagation over orderings for what it leaves open."""
    n = len(ctx.items)
    try:
        algebraic(ctx, funcs)
    except Exception:
        if not any(i["status"] == "violation" for i in ctx.items[n:]):
            del ctx.items[n:]
            ctx.und("criterion", "VB." + STEP, "algebraic rule")
    new = ctx.items[n:]
    if any(i["status"] == "violation" for i in new):
        return
    if any(i["status"] == "undecided" and i["rule"] in ("criterion", "tolerance") for i in new) or \
            not any(i["rule"] == "tolerance" for i in new):
        grid(ctx, funcs)


def grid(ctx, funcs):
    b = build(ctx.p, "VB", STEP, Policy(opaque={"save", "loglikelihood_lowerbound",
                                               "_append_iterations"}, opaque_funcs=funcs))
    slf = self_of("VB")
    con = "VB." + STEP
    A = lambda n: mk("attr", slf, n)
    v = b.store.get((slf, "converged"))
    nan = float("nan")
    it = A("iter")
    cells = 0
    for n in (0, 1, 4):
        for chk in (False, True):
            for chg in (False, True):
                for old, new in ((-2.0, -1.0), (-1.0, -1.0), (-1.0, -2.0), (-1.0, -0.98),
                                 (3.0, 3.03), (nan, -1.0), (-1.0, nan), (-1.0, -1.0 + 1e-6)):
                    for targ in (None, 0, 0.015, 0.1):
                        for deft, flag in ((1e-5, True), (0.5, False)):
                            hist = ([-9.0, 7.0, -3.0][:max(n - 1, 0)] + [old])[-n:] if n else []
                            hist = hist + [new] + [nan] * 5

                            def leaf(t):
                                if t is A("converged"):
                                    return flag
                                if t.op in ("attr", "update", "phi") and strip_updates(t) is A("L"):
                                    return hist
                                if t is it:
                                    return n
                                if t is A("annealing_changed"):
                                    return chg
                                if t.op == "attr" and t.a[0] is slf and \
                                        t.a[1].endswith("ignore_bound_checks"):
                                    return chk
                                if t is A("tol"):
                                    return deft
                                if t is param("tol"):
                                    return targ
                                if t.op == "mcall" and t.a[0] == "loglikelihood_lowerbound":
                                    return new
                                if t.op == "sub" and t.a[1].op != "slice" and strip_updates(t.a[0]) is A("L"):
                                    k = fold(t.a[1], leaf)
                                    if k == n:
                                        return new
                                    if k == n - 1 and n > 0:
                                        return old
                                return Unknown
                            tol = deft if targ is None else targ
                            d = 0.5 * (abs(old) + abs(new))
                            want = not chk and not chg and n > 0 and (new - old) / d < tol
                            try:
                                got = bool(fold(v, leaf))
                            except Unknown as e:
                                ctx.und("criterion", con, "constant propagation: %s" % e)
                                ctx.und("tolerance", con, "constant propagation: %s" % e)
                                return
                            if got != want:
                                ctx.bad("criterion", con, "with iteration %d, previous bound %s, "
                                        "new bound %s, tol argument %s, default tol %s, checks "
                                        "ignored %s, annealing changed %s the flag is %s" % (
                                            n, old, new, targ, deft, chk, chg, got), "")
                                return
                            cells += 1
    ctx.ok("criterion", con, "%d operand classes" % cells)
    ctx.ok("tolerance", con, "%d operand classes" % cells)


def algebraic(ctx, funcs):
    p = ctx.p
    b = build(p, "VB", STEP, Policy(opaque={"save", "loglikelihood_lowerbound",
                                           "_append_iterations"}, opaque_funcs=funcs))
    ctx.saw(b)
    slf = self_of("VB")
    con = "VB." + STEP
    A = lambda n: mk("attr", slf, n)
    v = b.store.get((slf, "converged"))
    if v is None:
        ctx.bad("criterion", con, "the converged flag is not computed", "")
        return
    st = stores(b, slf, "converged")
    where = st[-1].where if st else ""
    f = boolform(v)
    it = A("iter")

    def arr(t):
        return strip_updates(t) is A("L")
    newbound = mk("mcall", "loglikelihood_lowerbound", slf, (), ())

    def leaf(t, conv):
        if t is newbound:
            return Poly.sym("new")
        if t.op == "sub" and arr(t.a[0]):
            i = Conv()(t.a[1]) - Conv()(it)
            if i.is_const() and i.value() is not None:
                k = i.value() if i.d else 0
                if k == -1:
                    return Poly.sym("old")
                if k == 0:
                    return Poly.sym("new")
                return Poly.sym("hist%s" % k)
        if t.op == "phi":
            # tolerance default
            xs = {x for x, _ in branches(t)}
            if xs == {param("tol"), A("tol")}:
                return Poly.sym("tol")
        return None
    old, new, tol = Poly.sym("old"), Poly.sym("new"), Poly.sym("tol")
    div = Poly.const("1/2") * (fn("abs", old) + fn("abs", new))
    want = (new - old) / div - tol
    checks = attr_named(f, "ignore_bound_checks")
    role = {}
    for a in atoms(f):
        if a.op == "attr" and a.a[1].endswith("ignore_bound_checks"):
            role[a] = "nocheck"
        elif a is A("annealing_changed"):
            role[a] = "changed"
        elif a.op == "cmp" and a.a[0] in ("<", "<=", "==", "!=") and \
                {x for x in a.a[1:]} >= {it} and any(is_const(x) for x in a.a[1:]):
            k = [x for x in a.a[1:] if is_const(x)][0].a[0]
            if a.a[0] == "<" and a.a[2] is it and k == 0:
                role[a] = "later"
            elif a.a[0] == "<=" and a.a[2] is it and k == 1:
                role[a] = "later"
            elif a.a[0] == "!=" and k == 0:
                role[a] = "later"
            elif a.a[0] == "==" and k == 0:
                role[a] = "first"
            else:
                ctx.bad("criterion", con, "the first-iteration test is %s" % a, where)
                return
        elif a is it:
            role[a] = "later"
        elif a.op == "cmp" and a.a[0] in ("<", "<="):
            c = Conv(leaf)
            try:
                d = c(a.a[1]) - c(a.a[2])
            except Exception:
                d = None
            if d is not None and not (uses(d, ("new", "old"))):
                continue
            if d is not None and same_test(d, want, div):
                role[a] = "small" if a.a[0] == "<" else "small="
            elif d is not None and same_test(-d, want, div):
                role[a] = "notsmall"      # tol <= relative increase
            elif d is not None and not foreign(d):
                ctx.bad("criterion", con, "convergence is decided by %s" % str(d)[:250], where)
                return
            else:
                ctx.und("criterion", con, "comparison %s" % str(a)[:200])
                return
    names = list(role.values())
    if "small=" in names:
        ctx.bad("criterion", con, "non-strict comparison with the tolerance", where)
        return
    if "notsmall" in names and "small" not in names:
        ctx.bad("criterion", con, "the criterion is stated as `not (increase >= tol)`, which "
                "also holds for a NaN bound", where)
        return
    others = [a for a in atoms(f) if a not in role]
    miss = [n for n in ("nocheck", "changed", "small") if n not in names]
    if "later" not in names and "first" not in names:
        miss.append("later")
    if miss and not others:
        ctx.bad("criterion", con, "convergence does not depend on: %s" % ", ".join(
            {"nocheck": "bound checks being enabled", "changed": "a pending annealing change",
             "small": "the relative increase", "later": "not being the first iteration"}[m]
            for m in miss), where)
        return
    if others:
        # conditions beyond the criterion
        ctx.und("criterion", con, "extra conditions: %s" % str(others)[:200])
        return
    inv = {}
    for a, n in role.items():
        inv.setdefault(n, []).append(a)
    later = ATOM(inv["later"][0]) if "later" in inv else NOT(ATOM(inv["first"][0]))
    ref = AND(NOT(ATOM(inv["nocheck"][0])), NOT(ATOM(inv["changed"][0])), later,
              ATOM(inv["small"][0]))
    ctx.verdict("criterion", con, equivalent(f, ref), "the flag is %s" % str(v)[:300], where)
    # tolerance default
    phis = [x for x in subterms(v) if x.op == "phi" and
            {y for y, _ in branches(x)} == {param("tol"), A("tol")}]
    for x in phis[:1]:
        r = None
        c = x.a[0]
        if c.op == "cmp" and c.a[0] in ("is", "is not", "==", "!=") and c.a[1] is param("tol") and \
                c.a[2] is NONE:
            default_if = x.a[1] if c.a[0] in ("is", "==") else x.a[2]
            r = default_if is A("tol")
        elif c is param("tol"):
            r = False        # a tolerance of zero would be replaced by the default
        ctx.verdict("tolerance", con, r, "tolerance is %s" % x, where)
    if not phis:
        ts = [x for x in (param("tol"), A("tol")) if contains(v, lambda y: y is x)]
        ctx.verdict("tolerance", con, False if len(ts) < 2 else None,
                    "tolerance is %s" % ts, where)
    # report
    rv = strip_bool(b.ret) if b.ret is not None else NONE
    ctx.verdict("report", con, rv is strip_bool(v) or equivalent(boolform(rv), f) if rv is not NONE
                else False, "the step returns %s" % str(rv)[:200], where)
    # annealing_changed cleared unconditionally, after being consulted
    ac = stores(b, slf, "annealing_changed")
    fin = b.store.get((slf, "annealing_changed"))
    ctx.verdict("reset", con + ":cleared", fin is FALSE, "after a step the annealing mark is %s"
                % (fin,), ac[-1].where if ac else "")


def attr_named(f, n):
    return [a for a in atoms(f) if a.op == "attr" and a.a[1].endswith(n)]


def uses(d, names):
    at = d.deep_atoms()
    return any(a[0] == "s" and a[1] in names for a in at)


def foreign(d):
    """Contains things the rule does not know."""
    return any(a[0] == "t" for a in d.deep_atoms())


def same_test(d, want, div):
    """d < 0 is the same test as want < 0 (div > 0)."""
    for k in (1, 2):
        if d == want * k or d == want * div * k:
            return True
    return False


def reset(ctx, funcs):
    p = ctx.p
    b = build(p, "VB", "set_annealing", Policy(opaque_funcs=funcs))
    ctx.saw(b)
    slf = self_of("VB")
    con = "VB.set_annealing"
    c = b.store.get((slf, "converged"))
    ctx.verdict("reset", con + ":converged", c is FALSE, "converged flag becomes %s" % (c,))
    m = b.store.get((slf, "annealing_changed"))
    ctx.verdict("reset", con + ":changed", m is TRUE, "annealing mark becomes %s" % (m,))
    model = mk("attr", slf, "model")
    st = [e for e in b.effects if e.kind == "store" and e.extra == "annealing"]
    sa = [e for e in b.effects if e.kind == "call" and isinstance(e.target, T) and
          (e.target.op == "name" and e.target.a[0] == "setattr")]
    if not st:
        if sa:
            ctx.und("reset", con + ":nodes", "setattr")
        else:
            ctx.bad("reset", con + ":nodes", "the temperature is not set on the nodes", "")
    for e in st:
        ls = loops_of(e)
        d = ls[-1][1] if ls else None
        r = False if d is None else whole(d, model)
        if r is False and d is not None and d.op == "mcall":
            r = None
        ctx.verdict("reset", con + ":nodes", r if not conds_of(e) and
                    e.value is param("annealing") else False,
                    "the temperature is set only for %s under %s (value %s)"
                    % (d, str(conds_of(e))[:120], e.value), e.where)

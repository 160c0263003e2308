"""P02: plate masks follow the observations.

Rules
 refresh      every operation that changes `observed` (or the set of children of
              a node by deletion) recomputes the masks afterwards on every
              normal path;
 children-or  the mask of a node is the union over *all* its children of the mask
              they report, united with its own observed plates for stochastic
              nodes;
 upward       recomputation continues to every parent, unconditionally;
 to-parent    the mask reported to a parent is the node's own mask pushed through
              the weight map of that parent index, and plates are collapsed by
              "any", never by "all".
"""
from rules import famp02
import scen
from vg import *
from forms import *
from common import *


def run(ctx):
    p = ctx.p
    ctx.rule("refresh", "after a change of `observed` every normal path to the exit calls the "
             "mask update of the same node", floor=4)
    ctx.rule("children-or", "mask = OR over all children of their reported masks, united with "
             "`observed` in stochastic nodes", floor=3)
    ctx.rule("upward", "mask update recurses into every parent on every normal path", floor=1)
    ctx.rule("to-parent", "the mask reported to parent i is (weights_i(mask) != 0) collapsed with "
             "any()", floor=2)
    ctx.rule("axes", "activity of every plate of every parent, element by element", floor=100)
    scen.prepare(ctx)
    famp02.run(ctx)
    ctx.assumptions = ["mask update of one node is not interleaved with another thread"]
    funcs = opaque_utils(p)
    refresh(ctx, funcs)
    with ctx.guard("children-or", "Node._update_mask"):
        update_mask(ctx, funcs)
    set_mask(ctx, funcs)
    with ctx.guard("to-parent", "Node._mask_to_parent"):
        to_parent(ctx, funcs)


# ------------------------------------------------------------------- refresh
def refresh(ctx, funcs):
    p = ctx.p
    seen = set()
    for c in node_classes(p, "Node"):
        names = set()
        for k in p.mro(c):
            names |= set(k.methods)
        for name in sorted(names):
            if name == "__init__" or (name.startswith("_") and name != "_load"):
                continue
            m = p.find_method(c, name)
            if m.kind != "plain" or m.where in seen:
                continue
            if not writes_observed(p, m):
                # cheap prefilter on the methods it can reach by name
                continue
            seen.add(m.where)
            with ctx.guard("refresh", "%s.%s" % (m.cls.name, name)):
                b = build(p, c.name, name, Policy(
                    opaque={"_update_mask", "_check_shape", "get_shape", "_set_moments",
                            "compute_fixed_moments_and_f", "compute_fixed_moments"},
                    opaque_funcs=funcs, attr_types=dist_types(p, c)))
                ctx.saw(b)
                check_refresh(ctx, b, c, m, name)


def writes_observed(p, m, depth=0, seen=None):
    """`m` (transitively through self-calls) assigns `.observed` or calls set_limits."""
    import ast
    seen = seen if seen is not None else set()
    if m.where in seen or depth > 5:
        return False
    seen.add(m.where)
    for n in ast.walk(m.node):
        tg = n.targets if isinstance(n, ast.Assign) else \
            [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
        for t in tg:
            if isinstance(t, ast.Attribute) and t.attr in ("observed", "has_limits"):
                return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr == "set_limits":
                return True
            v = n.func.value
            is_self = isinstance(v, ast.Name) and v.id in ("self", "cls")
            is_super = isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                v.func.id == "super"
            if m.cls is not None and (is_self or is_super):
                for k in ([m.cls] if is_self else []) + list(p.mro(m.cls)):
                    mm = k.methods.get(n.func.attr)
                    if mm is not None and mm is not m and \
                            writes_observed(p, mm, depth + 1, seen):
                        return True
    return False


def changes(b, slf):
    """Effects that change what is observed."""
    for e in b.effects:
        if e.kind == "store" and e.extra == "observed" and e.target is slf:
            yield e
        elif e.kind == "store" and e.extra == "has_limits":
            yield e
        elif e.kind == "mutate" and isinstance(e.target, T) and e.target.op == "attr" \
                and e.target.a[1] == "observed":
            yield e


def check_refresh(ctx, b, c, m, name):
    slf = self_of(c)
    con = "%s.%s" % (m.cls.name, name)
    chg = list(changes(b, slf))
    if not chg:
        ctx.und("refresh", con, "no direct change found in the trace")
        return
    upd = [e for e in b.effects if e.kind == "call" and e.target.op == "bound"
           and e.target.a[1] == "_update_mask" and e.target.a[0] is slf]
    last = chg[-1]
    later = [e for e in upd if e.n > last.n]
    if not later:
        ctx.bad("refresh", con, "`observed` is changed but the masks are not recomputed "
                "afterwards", last.where)
        return
    try:
        g_chg = guard_form(last.guards)
        g_upd = OR(*[guard_form(e.guards) for e in later])
        covered = implies(g_chg, g_upd)
    except ValueError:
        covered = None
    inloop = any(g[0] == "loop" for e in later for g in e.guards) and \
        not any(g[0] == "loop" for g in last.guards)
    if covered and not inloop:
        ctx.ok("refresh", con, "", last.where)
        return
    # skipped only when the value did not change
    for e in later:
        if unchanged_skip(e, last, slf):
            ctx.ok("refresh", con, "skipped only when unchanged", last.where)
            return
    if covered is None:
        ctx.und("refresh", con, "guards too complex")
    else:
        ctx.bad("refresh", con, "the mask update after the change of `observed` is reached "
                "only under %s" % str(later[-1].guards)[:200], later[-1].where)


def unchanged_skip(e, change, slf):
    """The only extra guard is np.any(old != new) (or an equivalent test)."""
    extra = [g for g in e.guards if g not in change.guards]
    if len(extra) != 1 or not isinstance(extra[0][1], bool):
        return False
    c, pos = extra[0]
    old = mk("attr", slf, "observed")
    new = change.value

    def pair(t):
        t = strip_shape(t)
        s = {t.a[1], t.a[2]} if t.op == "cmp" else \
            set(t.a[1]) if t.op == "call" and len(t.a[1]) == 2 else set()
        return s == {old, new}
    c = c.a[1] if c.op == "un" and c.a[0] == "not" and not pos else c
    if c.op == "un" and c.a[0] == "not":
        c, pos = c.a[1], not pos
    if c.op == "call" and c.a[0] in ("np.any",) and pos:
        x = c.a[1][0]
        if x.op == "cmp" and x.a[0] == "!=" and pair(x):
            return True
        if x.op == "call" and x.a[0] in ("np.not_equal", "np.logical_xor") and pair(x):
            return True
    if c.op == "call" and c.a[0] in ("np.all",) and not pos:
        x = c.a[1][0]
        if x.op == "cmp" and x.a[0] == "==" and pair(x):
            return True
    if c.op == "call" and c.a[0] in ("np.array_equal", "np.array_equiv") and not pos and pair(c):
        return True
    return False


# -------------------------------------------------------------- _update_mask
def reported(t, slf):
    """Does t contain the masks reported by the children of self?"""
    return contains(t, lambda x: x.op == "mcall" and x.a[0] == "_mask_to_parent")


def update_mask(ctx, funcs):
    p = ctx.p
    b = build(p, "Node", "_update_mask",
              Policy(opaque={"_set_mask", "_mask_to_parent", "get_shape"}, opaque_funcs=funcs))
    ctx.saw(b)
    slf = self_of("Node")
    children = mk("attr", slf, "children")
    sets = [e for e in b.effects if e.kind == "call" and e.target.op == "bound"
            and e.target.a[1] == "_set_mask" and e.target.a[0] is slf]
    con = "Node._update_mask"
    if not sets:
        ctx.und("children-or", con, "no call of _set_mask found")
    for e in sets:
        args = e.extra[0]
        v = args[0] if args else e.extra[1].get("mask")
        r, why = or_over_children(v, children, slf, b)
        ctx.verdict("children-or", con, r, why, e.where)
        g = guard_form(e.guards)
        try:
            unconditional = implies(("c", True), g)
        except ValueError:
            unconditional = None
        ctx.verdict("children-or", con + ":always", unconditional,
                    "mask is set only under %s" % str(e.guards)[:120], e.where)
    up = [e for e in b.effects if e.kind == "call" and e.target.op == "bound"
          and e.target.a[1] == "_update_mask" and e.target.a[0] is not slf]
    parents = mk("attr", slf, "parents")
    good = False
    for e in up:
        loops = [g for g in e.guards if g[0] == "loop"]
        conds = [g for g in e.guards if isinstance(g[1], bool)]
        dom_ok = [full_domain(g[1], parents) for g in loops if contains(g[1], lambda x: x is parents)]
        if True in dom_ok and not conds:
            good = True
        elif None in dom_ok and not conds and good is False:
            good = None
    if good is None:
        ctx.und("upward", con, "loop over the parents not understood")
    elif good:
        ctx.ok("upward", con)
    elif not up:
        if any(x.op == "closure" for e in b.effects for x in subterms_of(e)):
            ctx.und("upward", con, "no direct recursion found")
        else:
            ctx.bad("upward", con, "the mask update is not propagated to the parents", "")
    else:
        e = up[-1]
        ctx.bad("upward", con, "propagation to the parents is conditional or partial: %s"
                % str(e.guards)[:200], e.where)


def subterms_of(e):
    for x in (e.target, e.value):
        if isinstance(x, T):
            yield from subterms(x)


def full_domain(d, seq):
    """Loop domain that ranges over the whole sequence."""
    return whole(d, seq)


def early_exit(b, loopid, children):
    """The scan of the children may stop only when the whole mask is already set."""
    for e in b.effects:
        if e.kind != "break" or not any(g[0] == "loop" and g[1] is loopid.a[0] for g in e.guards):
            continue
        for c, v in conds_of(e):
            if v and c.op == "call" and c.a[0] in ("np.all", "all") and \
                    contains(c, lambda x: x.op in ("carry", "mcall")):
                return None, "early exit when everything is active"
            return False, "the scan of the children stops early under %s" % str(c)[:120]
    return None, "early exit not understood"


def or_over_children(v, children, slf, b=None):
    """Recognise OR-reductions over all children."""
    v = strip_shape(v)
    if v.op == "call" and v.a[0] in ("np.logical_or.reduce", "np.any", "any",
                                     "functools.reduce"):
        for x in v.a[1]:
            for y in subterms(x):
                if y.op == "each" and full_domain(y.a[0], children) is not None:
                    if full_domain(y.a[0], children) is False:
                        return False, "only some children are asked: %s" % str(y.a[0])[:100]
                    if y.a[2] is not TRUE:
                        return False, "children filtered by %s" % str(y.a[2])[:100]
                    return True, ""
        return None, "reduction not recognised: %s" % str(v)[:150]
    if v.op == "fold":
        op, init, expr, domain = v.a[:4]
        if full_domain(domain, children) is not True:
            return full_domain(domain, children), "loop domain is %s" % str(domain)[:120]
        if op in ("np.logical_or", "|", "or", "np.bitwise_or"):
            ok = reported(expr, slf)
            return (True if ok else None), "accumulated %s" % str(expr)[:120]
        if op in ("+", "np.maximum"):
            return (True if reported(expr, slf) else None), ""
        return False, "masks of the children are combined with %s" % op
    if v.op == "loopout":
        # old := f(old, reported)
        loopid, init, cur = v.a[:3]
        dom = loopid.a[0] if isinstance(loopid, T) and loopid.a else None
        if dom is not None and dom.op == "until" and full_domain(dom.a[0], children) is True:
            return early_exit(b, loopid, children)
        if dom is not None and full_domain(dom, children) is not True:
            return full_domain(dom, children), "loop domain is %s" % str(dom)[:120]
        carry = [x for x in subterms(cur) if x.op == "carry"]
        rep = [x for x in subterms(cur) if x.op == "mcall" and x.a[0] == "_mask_to_parent"]
        if len(carry) == 1 and rep:
            f = boolform(cur)
            ats = atoms(f)
            try:
                inc = implies(OR(ATOM(carry[0]), ATOM(strip_shape(rep[0]))), f)
                exact = implies(f, OR(ATOM(carry[0]), ATOM(strip_shape(rep[0]))))
            except ValueError:
                return None, "too complex"
            if all(a in (carry[0], strip_shape(rep[0])) for a in ats):
                return inc and exact, "combined as %s" % str(cur)[:160]
            if not inc:
                return False, "a child's mask can be dropped: %s" % str(cur)[:160]
            return None, ""
        if rep and not carry:
            return False, "only the last child's mask is kept"
        return None, str(cur)[:120]
    if is_const(v) or not reported(v, slf):
        return False, "mask does not depend on the children: %s" % str(v)[:100]
    return None, "not recognised: %s" % str(v)[:160]


def set_mask(ctx, funcs):
    p = ctx.p
    seen = set()
    for c in node_classes(p, "Node"):
        m = p.find_method(c, "_set_mask")
        if m is None or m.where in seen:
            continue
        stoch = p.get_class("Stochastic") in p.mro(c)
        key = (m.where, stoch)
        if key in seen:
            continue
        seen.add(key)
        con = "%s._set_mask%s" % (m.cls.name, "" if stoch or m.cls.name != "Stochastic" else "")
        with ctx.guard("children-or", con):
            b = build(p, c.name, "_set_mask", Policy(opaque_funcs=funcs))
            ctx.saw(b)
            slf = self_of(c)
            st = [e for e in b.effects if e.kind == "store" and e.extra == "mask"
                  and e.target is slf]
            if not st:
                ctx.und("children-or", con, "no store to mask")
                continue
            v = b.store.get((slf, "mask"), st[-1].value)
            need = [ATOM(param("mask"))]
            if stoch:
                need.append(ATOM(mk("attr", slf, "observed")))
            f = boolform(v)
            try:
                r = all(implies(x, f) for x in need)
                extra = [a for a in atoms(f) if a not in [x[1] for x in need]]
                # nothing may be marked beyond children, observed and stated evidence
                tight = implies(f, OR(*(need + [ATOM(a) for a in extra])))
            except ValueError:
                r, tight = None, None
            if r is False and any(x.op in ("opaque", "undef") for x in subterms(v)):
                r = None
            ctx.verdict("children-or", con, r, "mask of the node is %s: it must include the "
                        "children's mask%s" % (str(v)[:160],
                                               " and the observed plates" if stoch else ""),
                        st[-1].where)


def to_parent(ctx, funcs):
    p = ctx.p
    for c in ("Node", "Stochastic", "Deterministic"):
        pol = Policy(opaque={"_compute_weights_to_parent", "compute_weights_to_parent",
                             "_plates_to_parent"},
                     opaque_funcs=funcs)
        b = build(p, c, "_mask_to_parent", pol)
        ctx.saw(b)
        slf = self_of(c)
        v = b.ret
        con = "%s._mask_to_parent" % c
        if v is None:
            ctx.bad("to-parent", con, "never returns", "")
            continue
        w = [x for x in subterms(v) if x.op == "mcall" and
             x.a[0] in ("_compute_weights_to_parent", "compute_weights_to_parent")]
        if not w:
            ctx.bad("to-parent", con, "the mask sent to the parent is not the weight map of the "
                    "node's mask: %s" % str(v)[:160], "")
            continue
        args = list(w[0].a[2]) + [x for _, x in w[0].a[3]]
        ok = args and args[0] is param("index") and len(args) > 1 and \
            args[1] is mk("attr", slf, "mask")
        ctx.verdict("to-parent", con, bool(ok), "weights computed from %s"
                    % str(args)[:120], "")
        # thresholding: compared with zero
        red = [x for x in subterms(v) if x.op in ("call", "mcall") and x.a[0] in
               ("np.all", "all", "np.logical_and.reduce", "np.min", "np.amin", "np.prod", "min")]
        red = [x for x in red if contains(x, lambda y: y is w[0])]
        ctx.verdict("to-parent", con + ":any", not red,
                    "plates are collapsed with %s: a plate with any active element must stay "
                    "active" % (red[0].a[0] if red else ""), "")
        for x in subterms(v):
            if x.op == "call" and x.a[0] == "misc.axes_to_collapse" and len(x.a[1]) == 2:
                tgt = x.a[1][1]
                parent = mk("attr", mk("sub", mk("attr", slf, "parents"), param("index")),
                            "plates")
                good = True if tgt is parent else False if (
                    tgt is mk("attr", slf, "plates") or
                    (tgt.op == "mcall" and tgt.a[0] == "_plates_to_parent")) else None
                ctx.verdict("to-parent", con + ":axes", good, "plates are collapsed down to %s "
                            "and not to the plates of the parent" % str(tgt)[:80], "")
        cmpz = [x for x in subterms(v) if x.op == "cmp" and w[0] in x.a]
        if cmpz:
            x = cmpz[0]
            good = x.a[0] == "!=" and is_const(x.a[2]) and x.a[2].a[0] == 0 or \
                (x.a[0] == "<" and is_const(x.a[1]) and x.a[1].a[0] == 0)
            ctx.verdict("to-parent", con + ":nonzero", bool(good),
                        "weights are thresholded by %s instead of != 0" % str(x)[:80], "")

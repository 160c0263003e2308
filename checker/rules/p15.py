"""P15: iteration bookkeeping of the inference engine.

Rules
 once       each engine entry point that performs iterations finishes every
            iteration (of its outermost loop) by exactly one end-of-iteration step;
 bound      the end-of-iteration step computes the lower bound of the present
            state and writes it, unconditionally, to the history at the present
            iteration; the CPU time likewise;
 grow       the histories are extended (never truncated or replaced) before the
            write whenever they are full;
 advance    the iteration counter is advanced by exactly one, after the writes;
 order      `update` visits every requested node, in the order given, in every
            sweep, the default being the whole model;
 count      at most `repeat` sweeps are made, stopping early exactly when the
            step reports convergence;
 autosave   the automatic save happens when a positive interval divides the
            number of finished iterations.
"""
from vg import *
from forms import *
from fold import *
from common import *
from alg import *

STEP = "_end_iteration_step"


def run(ctx):
    p = ctx.p
    ctx.rule("once", "exactly one end-of-iteration step per outer iteration, unguarded", floor=2)
    ctx.rule("bound", "history[iter] := lower bound computed in this step, unconditionally", floor=2)
    ctx.rule("grow", "histories are extended by appending when full, before the writes", floor=1)
    ctx.rule("advance", "iter := iter + 1 exactly once, unconditionally, after the writes", floor=1)
    ctx.rule("order", "every sweep updates all requested nodes in the given order", floor=1)
    ctx.rule("count", "sweeps are bounded by `repeat`, early stop iff converged", floor=1)
    ctx.rule("autosave", "saved iff interval > 0 and interval divides the finished iterations",
             floor=1)
    ctx.assumptions = ["the user's callback does not modify the engine's counters"]
    funcs = opaque_utils(p)
    vb = p.get_class("VB")
    for name in ("update", "optimize", "pattern_search"):
        with ctx.guard("once", "VB." + name):
            once(ctx, funcs, name)
    with ctx.guard("order", "VB.update"):
        update(ctx, funcs)
    with ctx.guard("bound", "VB." + STEP):
        step(ctx, funcs)
    with ctx.guard("grow", "VB._append_iterations"):
        grow(ctx, funcs)


def once(ctx, funcs, name):
    p = ctx.p
    b = build(p, "VB", name, Policy(opaque={STEP, "plot", "set_parameters", "get_parameters",
                                           "get_gradients", "add", "dot",
                                           "compute_lowerbound", "__getitem__"},
                                   opaque_funcs=funcs))
    ctx.saw(b)
    slf = self_of("VB")
    con = "VB." + name
    st = method_calls(b, STEP, slf)
    if not st:
        # inlined: look at the stores to iter
        if stores(b, slf, "iter") or any(
                e.kind == "mutate" and e.target is mk("attr", slf, "iter") for e in b.effects):
            ctx.und("once", con, "step is inlined")
        else:
            ctx.bad("once", con, "no end-of-iteration step is performed", "")
        return
    outer = [l for l in b.loops if l.depth == 0 and any(l.begin <= e.n < l.end for e in st)]
    work = [e for e in b.effects if e.kind == "call" and e.target.op == "bound" and
            e.target.a[1] in ("update", "set_parameters") and e.target.a[0].op not in ("phi", "param")]
    in_loop = [e for e in st if loops_of(e)]
    if name in ("update", "optimize"):
        ctx.verdict("once", con + ":each-iteration", bool(in_loop),
                    "the end-of-iteration step is not performed inside the iteration loop",
                    st[0].where)
    for e in st:
        deep = loops_of(e)
        want = 1 if name in ("update", "optimize") else 0
        if len(deep) > want:
            ctx.bad("once", con + ":depth", "the end-of-iteration step is performed inside an "
                    "inner loop: %s" % str(deep[-1][1])[:120], e.where)
        else:
            ctx.ok("once", con + ":depth", "", e.where)
    # total: union of guards covers every iteration, pairwise exclusive
    gs = []
    base = None
    for e in st:
        cs = [c for c in conds_of(e)]
        if base is None:
            base = cs
        gs.append(cs)
    loopconds = [l.test for l in b.loops if l.test is not None]
    fs = [AND(*[(boolform(c) if pol else NOT(boolform(c))) for c, pol in cs
                if c not in loopconds]) for cs in gs]
    try:
        total = implies(("c", True), OR(*fs))
        excl = all(unsat(AND(fs[i], fs[j])) for i in range(len(fs)) for j in range(i))
    except ValueError:
        total = excl = None
    ctx.verdict("once", con + ":always", total, "the step is reached only under %s"
                % str(st[0].guards)[:200], st[0].where)
    ctx.verdict("once", con + ":single", excl, "the step can be performed more than once per "
                "iteration", st[-1].where)
    # after all the updates of that iteration
    last_work = [e for e in work if e.n > st[-1].n]
    ctx.verdict("once", con + ":last", not last_work, "a node is updated after the "
                "end-of-iteration step of the same iteration",
                last_work[0].where if last_work else "")
    for e in st:
        tol = call_arg(e, 2, "tol")
        if name in ("update", "optimize"):
            ctx.verdict("once", con + ":tol", tol is param("tol"), "the tolerance given by the "
                        "caller is not passed on (%s)" % (tol,), e.where)


def update(ctx, funcs):
    p = ctx.p
    b = build(p, "VB", "update", Policy(opaque={STEP, "plot"}, opaque_funcs=funcs))
    ctx.saw(b)
    slf = self_of("VB")
    con = "VB.update"
    nodes = mk("param", "*nodes")
    model = mk("attr", slf, "model")
    ups = [e for e in b.effects if e.kind == "call" and e.target.op == "bound" and
           e.target.a[1] == "update" and len(loops_of(e)) >= 2]
    allups = [e for e in b.effects if e.kind == "call" and e.target.op == "bound" and
              e.target.a[1] == "update" and contains(e.target.a[0], lambda x: x in (nodes, model))]
    if not ups:
        if allups:
            ctx.bad("order", con, "the node updates are not repeated in every sweep",
                    allups[0].where)
        else:
            ctx.und("order", con, "no node update found in the trace")
    for e in ups[:1]:
        d = loops_of(e)[-1][1]
        ok, why = True, ""
        for empty, want in ((True, model), (False, nodes)):
            t = under(d, nodes, empty)
            r, w = visits(t, want)
            if r is not True and ok is not False:
                ok, why = r, "%s: %s" % ("no nodes given" if empty else "nodes given", w)
        ctx.verdict("order", con, ok, "loop domain: %s" % why, e.where)
        # condition of the node update: only capability tests
        looptests = [l.test for l in b.loops]
        extra = [c for c in conds_of(e) if c[0] not in looptests]
        bad = []
        for c, pol in extra:
            for a in atoms(boolform(c)):
                if not (a.op == "call" and a.a[0] in ("hasattr", "callable", "isinstance",
                                                      "getattr")):
                    bad.append(a)
            if not pol:
                bad.append(c)
        negs = [c for c, pol in extra if not pol]
        ctx.verdict("order", con + ":capability", True if not bad else
                    (None if all(x in negs for x in bad) else False),
                    "a node is skipped depending on %s" % str(bad[:1])[:160], e.where)
        ctx.verdict("order", con + ":once", len(ups) == 1 or None,
                    "node update reached at %d sites" % len(ups), e.where)
    # number of sweeps
    st = [e for e in method_calls(b, STEP, slf)]
    if not st:
        ctx.und("count", con, "no step")
        return
    outer = [l for l in b.loops if l.depth == 0 and l.begin <= st[0].n < l.end]
    if not outer:
        ctx.bad("count", con, "no sweep loop", st[0].where)
        return
    l = outer[0]
    ctx.verdict("count", con, sweeps(l, b), "the number of sweeps is governed by %s with %s"
                % (l.test if l.test is not None else l.domain,
                   {k: str(v[1])[:60] for k, v in l.carried.items()}), st[0].where)
    # early stop
    exits = [e for e in b.effects if e.kind in ("return", "break") and l.begin <= e.n < l.end
             and len(loops_of(e)) == 1]
    call = None
    for e in b.effects:
        for g in e.guards:
            if isinstance(g[0], T):
                for x in subterms(g[0]):
                    if x.op == "mcall" and x.a[0] == STEP:
                        call = x
    conv = ATOM(call) if call is not None else ATOM(mk("attr", slf, "converged"))
    alts = [conv, ATOM(mk("attr", slf, "converged")),
            ATOM(mk("mcall", "has_converged", slf, (), ()))]
    if not exits:
        ctx.bad("count", con + ":stop", "the sweeps never stop at convergence", st[0].where)
        return
    fs = OR(*[AND(*[(boolform(c) if pol else NOT(boolform(c))) for c, pol in conds_of(e)
                    if c is not l.test]) for e in exits])
    res = None
    at = atoms(fs)
    if all(any(x is a[1] for a in alts) for x in at) and len(at) == 1:
        res = equivalent(fs, ATOM(at[0]))
    elif any(any(x is a[1] for a in alts) for x in at):
        # must stop whenever converged
        a = [x for x in at if any(x is y[1] for y in alts)][0]
        try:
            res = False if not implies(fs, ATOM(a)) or not implies(ATOM(a), fs) else True
        except ValueError:
            res = None
    ctx.verdict("count", con + ":stop", res, "early stop under %s" % (at,), exits[0].where)


REORDER = {"reversed", "sorted", "set", "frozenset", "misc.unique", "np.unique", "dict.fromkeys",
           "np.random.permutation", "random.sample", "random.shuffle", "random.choice",
           "np.random.choice", "collections.OrderedDict.fromkeys"}


def under(t, seq, empty, depth=0):
    """Specialise a term to the case that `seq` is empty / not empty."""
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x in memo:
            return memo[x]
        if x.op == "phi":
            r = is_empty_test(x.a[0], seq)
            if r is not None:
                y = go(x.a[1] if r == empty else x.a[2])
                memo[x] = y
                return y
        y = rebuild(x.op, tuple(go(z) for z in x.a)) if x.a else x
        memo[x] = y
        return y
    return go(t)


def visits(d, want):
    """(verdict, reason): does iterating d visit exactly the elements of `want` in order?"""
    for x in subterms(d):
        if x.op == "call" and x.a[0] in REORDER:
            return False, "%s changes the order or drops repeats" % x.a[0]
        if x.op == "mcall" and x.a[0] == "fromkeys" or x.op == "set":
            return False, "the order is not kept in %s" % str(x)[:80]
        if x.op == "slice" and x.a[2] not in (NONE, const(1)):
            return False, "strided %s" % str(x)[:60]
    r = whole(d, want)
    if r is None:
        seqs = [x for x in subterms(d) if x.op == "param" or
                (x.op == "attr" and x.a[1] == "model")]
        if d is not want and (d.op in ("attr", "param")) and seqs and want not in seqs:
            return False, "visits %s" % str(d)[:80]
        # a mapped sequence visits one element per element
        if d.op in ("list", "tuple") and len(d.a) == 1 and d.a[0].op == "each" and \
                whole(d.a[0].a[0], want) is True and d.a[0].a[2] is TRUE:
            return True, ""
        if seqs and want not in seqs and not any(x.op in ("mcall", "call") for x in subterms(d)):
            return False, "visits %s" % str(d)[:80]
    return r, "%s" % str(d)[:120]


def is_empty_test(c, seq):
    """True: c means `seq` is empty; False: non-empty; None: unknown."""
    if c.op == "cmp" and c.a[0] in ("==", "!=") and c.a[1].op == "call" and \
            c.a[1].a[0] == "len" and c.a[1].a[1][0] is seq and is_const(c.a[2]) and \
            c.a[2].a[0] == 0:
        return c.a[0] == "=="
    if c is seq:
        return False
    if c.op == "un" and c.a[0] == "not":
        r = is_empty_test(c.a[1], seq)
        return None if r is None else not r
    if c.op == "cmp" and c.a[0] == "<" and is_const(c.a[1]) and c.a[1].a[0] == 0 and \
            c.a[2].op == "call" and c.a[2].a[0] == "len" and c.a[2].a[1][0] is seq:
        return False
    if c.op == "cmp" and c.a[0] == "<" and is_const(c.a[2]) and c.a[2].a[0] == 1 and \
            c.a[1].op == "call" and c.a[1].a[0] == "len" and c.a[1].a[1][0] is seq:
        return True
    if c.op == "call" and c.a[0] in ("len", "bool") and c.a[1] and c.a[1][0] is seq:
        return False
    if c.op == "cmp" and c.a[0] == "==" and seq in c.a and TUP0 in c.a:
        return True
    return None


TUP0 = mk("tuple")


def sweeps(l, b):
    """Is the loop a `repeat is None or counter < repeat` loop with unit steps?"""
    rep = param("repeat")
    if l.test is None:
        # for loop over range(repeat) / itertools
        d = l.domain
        for t, cond in branches(d):
            if t.op == "call" and t.a[0] == "range":
                if len(t.a[1]) == 1 and t.a[1][0] is rep:
                    continue
                if len(t.a[1]) == 2 and is_const(t.a[1][0]):
                    return False if t.a[1][0].a[0] != 0 or t.a[1][1] is not rep else None
                return False if contains(t, lambda x: x is rep) else None
            if t.op == "call" and t.a[0] in ("itertools.count", "itertools.repeat"):
                continue
            return None
        return True
    f = boolform(l.test)
    ats = atoms(f)
    isnone = [a for a in ats if a.op == "cmp" and a.a[0] in ("is", "==") and a.a[1] is rep
              and a.a[2] is NONE]
    lt = [a for a in ats if a.op == "cmp" and a.a[0] in ("<", "<=", "!=")]
    others = [a for a in ats if a not in isnone and a not in lt]
    if others or len(lt) > 1:
        return None
    for a in lt:
        lo, hi = a.a[1], a.a[2]
        if hi is rep and lo.op == "carry":
            n = lo.a[1]
            init, cur = l.carried.get(n, (None, None))
            if cur is None or not is_const(init):
                return None
            step = cur.op == "bin" and cur.a[0] == "+" and lo in cur.a[1:] and \
                any(is_const(x) and x.a[0] == 1 for x in cur.a[1:])
            if not step:
                return None if contains(cur, lambda x: x.op == "phi") else False
            want = {"<": 0, "<=": 1, "!=": 0}[a.a[0]]
            if init.a[0] != want:
                return False
        else:
            return None
    if not lt:
        return None
    try:
        want = OR(*([ATOM(x) for x in isnone] + [ATOM(x) for x in lt]))
        return equivalent(f, want) if isnone else None
    except ValueError:
        return None


def strip_updates(t):
    """Underlying array of a value after element writes / growth."""
    while True:
        if t.op == "update":
            t = t.a[0]
        elif t.op == "phi":
            xs = {strip_updates(x) for x in t.a[1:]}
            if len(xs) != 1:
                return t
            return xs.pop()
        elif t.op == "call" and t.a[0] in ("np.append", "np.concatenate", "np.hstack") and t.a[1]:
            x = t.a[1][0]
            t = x.a[0] if x.op in ("tuple", "list") and x.a else x
        elif t.op == "mcall" and t.a[0] in ("copy",):
            t = t.a[1]
        else:
            return t


def hist_writes(b, slf, name):
    arr = mk("attr", slf, name)
    return [e for e in b.effects if e.kind == "mutate" and isinstance(e.target, T)
            and e.extra and e.extra[0] in ("set", "aug") and len(e.extra) > 1
            and strip_updates(e.target) is arr and e.extra[0] == "set"]


def step(ctx, funcs):
    p = ctx.p
    b = build(p, "VB", STEP, Policy(opaque={"save", "loglikelihood_lowerbound",
                                           "compute_lowerbound"}, opaque_funcs=funcs))
    ctx.saw(b)
    slf = self_of("VB")
    con = "VB." + STEP
    it = mk("attr", slf, "iter")
    ll = method_calls(b, "loglikelihood_lowerbound", slf)
    for e in ll[:1]:
        ctx.verdict("bound", con + ":computed", not conds_of(e) and not loops_of(e),
                    "the bound is computed only under %s" % str(e.guards)[:160], e.where)
    for name in ("L", "cputime"):
        w = hist_writes(b, slf, name)
        if not w:
            ctx.bad("bound", con + ":" + name, "the history `%s` is not written at the present "
                    "iteration" % name, "") if not any(
                e.kind == "call" and e.target.op == "closure" for e in b.effects) else \
                ctx.und("bound", con + ":" + name, "no write found")
            continue
        e = w[-1]
        ok = e.extra[1] is it
        ctx.verdict("bound", con + ":%s:index" % name, bool(ok),
                    "written at index %s instead of the present iteration" % (e.extra[1],),
                    e.where)
        ctx.verdict("bound", con + ":%s:always" % name, not conds_of(e),
                    "written only under %s" % str(e.guards)[:160], e.where)
        if name == "L":
            v = strip_shape(e.value)
            good = v.op == "mcall" and v.a[0] in ("loglikelihood_lowerbound",)
            bad = not contains(v, lambda x: x.op == "mcall" and x.a[0] in
                               ("loglikelihood_lowerbound", "compute_lowerbound"))
            changed = v.op == "call" and v.a[0] in (
                "max", "min", "abs", "round", "sum", "np.max", "np.min", "np.maximum",
                "np.minimum", "np.nanmax", "np.nanmin", "np.fmax", "np.fmin", "np.abs",
                "np.round", "np.around", "np.nan_to_num", "np.where", "np.clip")
            ctx.verdict("bound", con + ":L:value", True if good else False if bad or changed or
                        v.op in ("bin", "un", "phi") else None,
                        "the recorded value is %s" % str(v)[:160], e.where)
    # iter advance
    adv = stores(b, slf, "iter")
    if not adv:
        ctx.bad("advance", con, "the iteration counter is not advanced", "")
    else:
        v = b.store.get((slf, "iter"))
        c = Conv(lambda t: None)
        d = None
        if v.op == "bin" and v.a[0] == "+" and it in v.a[1:]:
            o = [x for x in v.a[1:] if x is not it]
            d = bool(o) and is_const(o[0]) and o[0].a[0] == 1
        elif v is it or is_const(v):
            d = False
        elif v.op == "phi":
            d = False
        ctx.verdict("advance", con, d, "iteration counter becomes %s" % str(v)[:120],
                    adv[-1].where)
        w = hist_writes(b, slf, "L")
        if w:
            ctx.verdict("advance", con + ":after", all(x.n < adv[0].n for x in w) or
                        w[-1].extra[1] is it, "the counter is advanced before the history is "
                        "written", adv[0].where)
    # growth before the write
    w = hist_writes(b, slf, "L") + hist_writes(b, slf, "cputime")
    L = mk("attr", slf, "L")
    ap = [e for e in stores(b, slf, "L")]
    if not ap:
        ctx.bad("grow", con, "the history is never extended", "")
    else:
        e = ap[0]
        first = min([x.n for x in w] + [x.n for x in ll] + [10 ** 9])
        ctx.verdict("grow", con + ":before", e.n < first, "the history is extended only after "
                    "it is written", e.where)
        f = guard_form(e.guards)
        ats = atoms(f)
        full = None
        for a in ats:
            if a.op == "cmp" and a.a[0] in ("<=", "<", "==") and contains(a, lambda x: x is it):
                lo, hi = a.a[1], a.a[2]
                n = mk("call", "len", (L,), ())
                if a.a[0] == "<=" and lo is n and hi is it:
                    full = implies(ATOM(a), f)
                elif a.a[0] == "==" and {lo, hi} == {n, it}:
                    full = implies(ATOM(a), f)
                elif a.a[0] == "<" and lo is it and hi is n:
                    full = implies(NOT(ATOM(a)), f)
                elif a.a[0] == "<" and lo is n and hi is it:
                    full = False          # one element too late
                elif a.a[0] == "<" and lo is n and hi.op == "bin":
                    full = True
        if not ats:
            full = True
        ctx.verdict("grow", con + ":when", full, "the history is extended under %s, which can "
                    "leave it too short" % str(e.guards)[:200], e.where)
    autosave(ctx, b, slf, con, it)


def grow(ctx, funcs):
    p = ctx.p
    b = build(p, "VB", STEP, Policy(opaque={"save", "loglikelihood_lowerbound"},
                                   opaque_funcs=funcs))
    slf = self_of("VB")
    for name in ("L", "cputime"):
        for e in stores(b, slf, name):
            keep = strip_updates(e.value) is mk("attr", slf, name) and e.value.op == "call"
            v = e.value
            pre = None
            if v.op == "call" and v.a[0] == "np.append" and len(v.a[1]) >= 2:
                pre = v.a[1][0] is mk("attr", slf, name)
            elif v.op == "call" and v.a[0] in ("np.concatenate", "np.hstack"):
                x = v.a[1][0]
                pre = x.op in ("tuple", "list") and bool(x.a) and x.a[0] is mk("attr", slf, name)
            elif not contains(v, lambda x: x is mk("attr", slf, name)):
                pre = False
            ctx.verdict("grow", "VB._append_iterations:" + name, pre,
                        "the earlier history is lost: %s := %s" % (name, str(v)[:120]), e.where)
    l = mk("attr", slf, "l")
    w = [e for e in b.effects if e.kind == "mutate" and e.extra and e.extra[0] == "set" and
         strip_updates(e.target) is l]
    w = [e for e in w if loops_of(e)]
    for e in w:
        v = e.value
        r = None
        if v.op == "call" and v.a[0] == "np.append":
            x = v.a[1][0]
            r = x.op == "sub" and x.a[0] is l and x.a[1] is e.extra[1] or None
        elif not contains(v, lambda x: x is l):
            r = False
        ctx.verdict("grow", "VB._append_iterations:l", r,
                    "the earlier per-node history is lost: %s" % str(v)[:120], e.where)


def autosave(ctx, b, slf, con, it):
    sv = method_calls(b, "save", slf)
    if not sv:
        ctx.bad("autosave", con, "the automatic save is never performed", "")
        return
    k = mk("attr", slf, "autosave_iterations")
    newit = mk("bin", "+", it, const(1))
    f = OR(*[guard_form(e.guards) for e in sv])
    div = None
    r = None
    pos = None
    for a in atoms(f):
        if a.op == "cmp" and a.a[0] == "<" and is_const(a.a[1]) and a.a[1].a[0] == 0 and a.a[2] is k:
            pos = ATOM(a)
        elif a.op == "cmp" and a.a[0] == "==" and contains(a, lambda x: x is k):
            m = a.a[1] if is_const(a.a[2]) else a.a[2]
            c = a.a[2] if is_const(a.a[2]) else a.a[1]
            arg = None
            if m.op == "call" and m.a[0] in ("np.mod", "np.remainder") and m.a[1][1] is k:
                arg = m.a[1][0]
            elif m.op == "bin" and m.a[0] == "%" and m.a[2] is k:
                arg = m.a[1]
            if arg is not None and is_const(c):
                if arg is newit and c.a[0] == 0:
                    div = ATOM(a)
                else:
                    r = False
                    div = ATOM(a)
        elif a.op in ("mcall", "call") or a.op == "bin":
            m = a
            if m.op == "call" and m.a[0] in ("np.mod",) and m.a[1][1] is k:
                if m.a[1][0] is newit:
                    div = NOT(ATOM(a))
                else:
                    r = False
                    div = NOT(ATOM(a))
            elif m.op == "bin" and m.a[0] == "%" and m.a[2] is k:
                div = NOT(ATOM(a))
                if m.a[1] is not newit:
                    r = False
    if r is None and pos is not None and div is not None:
        try:
            r = equivalent(f, AND(pos, div))
        except ValueError:
            r = None
    elif r is None and pos is not None and div is None:
        r = None
    detail = "automatic save under %s" % str(sv[0].guards)[:250]
    if r is None or r is False:
        try:
            r = True
            for n in range(0, 14):
                for kk, nodes in [(i, x) for i in range(-1, 6) for x in (None, ())]:
                    def leaf(t):
                        return kk if t is k else n if t is it else \
                            nodes if t is mk("attr", slf, "autosave_nodes") else Unknown
                    got = any(fold_guards(e.guards, leaf) for e in sv)
                    if got != (kk > 0 and (n + 1) % kk == 0):
                        r = False
                        detail = "after %d finished iterations with interval %d the state is %s: %s" % (
                            n + 1, kk, "saved" if got else "not saved", detail)
                        raise StopIteration
        except StopIteration:
            pass
        except Unknown as e:
            r = None
    ctx.verdict("autosave", con, r, detail, sv[0].where)
    fn_ = mk("attr", slf, "autosave_filename")
    for e in sv:
        ctx.verdict("autosave", con + ":file", call_arg(e, None, "filename") is fn_,
                    "saved to %s" % (call_arg(e, None, "filename"),), e.where)

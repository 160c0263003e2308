"""P01: inference never alters the observed part of a node.

Rule (effect typing of the moment state): in every public operation of a node
class that can be observed, every write to the stored moments `u`, the stored
normaliser `g` and the observation term `f` must be *mask-preserving*: the new
content equals the old content wherever `observed` is true.  `observed` itself
may be written only by the observation protocol.
"""
from rules import famp01
import scen
from vg import *
from forms import *
from common import *

OPAQUE = {"random", "compute_phi_from_parents", "compute_moments_and_cgf",
          "compute_gradient", "_check_shape", "_update_mask", "_message_from_parents",
          "_message_from_children", "get_shape", "compute_fixed_moments",
          "compute_fixed_moments_and_f", "_set_mask"}
PROTOCOL = {"observe", "unobserve", "load", "_load", "__init__", "observe_limits"}
STATE = ("u", "g", "f")

KNOWN_PURE = ("np.", "misc.", "linalg.", "random.", "special.", "scipy.")


CUR = {}        # attribute -> terms stored earlier on the same trace


def old_value(t, attr, slf):
    """t denotes (an element of) the state attribute as it was before the write."""
    while True:
        t = strip_shape(t)
        if t in CUR.get(attr, ()):
            return True
        if t.op == "phi":
            return old_value(t.a[1], attr, slf) and old_value(t.a[2], attr, slf)
        if t.op == "attr" and t.a[0] is slf and t.a[1] == attr:
            return True
        if t.op == "sub" or t.op == "update":
            t = t.a[0]
            continue
        if t.op in ("carry", "loopout"):
            # value carried through a loop: judged by the stores themselves
            t = t.a[-1] if t.op == "carry" else t.a[1]
            continue
        return False


def latent_only(mask, observed):
    try:
        return implies(boolform(mask), NOT(ATOM(observed)))
    except ValueError:
        return None


def preserving(v, attr, slf, depth=0):
    """True: equal to the old content on observed plates; False: not; None: unknown."""
    obs = mk("attr", slf, "observed")
    v = strip_shape(v)
    if depth > 40:
        return None
    if v.op == "call" and v.a[0] == "np.where" and len(v.a[1]) == 3:
        c, x, y = v.a[1]
        lc = latent_only(c, obs)
        if lc:
            return preserving(y, attr, slf, depth + 1)
        if implies_safe(NOT(boolform(c)), NOT(ATOM(obs))):
            return preserving(x, attr, slf, depth + 1)
        return both(preserving(x, attr, slf, depth + 1), preserving(y, attr, slf, depth + 1))
    if v.op == "masked":
        w, new, old = v.a
        p_old = preserving(old, attr, slf, depth + 1)
        if latent_only(w, obs):
            return p_old
        return both(p_old, preserving(new, attr, slf, depth + 1))
    if v.op == "phi":
        return both(preserving(v.a[1], attr, slf, depth + 1),
                    preserving(v.a[2], attr, slf, depth + 1))
    if v.op in ("list", "tuple"):
        r = True
        for x in v.a:
            if x.op == "each":
                r = both(r, preserving(x.a[1], attr, slf, depth + 1))
            else:
                r = both(r, preserving(x, attr, slf, depth + 1))
        return r
    if v.op == "update":
        base, idx, val = v.a
        if old_value(base, attr, slf) and base.op == "attr":
            return preserving(val, attr, slf, depth + 1)
        # element-wise masked update x[mask] = new
        return both(preserving(base, attr, slf, depth + 1),
                    True if latent_only(idx, obs) else
                    preserving(val, attr, slf, depth + 1))
    if old_value(v, attr, slf):
        return True
    if v.op == "loopout":
        return both(preserving(v.a[1], attr, slf, depth + 1),
                    preserving(v.a[2], attr, slf, depth + 1))
    if v.op == "sub":
        # selecting an element of a list whose elements all preserve
        inner = preserving(v.a[0], attr, slf, depth + 1)
        if inner:
            return True
        if inner is None:
            return None
    # A fresh value.  Only an unknown helper that is handed the old state may
    # still preserve it.
    for x in subterms(v):
        if x.op in ("call", "mcall"):
            nm = x.a[0]
            args = x.a[1] if x.op == "call" else x.a[2] + (x.a[1],)
            gets_old = any(old_value(y, attr, slf) for y in args)
            if gets_old and not (x.op == "call" and nm.startswith(KNOWN_PURE)):
                if x.op == "mcall" and nm in ("copy", "reshape", "dot", "sum", "T"):
                    continue
                return None
    if v.op in ("undef", "opaque", "kwget"):
        return None
    return False


def implies_safe(f, g):
    try:
        return implies(f, g)
    except ValueError:
        return False


def both(a, b):
    if a is False or b is False:
        return False
    if a is None or b is None:
        return None
    return True


def state_root(t, slf):
    """attr name if the mutated object is (part of) the node's stored state."""
    seen = 0
    while seen < 60:
        seen += 1
        if t.op == "attr" and t.a[0] is slf:
            return t.a[1] if t.a[1] in STATE else None
        if t.op in ("sub", "update", "masked"):
            t = t.a[0] if t.op != "masked" else t.a[2]
        elif t.op == "call" and t.a[0] in SHAPE_CALLS and t.a[1] and \
                t.a[0] not in ("np.copy", "np.array"):
            t = t.a[1][0]
        elif t.op in ("carry",):
            t = t.a[-1]
        elif t.op == "loopout":
            t = t.a[1]
        elif t in CUR.get("u", ()):
            return "u"
        elif t.op == "phi":
            return state_root(t.a[1], slf) or state_root(t.a[2], slf)
        else:
            return None
    return None


def observable(p, cls):
    m = p.find_method(cls, "observe")
    if m is None:
        return False
    try:
        b = build(p, cls.name, "observe",
                  Policy(opaque=OPAQUE | {"_set_moments"}, opaque_funcs=opaque_utils(p)))
    except Exception:
        return True
    return any(e.kind == "store" and e.extra == "observed" for e in b.effects)


def run(ctx):
    p = ctx.p
    ctx.rule("masked-store", "every write to u/g/f by an inference operation keeps the old "
             "content on observed plates", floor=12)
    ctx.rule("observed-writer", "`observed` is written only by the observation protocol "
             "(observe, unobserve, load, construction)", floor=3)
    ctx.rule("mask-axes", "a plate mask that guards moment i is extended by exactly the "
             "number of variable axes of moment i", floor=1)
    ctx.rule("observe-writes", "observe writes exactly the plates it marks as observed, with "
             "the fixed moments of the data", floor=3)
    ctx.rule("axes", "state of any exponential-family node after the operation, as arrays", floor=100)
    scen.prepare(ctx)
    famp01.run(ctx)
    ctx.assumptions = [
        "moment arrays are not aliased by user code outside the library",
        "shape helpers of bayespy.utils.misc change shapes, not values (their own "
        "contracts are not part of this property)"]
    funcs = opaque_utils(p)
    done = {}
    for c in node_classes(p, "Stochastic"):
        if not observable(p, c):
            continue
        names = set()
        for k in p.mro(c):
            names |= set(k.methods)
        for name in sorted(names):
            if name.startswith("_") or name in PROTOCOL:
                continue
            m = p.find_method(c, name)
            if m.kind != "plain" or m.cls.name == "Node":
                continue
            # the same code with the same dispatch is analysed once
            with ctx.guard("masked-store", "%s.%s" % (c.name, name)):
                b = build(p, c.name, name, Policy(opaque=OPAQUE, opaque_funcs=funcs,
                                                attr_types=dist_types(p, c)))
                ctx.saw(b)
                check_entry(ctx, b, c, name, done)
    for c in node_classes(p, "Stochastic"):
        if observable(p, c):
            m = p.find_method(c, "observe")
            key = ("obs", m.where)
            if key in done:
                continue
            done[key] = 1
            with ctx.guard("observe-writes", m.qual):
                check_observe(ctx, c, m, funcs)
    who_writes(ctx)


def is_latent_guard(e, slf):
    obs = mk("attr", slf, "observed")
    anyobs = [mk("call", "np.any", (obs,), ()), mk("mcall", "any", obs, (), ())]
    g = guard_form(e.guards)
    return any(implies_safe(g, NOT(ATOM(a))) for a in anyobs)


def check_entry(ctx, b, c, name, done):
    slf = self_of(c)
    CUR.clear()
    for e in b.effects:
        if e.kind not in ("store", "mutate"):
            continue
        if e.kind == "store":
            if e.target is not slf:
                continue
            if e.extra == "observed":
                key = ("ow", e.func.where, e.line)
                if key not in done:
                    done[key] = 1
                    ctx.bad("observed-writer", "%s via %s" % (e.func.qual, name),
                            "inference operation writes `observed` = %s"
                            % str(e.value)[:120], e.where)
                continue
            if e.extra not in STATE:
                continue
            attr = e.extra
            r = preserving(e.value, attr, slf)
            what = "self.%s = %s" % (attr, str(e.value)[:200])
        else:
            attr = state_root(e.target, slf) if isinstance(e.target, T) else None
            if attr is None:
                continue
            x = e.extra
            if x[0] == "set":
                base = e.target
                if attr in ("u",) and base_depth(base, slf) == 0:
                    r = preserving(e.value, attr, slf)       # self.u[i] = V
                else:                                          # self.u[i][k] = V
                    r = True if latent_only(x[1], mk("attr", slf, "observed")) else \
                        preserving(e.value, attr, slf)
                what = "%s[%s] = %s" % (str(base)[:60], str(x[1])[:40], str(e.value)[:160])
            elif x[0] == "np.copyto":
                w = x[2].get("where")
                r = bool(w is not None and latent_only(w, mk("attr", slf, "observed"))) or \
                    preserving(e.value, attr, slf)
                what = "copyto(%s, where=%s)" % (str(e.target)[:60], str(w)[:160])
                if w is not None:
                    axes_rule(ctx, e, w, slf, done)
            else:
                r = False
                what = "in-place %s on stored %s" % (x[:2], attr)
        if r is not True and is_latent_guard(e, slf):
            r = True
        CUR.setdefault(attr, set()).add(e.value if e.kind == "store" else e.target)
        # key: the operation and the state it writes
        con = "%s.%s:%s" % (definer(ctx.p, c, name), name, attr)
        key = (con, e.line, r)
        if key in done:
            continue
        done[key] = 1
        ctx.verdict("masked-store", con, r, "write does not keep observed content: " + what,
                    e.where)


def definer(p, c, name):
    return p.find_method(c, name).cls.name


def base_depth(t, slf):
    """0 if t is the list self.u itself, otherwise > 0."""
    while t.op in ("update", "carry", "loopout"):
        t = t.a[0] if t.op == "update" else (t.a[-1] if t.op == "carry" else t.a[1])
    return 0 if (t.op == "attr" and t.a[0] is slf) else 1


def axes_rule(ctx, e, w, slf, done):
    """where=add_trailing_axes(mask, n): n must be ndims of the same moment."""
    t = w
    if not (t.op == "call" and t.a[0] == "misc.add_trailing_axes" and len(t.a[1]) == 2):
        return
    n = t.a[1][1]
    # index of the moment that is written
    idx = None
    x = e.target
    for s in subterms(x):
        if s.op == "sub" and s.a[0].op == "attr" and s.a[0].a[0] is slf and s.a[0].a[1] == "u":
            idx = s.a[1]
            break
    if idx is None:
        return
    good = {mk("sub", mk("attr", slf, "ndims"), idx),
            mk("call", "len", (mk("sub", mk("attr", slf, "dims"), idx),), ())}
    con = "%s:%s" % (e.func.qual, "where")
    if ("ax", con, e.line) in done:
        return
    done[("ax", con, e.line)] = 1
    def related(n):
        return any(y.op == "attr" and y.a[1] in ("ndims", "dims") for y in subterms(n)) \
            or is_const(n)
    if n in good:
        ctx.ok("mask-axes", con, "", e.where)
    elif related(n) and n.op in ("sub", "const", "call", "bin"):
        ctx.bad("mask-axes", con, "plate mask of moment %s extended by %s axes"
                % (idx, str(n)[:100]), e.where)
    else:
        ctx.und("mask-axes", con, str(n)[:100], e.where)


def check_observe(ctx, c, m, funcs):
    p = ctx.p
    b = build(p, c.name, "observe", Policy(opaque=OPAQUE, opaque_funcs=funcs))
    ctx.saw(b)
    slf = self_of(c)
    con = m.qual
    obs = [e for e in b.effects if e.kind == "store" and e.extra == "observed"
           and e.target is slf]
    if not obs:
        ctx.und("observe-writes", con, "no store to observed found")
        return
    mark = boolform(obs[-1].value)
    e = obs[-1]
    mask = param("mask")
    try:
        eq = equivalent(mark, ATOM(mask))
    except ValueError:
        eq = None
    if eq is False and not any(x is mask for x in subterms(e.value)) and \
            not is_const(e.value):
        eq = None
    ctx.verdict("observe-writes", con + ":observed", eq,
                "plates marked observed are %s, not the given mask" % str(e.value)[:120],
                e.where)
    for e in b.effects:
        if e.kind == "mutate" and isinstance(e.target, T) and \
                state_root(e.target, slf) == "u" and e.extra[0] == "np.copyto":
            w = e.extra[2].get("where")
            # every plate marked observed must have been written
            if w is None:
                ctx.ok("observe-writes", con + ":u", "", e.where)
                continue
            try:
                r = implies(mark, boolform(w)) and implies(boolform(w), mark)
            except ValueError:
                r = None
            ctx.verdict("observe-writes", con + ":u", r, "plates written %s differ from "
                        "plates marked observed %s" % (str(w)[:100], str(obs[-1].value)[:60]),
                        e.where)
            ok = contains(e.value, lambda t: t.op == "mcall" and
                          t.a[0].startswith("compute_fixed_moments"))
            ctx.verdict("observe-writes", con + ":value", True if ok else None,
                        "stored value is not the fixed moments of the data", e.where)
        if e.kind == "store" and e.extra == "f" and e.target is slf:
            v = e.value
            r = None
            if v.op == "call" and v.a[0] == "np.where" and len(v.a[1]) == 3:
                w = boolform(v.a[1][0])
                try:
                    r = implies(mark, w)
                except ValueError:
                    r = None
            elif v.op != "phi":
                r = True
            ctx.verdict("observe-writes", con + ":f", r, "observation term f written on %s"
                        % str(v)[:120], e.where)


def who_writes(ctx):
    """Syntactic who-may-write scan over the whole package (resolved receivers)."""
    import ast
    p = ctx.p
    n = 0
    for m in p.modules.values():
        if m.name in OBSOLETE:
            continue
        for fn in ast.walk(m.tree):
            if not isinstance(fn, ast.FunctionDef):
                continue
            for st in ast.walk(fn):
                tg = []
                if isinstance(st, ast.Assign):
                    tg = st.targets
                elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
                    tg = [st.target]
                for t in tg:
                    base = t
                    while isinstance(base, ast.Subscript):
                        base = base.value
                    if isinstance(base, ast.Attribute) and base.attr == "observed":
                        n += 1
                        ok = fn.name in PROTOCOL
                        where = "%s:%d (%s)" % (m.rel, st.lineno, fn.name)
                        if ok:
                            ctx.ok("observed-writer", "%s:%s" % (m.rel, fn.name), "", where)
                        else:
                            # helpers reached only from the protocol are fine
                            callers = callers_of(p, fn.name)
                            if callers and callers <= PROTOCOL:
                                ctx.ok("observed-writer", "%s:%s" % (m.rel, fn.name), "", where)
                            else:
                                ctx.bad("observed-writer", "%s:%s" % (m.rel, fn.name),
                                        "`observed` written outside the observation protocol",
                                        where)


def callers_of(p, name):
    import ast
    out = set()
    for m in p.modules.values():
        for fn in ast.walk(m.tree):
            if isinstance(fn, ast.FunctionDef):
                for c in ast.walk(fn):
                    if isinstance(c, ast.Call):
                        f = c.func
                        if (isinstance(f, ast.Attribute) and f.attr == name) or \
                                (isinstance(f, ast.Name) and f.id == name):
                            if fn.name != name:
                                out.add(fn.name)
    return out

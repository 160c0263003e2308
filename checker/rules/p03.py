"""P03: saving and loading restore the whole inference state.

Sibling agreement between writer and reader, plus coverage of the mutated state:
 roundtrip   every dataset written from attribute A under key K is read from K
             back into A, and every dataset read was written (same key pattern,
             same element, complete index range);
 coverage    every attribute that inference mutates on a node/VB object is saved
             or is recomputed from saved state when loading;
 handles     every HDF5 file opened is closed on all exits, written with a
             truncating mode when saving and read-only when loading;
 dispatch    a node is saved exactly when it is loaded (same capability test).
"""
from vg import *
from forms import *
from common import *

MUT = "self"


def key_parts(k):
    """Normalise a key expression to a tuple of literal and variable parts."""
    if k is None:
        return None
    if is_const(k):
        return (str(k.a[0]),)
    if k.op == "bin" and k.a[0] == "%":
        if not is_const(k.a[1]):
            return (k,)
        fmt = k.a[1].a[0]
        args = list(k.a[2].a) if k.a[2].op == "tuple" else [k.a[2]]
        out, i = [], 0
        import re
        for piece in re.split(r"(%[ds])", fmt):
            if piece in ("%d", "%s"):
                if not args:
                    return (k,)
                out.append(args.pop(0))
            elif piece:
                out.append(piece)
        return tuple(out)
    if k.op == "bin" and k.a[0] == "+":
        a, b = key_parts(k.a[1]), key_parts(k.a[2])
        return join(a + b)
    if k.op == "call" and k.a[0] in ("str", "repr") and len(k.a[1]) == 1:
        return (k.a[1][0],)
    if k.op == "mcall" and k.a[0] == "format" and is_const(k.a[1]):
        import re
        fmt = k.a[1].a[0]
        args = list(k.a[2])
        out = []
        for piece in re.split(r"(\{[^}]*\})", fmt):
            if piece.startswith("{"):
                idx = piece[1:-1].split(":")[0]
                if idx.isdigit() and int(idx) < len(args):
                    out.append(args[int(idx)])
                elif idx == "" and args:
                    out.append(args.pop(0))
                else:
                    return (k,)
            elif piece:
                out.append(piece)
        return join(tuple(out))
    if k.op in ("fstr", "joined", "JoinedStr", "fstring"):
        out = []
        for x in k.a:
            if isinstance(x, tuple):
                for y in x:
                    out.extend(key_parts(y) if isinstance(y, T) else [str(y)])
            elif isinstance(x, T):
                out.extend(key_parts(x))
            else:
                out.append(str(x))
        return join(tuple(out))
    return (k,)


def join(parts):
    out = []
    for x in parts:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return tuple(out)


def full_slice(s):
    return s.op == "slice" and s.a[0] in (NONE, const(0)) and s.a[1] is NONE and \
        s.a[2] in (NONE, const(1))


def strip_read(t):
    """Value wrappers that keep the data: [...], [()], np.array, int, bool, float."""
    while True:
        t2 = strip_shape(t)
        if t2.op == "sub" and (t2.a[1] in (ELL,) or (t2.a[1].op == "tuple" and not t2.a[1].a)
                               or full_slice(t2.a[1])):
            t2 = t2.a[0]
        if t2.op == "mcall" and t2.a[0] in ("item", "copy", "tolist"):
            t2 = t2.a[1]
        if t2.op == "call" and t2.a[0] in ("int", "bool", "float", "np.asarray", "np.array",
                                          "np.bool_", "np.int_") and len(t2.a[1]) == 1:
            t2 = t2.a[1][0]
        if t2 is t:
            return t
        t = t2


def access(t, slf):
    """('u', idx) / ('f', None) for an access path of self, else None."""
    t = strip_shape(t)
    if t.op == "attr" and t.a[0] is slf:
        return (t.a[1], None)
    if t.op == "sub" and t.a[0].op == "attr" and t.a[0].a[0] is slf:
        return (t.a[0].a[1], t.a[1])
    return None


def loops(e):
    return tuple(g[1] for g in e.guards if g[0] == "loop")


def writes(b, slf):
    """(key parts, access, group, effect)"""
    for e in b.effects:
        if e.kind == "call" and e.extra and len(e.extra) == 3:
            args, kw = e.extra[0], e.extra[1]
            name = e.target.a[0] if e.target.op == "name" else e.target.a[1] \
                if e.target.op == "bound" else ""
            if name == "misc.write_to_hdf5":
                a = list(args) + [None] * 3
                group = kw.get("group", a[0])
                data = kw.get("data", a[1])
                nm = kw.get("name", a[2])
                yield key_parts(nm), data, group, e
            elif name == "create_dataset" and e.target.op == "bound":
                a = list(args) + [None] * 3
                yield key_parts(kw.get("name", a[0])), kw.get("data"), e.target.a[0], e
        elif e.kind == "mutate" and e.extra and e.extra[0] == "set" and \
                isinstance(e.target, T):
            t = e.target
            if t.op == "param" and t.a[0] == "group" or is_h5(t):
                yield key_parts(e.extra[1]), e.value, t, e


def is_h5(t):
    while True:
        if t.op == "call" and t.a[0] in ("h5py.File",):
            return True
        if t.op == "mcall" and t.a[0] in ("create_group", "require_group"):
            t = t.a[1]
        elif t.op == "sub":
            t = t.a[0]
        elif t.op == "carry":
            t = t.a[-1]
        else:
            return False


def group_path(t):
    """Path of group keys below the file / group parameter."""
    path = []
    while True:
        if t.op == "call" and t.a[0] == "h5py.File" or t.op == "param":
            return tuple(reversed(path))
        if t.op == "mcall" and t.a[0] in ("create_group", "require_group") and t.a[2]:
            path.append(key_parts(t.a[2][0]))
            t = t.a[1]
        elif t.op == "sub":
            path.append(key_parts(t.a[1]))
            t = t.a[0]
        elif t.op == "carry":
            t = t.a[-1]
        else:
            return None


def reads(b, slf):
    """(key parts, destination access, path, effect, faithful)"""
    for e in b.effects:
        if e.kind == "store" and e.target is slf:
            dest = (e.extra, None)
        elif e.kind == "mutate" and e.extra and e.extra[0] == "set" and \
                isinstance(e.target, T):
            t = e.target
            while t.op in ("update", "carry", "loopout"):
                t = t.a[0] if t.op == "update" else t.a[-1] if t.op == "carry" else t.a[1]
            if not (t.op == "attr" and t.a[0] is slf):
                continue
            dest = (t.a[1], e.extra[1])
        else:
            continue
        v = e.value
        # list built by comprehension: self.u = [group['u%d'%i][...] for i in range(..)]
        if v.op in ("list", "tuple") and len(v.a) == 1 and v.a[0].op == "each":
            x = v.a[0]
            s = strip_read(x.a[1])
            if s.op == "sub" and from_file(s):
                ix = [y for y in subterms(s) if y.op == "ix"]
                yield (key_parts(s.a[1]), (dest[0], ix[0] if ix else None), group_path(s.a[0]),
                       e, True, (x.a[0],))
                continue
        for c, conds in branches(v):
            s = strip_read(c)
            if s.op == "sub" and from_file(s):
                yield key_parts(s.a[1]), dest, group_path(s.a[0]), e, True, loops(e)
            elif s.op == "mcall" and s.a[0] == "get" and from_file(s.a[1]) and s.a[2]:
                yield key_parts(s.a[2][0]), dest, group_path(s.a[1]), e, True, loops(e)
            elif any(from_file(x) for x in subterms(c) if x.op == "sub"):
                fs = [x for x in subterms(c) if x.op == "sub" and from_file(x)
                      and not is_const_index(x)]
                if fs:
                    yield key_parts(fs[0].a[1]), dest, group_path(fs[0].a[0]), e, False, loops(e)


def is_const_index(x):
    return x.a[1] is ELL or x.a[1].op in ("tuple", "slice")


def from_file(t):
    while t.op in ("sub", "mcall", "carry"):
        t = t.a[0] if t.op == "sub" else (t.a[1] if t.op == "mcall" else t.a[-1])
    return t.op == "call" and t.a[0] == "h5py.File" or (t.op == "param" and t.a[0] == "group")


def norm_parts(parts):
    return tuple(("ix",) if isinstance(x, T) and x.op == "ix" else
                 (("t", x.id) if isinstance(x, T) else x) for x in parts)


def show_key(parts):
    return "".join(x if isinstance(x, str) else "<%s>" % str(x)[:40] for x in parts)


def norm_acc(a):
    if a is None:
        return None
    return (a[0], None if a[1] is None else ("ix",) if a[1].op == "ix" else ("t", a[1].id))


def full_range(dom, slf, attr):
    """Domain covers all elements of self.<attr>."""
    for d in dom:
        if d.op == "call" and d.a[0] == "range" and len(d.a[1]) == 1:
            x = d.a[1][0]
            if x.op == "call" and x.a[0] == "len" and len(x.a[1]) == 1:
                y = x.a[1][0]
                if y.op == "attr" and y.a[0] is slf and y.a[1] in (attr, "dims", "u", "phi",
                                                                   "ndims"):
                    return True
            return False
        s = strip_shape(d)
        if s.op == "attr" and s.a[0] is slf and s.a[1] in (attr, "dims", "u", "phi", "ndims"):
            return True
        if d.op == "call" and d.a[0] in ("enumerate", "zip"):
            return any(full_range((x,), slf, attr) is True for x in d.a[1]) or None
    return None


def run(ctx):
    p = ctx.p
    ctx.rule("roundtrip", "datasets written and read agree: same key, same attribute element, "
             "unmodified value, all elements", floor=10)
    ctx.rule("coverage", "every attribute mutated by inference is saved, or rebuilt from saved "
             "state on load", floor=8)
    ctx.rule("handles", "opened HDF5 files are closed on every exit; save truncates, load is "
             "read-only", floor=3)
    ctx.rule("dispatch", "save and load of a model treat the same nodes: same capability, same "
             "group and name", floor=1)
    ctx.assumptions = ["h5py stores and returns numeric arrays unchanged"]
    funcs = opaque_utils(p)
    seen = set()
    for c in node_classes(p, "Stochastic"):
        s, l = p.find_method(c, "_save"), p.find_method(c, "_load")
        if s is None or l is None:
            ctx.bad("roundtrip", c.name, "class has no _save/_load pair")
            continue
        key = (s.where, l.where)
        with ctx.guard("roundtrip", c.name):
            bs = build(p, c.name, "_save", Policy(opaque={"_update_mask"}, opaque_funcs=funcs))
            bl = build(p, c.name, "_load", Policy(opaque={"_update_mask"}, opaque_funcs=funcs))
            ctx.saw(bs)
            ctx.saw(bl)
            if key not in seen:
                agree(ctx, bs, bl, self_of(c), "%s/%s" % (s.qual, l.qual))
            seen.add(key)
            coverage(ctx, c, bs, bl, funcs)
    from rules.p02 import check_refresh
    ctx.rule("refresh", "after the observation pattern is read the masks are recomputed", floor=1)
    done = set()
    for c in node_classes(p, "Stochastic"):
        m = p.find_method(c, "_load")
        if m is None or m.where in done:
            continue
        done.add(m.where)
        with ctx.guard("refresh", m.qual):
            b = build(p, c.name, "_load", Policy(opaque={"_update_mask"}, opaque_funcs=funcs))
            if stores(b, self_of(c), "observed"):
                check_refresh(ctx, b, c, m, "_load")
    with ctx.guard("roundtrip", "VB"):
        vb(ctx, funcs)
    for cn, mn, mode in (("Stochastic", "save", "w"), ("Stochastic", "load", "r"),
                         ("VB", "save", "w"), ("VB", "load", "r"),
                         ("VB", "load_user_data", "r")):
        with ctx.guard("handles", cn + "." + mn):
            b = build(p, cn, mn, Policy(opaque={"_save", "_load"}, opaque_funcs=funcs))
            handles(ctx, b, "%s.%s" % (cn, mn), mode)
    with ctx.guard("roundtrip", "misc.write_to_hdf5"):
        writer(ctx)
    ctx.rule("autosave", "the automatic save happens after every state change of the iteration",
             floor=1)
    with ctx.guard("autosave", "VB._end_iteration_step"):
        autosave(ctx, funcs)


def agree(ctx, bs, bl, slf, con):
    W = {}
    for k, data, group, e in writes(bs, slf):
        if k is None or data is None:
            ctx.und("roundtrip", con, "write not understood", e.where)
            continue
        acc = access(data, slf)
        # list comprehension element or loop element
        W[norm_parts(k)] = (k, acc, e, data)
    R = {}
    for k, dest, path, e, faithful, lp in reads(bl, slf):
        R.setdefault(norm_parts(k), (k, dest, e, faithful, lp))
    for nk, (k, acc, e, data) in W.items():
        c = "%s[%s]" % (con, show_key(k))
        if nk not in R:
            base = [r for r in R if r and nk and r[0] == nk[0]]
            ctx.bad("roundtrip", c, "written from %s but never read back" % str(data)[:80],
                    e.where)
            continue
        rk, dest, re, faithful, rl = R[nk]
        if acc is None:
            r = None if isinstance(data, T) and not contains(data, lambda x: x is slf) else False
            ctx.verdict("roundtrip", c, r, "the stored value %s is not the state itself"
                        % str(data)[:100], e.where)
            continue
        if not faithful:
            ctx.bad("roundtrip", c, "value is changed while loading: %s" % str(re.value)[:100],
                    re.where)
            continue
        if norm_acc(acc) != norm_acc(dest):
            # element destination through enumerate etc.
            if acc[0] == dest[0] and (acc[1] is None) != (dest[1] is None):
                ctx.und("roundtrip", c, "element mapping not understood", re.where)
            else:
                ctx.bad("roundtrip", c, "written from self.%s%s but loaded into self.%s%s"
                        % (acc[0], "" if acc[1] is None else "[%s]" % acc[1], dest[0],
                           "" if dest[1] is None else "[%s]" % dest[1]), re.where)
            continue
        if acc[1] is not None and acc[1].op == "ix":
            a = full_range(loops(e), slf, acc[0])
            b2 = full_range(rl, slf, acc[0])
            if a is False or b2 is False:
                ctx.bad("roundtrip", c, "not all elements of self.%s are covered (%s / %s)"
                        % (acc[0], str(loops(e))[:80], str(rl)[:80]), e.where)
                continue
        conds = [g for g in e.guards if isinstance(g[1], bool)]
        rconds = [g for g in re.guards if isinstance(g[1], bool)]
        if conds and not rconds:
            c2 = "%s unconditional read" % c
        ctx.ok("roundtrip", c, "", e.where)
    for nk, (k, dest, e, f, rl) in R.items():
        if nk not in W:
            g = [x for x in e.guards if x[0] in ("trybody",) or isinstance(x[1], bool)]
            ctx.verdict("roundtrip", "%s[%s]" % (con, show_key(k)), None if g else False,
                        "read into self.%s but never written" % dest[0], e.where)


INFERENCE = ("update", "observe", "unobserve", "set_parameters", "initialize_from_value",
             "initialize_from_prior", "initialize_from_random", "initialize_from_parameters",
             "initialize_from_mean_and_covariance", "rotate", "translate", "rotate_plates",
             "rotate_matrix", "observe_limits")
# attributes recomputed from saved state when loading, with the reason
DERIVED = {"mask": "recomputed by the mask update when `observed` is loaded",
           "__plates_multiplier": "configuration"}


def attrs_saved(bs, slf):
    out = set()
    for k, data, group, e in writes(bs, slf):
        if isinstance(data, T):
            for x in subterms(data):
                if x.op == "attr" and x.a[0] is slf:
                    out.add(x.a[1])
    return out


def coverage(ctx, c, bs, bl, funcs):
    p = ctx.p
    slf = self_of(c)
    saved = attrs_saved(bs, slf)
    loaded = {dest[0] for k, dest, path, e, f, l in reads(bl, slf)}
    written = {}
    for name in INFERENCE:
        m = p.find_method(c, name)
        if m is None or m.kind != "plain":
            continue
        try:
            b = build(p, c.name, name, Policy(
                opaque={"_update_mask", "_message_from_parents", "_message_from_children",
                        "compute_moments_and_cgf", "compute_phi_from_parents",
                        "compute_fixed_moments", "compute_fixed_moments_and_f", "_check_shape"},
                opaque_funcs=funcs))
        except Exception as err:
            ctx.und("coverage", "%s.%s" % (c.name, name), str(err)[:100])
            continue
        ctx.saw(b)
        for e in b.effects:
            a = None
            if e.kind == "store" and e.target is slf:
                a = e.extra
            elif e.kind == "mutate" and isinstance(e.target, T):
                t = e.target
                while t.op in ("update", "sub", "carry", "masked"):
                    t = t.a[2] if t.op == "masked" else t.a[-1] if t.op == "carry" else t.a[0]
                if t.op == "attr" and t.a[0] is slf:
                    a = t.a[1]
            if a:
                written.setdefault(a, (name, e))
    for a, (name, e) in sorted(written.items()):
        if a in DERIVED or a.lstrip("_") in DERIVED:
            continue
        con = "%s.%s" % (e.func.cls.name if e.func.cls else c.name, a)
        if a in saved and a in loaded:
            ctx.ok("coverage", con, "", e.where)
        else:
            ctx.bad("coverage", con, "self.%s is changed by %s but %s" % (
                a, name, "not saved" if a not in saved else "not restored by loading"), e.where)


VB_STATE = {"L": "lower bound history", "cputime": "time history", "iter": "iteration counter",
            "converged": "convergence flag", "l": "per-node bound history",
            "callback_output": "callback history"}


def vb(ctx, funcs):
    p = ctx.p
    slf = self_of("VB")
    bs = build(p, "VB", "save", Policy(opaque={"_save", "_load", "__getitem__"},
                                       opaque_funcs=funcs))
    bl = build(p, "VB", "load", Policy(opaque={"_save", "_load", "__getitem__"},
                                       opaque_funcs=funcs))
    ctx.saw(bs)
    ctx.saw(bl)
    W = {}
    for k, data, group, e in writes(bs, slf):
        if k is None or data is None:
            continue
        path = group_path(group)
        W.setdefault(top(k, path), []).append((k, data, path, e))
    R = {}
    for k, dest, path, e, f, lp in reads(bl, slf):
        R.setdefault(dest[0], []).append((k, path, e, f))
    for attr, what in VB_STATE.items():
        con = "VB.%s" % attr
        ws = [(kk, x) for kk, lst in W.items() for x in lst
              if isinstance(x[1], T) and acc_attr(x[1], slf) == attr]
        rs = R.get(attr, [])
        if not ws:
            any_w = any(contains(x[1], lambda t: t.op == "attr" and t.a[0] is slf and
                                 t.a[1] == attr)
                        for lst in W.values() for x in lst if isinstance(x[1], T))
            ctx.verdict("roundtrip", con, False if not any_w else False,
                        "%s is not saved%s" % (what, " unmodified" if any_w else ""))
            continue
        if not rs:
            ctx.bad("roundtrip", con, "%s is saved but not loaded" % what, ws[0][1][3].where)
            continue
        wk = {kk for kk, _ in ws}
        rk = {top(k, path) for k, path, e, f in rs}
        if None in rk or None in wk:
            ctx.und("roundtrip", con, "group path not understood")
        elif wk != rk:
            ctx.bad("roundtrip", con, "%s is written under %s but read from %s"
                    % (what, sorted(map(str, wk)), sorted(map(str, rk))), rs[0][2].where)
        elif not all(f for _, _, _, f in rs):
            ctx.bad("roundtrip", con, "%s is changed while loading" % what, rs[0][2].where)
        elif attr == "l" and False in [all_nodes(e, slf) for e in
                                       [x[3] for _, x in ws] + [x[2] for x in rs]]:
            ctx.bad("roundtrip", con, "%s is not treated for all the nodes" % what,
                    rs[0][2].where)
        else:
            conds = [g for g in ws[0][1][3].guards if isinstance(g[1], bool) and
                     not (contains(g[0], lambda t: t.op == "attr" and t.a[1] == attr))]
            if conds:
                ctx.bad("roundtrip", con, "%s is saved only under %s" % (what, str(conds)[:120]),
                        ws[0][1][3].where)
            else:
                ctx.ok("roundtrip", con, "", ws[0][1][3].where)
    # dispatch
    sv = [e for e in bs.effects if e.kind == "call" and e.target.op == "bound" and
          e.target.a[1] == "_save"]
    ld = [e for e in bl.effects if e.kind == "call" and e.target.op == "bound" and
          e.target.a[1] == "_load"]
    if not sv or not ld:
        ctx.bad("dispatch", "VB.save/VB.load", "nodes are not %s" % ("saved" if not sv else
                                                                     "loaded"))
        return
    gs = group_path(sv[0].extra[0][0]) if sv[0].extra[0] else None
    gl = group_path(ld[0].extra[0][0]) if ld[0].extra[0] else None
    if gs is None or gl is None:
        ctx.und("dispatch", "VB.save/VB.load", "group path not understood")
    else:
        ok = len(gs) == len(gl) and all(same_key(a, b) for a, b in zip(gs, gl))
        ctx.verdict("dispatch", "VB.save/VB.load:group", ok, "nodes are saved under %s but "
                    "loaded from %s" % ([show_key(x) for x in gs], [show_key(x) for x in gl]),
                    ld[0].where)
        own = gs and any(isinstance(x, T) and x.op == "attr" and x.a[1] == "name" and
                         x.a[0] is sv[0].target.a[0] for x in gs[-1])
        ctx.verdict("dispatch", "VB.save:name", True if own else None,
                    "group is not named by the node", sv[0].where)
    # every node argument reaches the save call: only the capability test guards it
    for nm, e in (("save", sv[0]), ("load", ld[0])):
        node = e.target.a[0]
        bad = []
        for c, v in conds_of(e):
            for a in atoms(boolform(c)):
                if not cap_test((a, v)) and not (a.op == "cmp" and NONE in a.a):
                    bad.append(a)
        state = [a for a in bad if contains(a, lambda x: x.op == "attr" and x.a[0] is node)
                 or not contains(a, lambda x: x.op in ("mcall", "call"))]
        ctx.verdict("dispatch", "VB.%s:guard" % nm, True if not bad else False if state else None,
                    "node is skipped under %s" % [str(a)[:100] for a in bad], e.where)


def all_nodes(e, slf):
    """Does the loop around e visit all the nodes of the model / all the requested ones?"""
    model = mk("attr", slf, "model")
    r = None
    for g in loops_of(e):
        if contains(g[1], lambda x: x is model or x.op == "param"):
            r = whole(g[1], model, param("*nodes"), param("nodes"))
    return r


def cap_test(g):
    c, pos = g
    return contains(c, lambda t: t.op == "call" and t.a[0] in ("hasattr", "callable", "isinstance",
                                                               "getattr")) or \
        contains(c, lambda t: t.op == "attr" and t.a[1] == "name")


def same_key(a, b):
    def n(x):
        return tuple("name" if isinstance(y, T) and y.op == "attr" and y.a[1] == "name" else
                     (y if isinstance(y, str) else "?") for y in x)
    return n(a) == n(b)


def acc_attr(t, slf):
    t = strip_shape(t)
    if t.op == "attr" and t.a[0] is slf:
        return t.a[1]
    if t.op == "sub" and t.a[0].op == "attr" and t.a[0].a[0] is slf:
        return t.a[0].a[1]
    return None


def top(k, path):
    if path is None:
        return None
    out = []
    for x in tuple(path) + (k,):
        out.append(tuple(y if isinstance(y, str) else
                         ("attr." + y.a[1] if y.op == "attr" else "?") for y in x))
    return tuple(out)


def handles(ctx, b, con, mode):
    opens = [e for e in b.effects if e.kind == "call" and e.target.op == "name" and
             e.target.a[0] == "h5py.File"]
    if not opens:
        ctx.und("handles", con, "no h5py.File call")
        return
    for o in opens:
        args, kw = o.extra[0], o.extra[1]
        md = args[1] if len(args) > 1 else kw.get("mode")
        md = md.a[0] if md is not None and is_const(md) else (None if md is not None else "r")
        want = ("w",) if mode == "w" else ("r",)
        if md is not None:
            ctx.verdict("handles", con + ":mode", md in want, "file is opened with mode %r" % md,
                        o.where)
        term = mk("call", "h5py.File", args, tuple(sorted(kw.items())))
        # with-statement
        withs = [e for e in b.effects if e.kind == "withexit" and e.target is term]
        inside = [e for e in b.effects if any(g[0] == "with" and contains(g[1], lambda x: x is term)
                                              for g in e.guards)]
        after = [e for e in b.effects if e.n > o.n and e.kind in ("call", "raise", "store")]
        if withs or inside:
            uses = [e for e in after if uses_file(e, term)]
            out = [e for e in uses if e not in inside]
            ctx.verdict("handles", con, not out if not out else None,
                        "file used outside its with block", o.where)
            continue
        closes = [e for e in b.effects if e.kind == "call" and e.target.op == "bound" and
                  e.target.a[1] == "close" and e.n > o.n]
        fins = {e.extra: e.n for e in b.effects if e.kind == "finally-begin"}
        tids = [g[1] for e in after for g in e.guards if g[0] in ("tryfin",)]
        finclose = [e for e in closes if not any(g[0] == "tryfin" for g in e.guards) and
                    (any(n < e.n for n in fins.values()) or
                     any(g[0] == "finally" for g in e.guards))
                    and not [g for g in e.guards if isinstance(g[1], bool)
                             and g not in o.guards]]
        if not closes:
            ctx.bad("handles", con, "the file is never closed", o.where)
            continue
        if not finclose:
            ctx.bad("handles", con, "the file is not closed when an exception leaves the "
                    "function (or only conditionally)", closes[0].where)
            continue
        # nothing fallible between open and the try
        first_try = [e for e in after if any(g[0] in ("tryfin",) for g in e.guards)]
        lo = first_try[0].n if first_try else finclose[0].n
        gap = [e for e in after if e.n < lo and e.kind in ("call", "raise")
               and uses_file(e, term)]
        ctx.verdict("handles", con, not gap, "the file is used before the protected region",
                    gap[0].where if gap else o.where)


def uses_file(e, term):
    for x in (e.target, e.value):
        if isinstance(x, T) and contains(x, lambda y: y is term):
            return True
    if e.kind == "call" and e.extra:
        for a in e.extra[0]:
            if contains(a, lambda y: y is term):
                return True
    return False


def writer(ctx):
    p = ctx.p
    m = p.modules["bayespy.utils.misc"]
    f = m.funcs.get("write_to_hdf5")
    if f is None:
        ctx.und("roundtrip", "misc.write_to_hdf5", "function not found")
        return
    b = Builder(p, Policy())
    b.run(f)
    ds = [e for e in b.effects if e.kind == "call" and e.target.op == "bound" and
          e.target.a[1] == "create_dataset"]
    if not ds:
        ctx.und("roundtrip", "misc.write_to_hdf5", "no create_dataset call")
        return
    for e in ds:
        data = e.extra[1].get("data", e.extra[0][3] if len(e.extra[0]) > 3 else None)
        nm = e.extra[1].get("name", e.extra[0][0] if e.extra[0] else None)
        ok = data is not None and strip_read(data) is param("data") and nm is param("name") and \
            not ({"dtype", "scaleoffset"} & set(e.extra[1]))
        if data is not None and not ok and any(x.op in ("call", "mcall") and
                                               not x.a[0].startswith("np.")
                                               for x in subterms(data)):
            ok = None
        ctx.verdict("roundtrip", "misc.write_to_hdf5", ok, "dataset written from %s under %s with "
                    "options %s" % (str(data)[:60], str(nm)[:40], sorted(e.extra[1])), e.where)

    # a failed write may not be swallowed: every handler writes or raises
    import ast
    for n in ast.walk(f.node):
        if isinstance(n, ast.ExceptHandler):
            ok = any(isinstance(x, ast.Raise) or
                     (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
                      x.func.attr == "create_dataset") or
                     (isinstance(x, ast.Call) and isinstance(x.func, ast.Name))
                     for st in n.body for x in ast.walk(st))
            ctx.verdict("roundtrip", "misc.write_to_hdf5:handler", ok,
                        "an exception while writing is swallowed", m.rel)


def autosave(ctx, funcs):
    p = ctx.p
    slf = self_of("VB")
    b = build(p, "VB", "_end_iteration_step",
              Policy(opaque={"save", "loglikelihood_lowerbound", "_append_iterations"},
                     opaque_funcs=funcs))
    ctx.saw(b)
    saves = [e for e in b.effects if e.kind == "call" and e.target.op == "bound" and
             e.target.a[1] == "save" and e.target.a[0] is slf]
    if not saves:
        ctx.bad("autosave", "VB._end_iteration_step", "the model is never saved automatically")
        return
    for s in saves:
        late = [e for e in b.effects if e.n > s.n and
                ((e.kind == "store" and e.target is slf and e.extra in VB_STATE) or
                 (e.kind == "mutate" and isinstance(e.target, T) and
                  acc_root(e.target, slf) in VB_STATE) or
                 (e.kind == "call" and e.target.op == "bound" and
                  e.target.a[1] in ("loglikelihood_lowerbound", "_append_iterations")))
                and e not in saves]
        ctx.verdict("autosave", "VB._end_iteration_step", not late,
                    "self.%s changes after the state was saved"
                    % (late[0].extra if late else ""), late[0].where if late else s.where)


def acc_root(t, slf):
    while t.op in ("sub", "update", "carry"):
        t = t.a[-1] if t.op == "carry" else t.a[0]
    return t.a[1] if t.op == "attr" and t.a[0] is slf else None

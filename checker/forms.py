"""Normal forms over value-graph terms: Boolean array formulas and wrappers."""
import itertools
from vg import *

# Operations that only change the shape / broadcasting of an array (or copy it)
SHAPE_CALLS = {
    "misc.add_trailing_axes", "misc.add_leading_axes", "misc.add_axes",
    "misc.repeat_to_shape", "misc.atleast_nd", "np.atleast_1d", "np.atleast_2d",
    "np.atleast_3d", "np.reshape", "np.broadcast_to", "np.tile", "np.copy",
    "np.array", "np.asarray", "np.asanyarray", "np.ascontiguousarray",
    "np.squeeze", "np.expand_dims", "misc.squeeze", "misc.nested_iterator",
    "copy.copy", "copy.deepcopy", "misc.array_to_scalar", "np.ones_like_bool",
}
SHAPE_METHODS = {"copy", "reshape", "squeeze"}


def strip_shape(t):
    """Remove wrappers that do not change element values."""
    while True:
        if t.op == "call" and t.a[0] in SHAPE_CALLS and t.a[1] and \
                not (t.a[0].startswith("np.a") and
                     (len(t.a[1]) > 1 and not t.a[0].startswith("np.at") or
                      any(k == "dtype" for k, _ in t.a[2]))):
            t = t.a[1][0]
        elif t.op == "call" and t.a[0] == "np.broadcast_arrays":
            return t
        elif t.op == "mcall" and t.a[0] in SHAPE_METHODS:
            t = t.a[1]
        elif t.op == "sub" and _is_axes_index(t.a[1]):
            t = t.a[0]
        else:
            return t


def _is_axes_index(i):
    """x[..., None], x[None], x[...]: indexing that only adds axes."""
    items = i.a if i.op == "tuple" else (i,)
    for x in items:
        if x in (ELL, NONE):
            continue
        if x.op == "slice" and all(y is NONE for y in x.a):
            continue
        return False
    return any(x in (ELL, NONE) for x in items)


class BoolForm:
    """Formula: ('atom', t) | ('not', f) | ('and', fs) | ('or', fs) | ('c', b)"""


def boolform(t, depth=0):
    t = strip_shape(t)
    while t.op == "mcall" and t.a[0] == "astype" and t.a[2] and \
            (t.a[2][0].op == "name" and t.a[2][0].a[0] in ("bool", "np.bool_", "np.bool")):
        t = strip_shape(t.a[1])
    if depth > 60:
        return ("atom", t)
    d = depth + 1
    if is_const(t):
        v = t.a[0]
        if isinstance(v, (bool, int)):
            return ("c", bool(v))
        return ("atom", t)
    if t.op == "call":
        n, a, kw = t.a
        if n in ("np.logical_not", "np.invert", "np.bitwise_not") and len(a) == 1 and not kw:
            return ("not", boolform(a[0], d))
        if n in ("np.logical_and", "np.bitwise_and") and len(a) == 2:
            return ("and", (boolform(a[0], d), boolform(a[1], d)))
        if n in ("np.logical_or", "np.bitwise_or") and len(a) == 2:
            return ("or", (boolform(a[0], d), boolform(a[1], d)))
        if n in ("np.logical_xor", "np.not_equal") and len(a) == 2:
            x, y = boolform(a[0], d), boolform(a[1], d)
            return ("or", (("and", (x, ("not", y))), ("and", (("not", x), y))))
        if n == "np.where" and len(a) == 3:
            c, x, y = (boolform(z, d) for z in a)
            return ("or", (("and", (c, x)), ("and", (("not", c), y))))
        if n == "np.multiply" and len(a) == 2:
            return ("and", (boolform(a[0], d), boolform(a[1], d)))
    if t.op == "un" and t.a[0] in ("~", "not"):
        return ("not", boolform(t.a[1], d))
    if t.op == "bin" and t.a[0] in ("&", "*"):
        return ("and", (boolform(t.a[1], d), boolform(t.a[2], d)))
    if t.op == "bin" and t.a[0] == "|":
        return ("or", (boolform(t.a[1], d), boolform(t.a[2], d)))
    if t.op == "bin" and t.a[0] == "^":
        x, y = boolform(t.a[1], d), boolform(t.a[2], d)
        return ("or", (("and", (x, ("not", y))), ("and", (("not", x), y))))
    if t.op == "bin" and t.a[0] == "-" and is_const(t.a[1]) and t.a[1].a[0] in (1, True):
        return ("not", boolform(t.a[2], d))
    if t.op == "cmp" and t.a[0] in ("==", "is") and is_const(t.a[2]):
        if t.a[2].a[0] is False or t.a[2].a[0] == 0:
            return ("not", boolform(t.a[1], d))
        if t.a[2].a[0] is True:
            return boolform(t.a[1], d)
    if t.op == "cmp" and t.a[0] in ("!=", "is not") and is_const(t.a[2]):
        if t.a[2].a[0] is True:
            return ("not", boolform(t.a[1], d))
        if t.a[2].a[0] is False or t.a[2].a[0] == 0:
            return boolform(t.a[1], d)
    if t.op == "and":
        return ("and", tuple(boolform(x, d) for x in t.a))
    if t.op == "or":
        return ("or", tuple(boolform(x, d) for x in t.a))
    if t.op == "phi":
        c, x, y = (boolform(z, d) for z in t.a)
        return ("or", (("and", (c, x)), ("and", (("not", c), y))))
    return ("atom", t)


def atoms(f, out=None):
    if out is None:
        out = []
    if f[0] == "atom":
        if f[1] not in out:
            out.append(f[1])
    elif f[0] == "not":
        atoms(f[1], out)
    elif f[0] in ("and", "or"):
        for x in f[1]:
            atoms(x, out)
    return out


def evalf(f, env):
    if f[0] == "c":
        return f[1]
    if f[0] == "atom":
        return env[f[1]]
    if f[0] == "not":
        return not evalf(f[1], env)
    if f[0] == "and":
        return all(evalf(x, env) for x in f[1])
    return any(evalf(x, env) for x in f[1])


def _envs(*fs):
    at = []
    for f in fs:
        atoms(f, at)
    if len(at) > 12:
        raise ValueError("too many atoms")
    for bits in itertools.product((False, True), repeat=len(at)):
        yield dict(zip(at, bits))


def implies(f, g):
    return all((not evalf(f, e)) or evalf(g, e) for e in _envs(f, g))


def equivalent(f, g):
    return all(evalf(f, e) == evalf(g, e) for e in _envs(f, g))


def unsat(f):
    return not any(evalf(f, e) for e in _envs(f))


def NOT(f):
    return ("not", f)


def AND(*fs):
    return ("and", tuple(fs))


def OR(*fs):
    return ("or", tuple(fs))


def ATOM(t):
    return ("atom", t)


def branches(t, cond=()):
    """The leaves of nested phi terms with their conditions."""
    if t.op == "phi":
        yield from branches(t.a[1], cond + ((t.a[0], True),))
        yield from branches(t.a[2], cond + ((t.a[0], False),))
    else:
        yield t, cond


def guard_form(guards):
    """Boolean guards of an effect as a formula (structured guards ignored)."""
    fs = []
    for g in guards:
        if len(g) == 2 and isinstance(g[1], bool) and isinstance(g[0], T):
            f = boolform(g[0])
            fs.append(f if g[1] else NOT(f))
    return ("and", tuple(fs))

"""Abstract meaning of builtins, numpy, scipy and functools for `absint`."""
import ast
import builtins
import itertools
from fractions import Fraction

import tensor as tn
from tensor import Arr, Num, Body, Unsupported, ShapeError

INF = float("inf")


def A():
    import absint
    return absint


# ------------------------------------------------------------- scalar operations
def is_scalar(x):
    return isinstance(x, (bool, int, float, Fraction, Num))


def pynum(x):
    return isinstance(x, (bool, int, Fraction))


def scalar_bin(op, a, b):
    if pynum(a) and pynum(b):
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            if b == 0:
                raise A().IRaise(ZeroDivisionError("division by zero"))
            return Fraction(a) / Fraction(b)
        if isinstance(op, ast.FloorDiv):
            if b == 0:
                raise A().IRaise(ZeroDivisionError("division by zero"))
            r = a // b
            return int(r)
        if isinstance(op, ast.Mod):
            return a % b
        if isinstance(op, ast.Pow):
            if Fraction(b).denominator == 1:
                return a ** int(b) if (isinstance(a, int) and b >= 0) else Fraction(a) ** int(b)
            return arr_bin(op, a, b)
        if isinstance(op, ast.BitOr):
            return a | b
        if isinstance(op, ast.BitAnd):
            return a & b
        raise Unsupported("operator %s" % type(op).__name__)
    if isinstance(a, float) or isinstance(b, float):
        fa = float(a) if not isinstance(a, Num) else 1.0
        fb = float(b) if not isinstance(b, Num) else 1.0
        try:
            if isinstance(op, ast.Add):
                return fa + fb
            if isinstance(op, ast.Sub):
                return fa - fb
            if isinstance(op, ast.Mult):
                return fa * fb
            if isinstance(op, ast.Div):
                return fa / fb
        except ArithmeticError:
            pass
        raise Unsupported("float arithmetic")
    x, y = tn.to_body(a), tn.to_body(b)
    if isinstance(op, ast.Add):
        return tn.simplify_num(x + y)
    if isinstance(op, ast.Sub):
        return tn.simplify_num(x - y)
    if isinstance(op, ast.Mult):
        return tn.simplify_num(x * y)
    if isinstance(op, ast.Div):
        return tn.simplify_num(x * y.power(-1))
    if isinstance(op, ast.FloorDiv):
        q = x * y.power(-1)
        if q.constant() is not None or q.monomial():
            return tn.simplify_num(q)
        raise Unsupported("symbolic floor division")
    if isinstance(op, ast.Pow) and pynum(b):
        return tn.simplify_num(x.power(b))
    raise Unsupported("symbolic integer operator %s" % type(op).__name__)


def arr_bin(op, a, b):
    if isinstance(op, ast.Add):
        if both_bool(a, b):
            return l_or(a, b)
        return tn.add(a, b)
    if isinstance(op, ast.Sub):
        return tn.sub(a, b)
    if isinstance(op, ast.Mult):
        if both_bool(a, b):
            r = tn.mul(a, b)
            r.dtype = "b"
            return r
        return tn.mul(a, b)
    if isinstance(op, ast.Div):
        return tn.div(a, b)
    if isinstance(op, ast.Pow):
        e = tn.lift(b)
        c = None
        if e.ndim == 0:
            c = e.data[()].constant()
        if c is None:
            raise Unsupported("symbolic exponent")
        return tn.elementwise(lambda x: x.power(c), a)
    if isinstance(op, ast.BitOr):
        return l_or(a, b)
    if isinstance(op, ast.BitAnd):
        return l_and(a, b)
    if isinstance(op, ast.FloorDiv):
        x, y = tn.lift(a), tn.lift(b)
        return tn.elementwise(lambda u, v: const2(u, v, lambda p, q: p // q), x, y, dtype="i")
    if isinstance(op, ast.Mod):
        x, y = tn.lift(a), tn.lift(b)
        return tn.elementwise(lambda u, v: const2(u, v, lambda p, q: p % q), x, y, dtype="i")
    if isinstance(op, ast.MatMult):
        return matmul(tn.lift(a), tn.lift(b))
    raise Unsupported("array operator %s" % type(op).__name__)


def const2(u, v, f):
    p, q = u.constant(), v.constant()
    if p is None or q is None:
        raise Unsupported("integer operation on symbolic elements")
    return Body.const(f(p, q))


def both_bool(a, b):
    return isinstance(a, (Arr, bool)) and isinstance(b, (Arr, bool)) and \
        tn.lift(a).dtype == "b" and tn.lift(b).dtype == "b"


class Text(str):
    """A string the interpreter does not follow (built from symbolic values)."""
    __slots__ = ()


TEXT = Text("<string>")
STR_METHODS = ("format", "split", "join", "strip", "lstrip", "rstrip", "lower", "upper",
               "startswith", "endswith", "replace", "count", "find", "index", "isalpha",
               "isdigit", "isspace", "title", "rsplit", "partition", "zfill", "rjust", "ljust")


def unknown_text():
    raise Unsupported("unknown string")


def plain(v):
    if isinstance(v, Text):
        return False
    if isinstance(v, (list, tuple)):
        return all(plain(x) for x in v)
    return v is None or isinstance(v, (str, int, bool))


def formatted(f, args, pack, kw=None):
    """f(*args), where the values are known; any string otherwise."""
    args = list(args)
    if not all(plain(v) for v in args) or not all(plain(v) for v in (kw or {}).values()):
        return TEXT
    try:
        return f(*pack(args), **(kw or {}))
    except (TypeError, ValueError, IndexError, KeyError):
        return TEXT


def binop(it, op, a, b):
    if isinstance(a, A().UBool) or isinstance(b, A().UBool):
        raise Unsupported("arithmetic on an undetermined truth value")
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(op, ast.Add):
            if type(a) is not type(b):
                raise A().IRaise(TypeError("can only concatenate %s to %s"
                                           % (type(a).__name__, type(b).__name__)), it.where())
            return a + b
    if isinstance(a, (list, tuple)) and isinstance(op, ast.Mult) and not isinstance(b, Arr):
        if isinstance(b, Num):
            raise Unsupported("symbolic repetition")
        if isinstance(b, int):
            return a * b
    if isinstance(b, (list, tuple)) and isinstance(op, ast.Mult) and isinstance(a, int):
        return a * b
    if isinstance(a, str):
        if isinstance(op, ast.Mod):
            return formatted(lambda v: a % v, b if isinstance(b, tuple) else (b,),
                             lambda vs: (tuple(vs),))
        if isinstance(op, ast.Add) and isinstance(b, str):
            return TEXT if isinstance(a, Text) or isinstance(b, Text) else a + b
        if isinstance(op, ast.Mult) and isinstance(b, int):
            return a * b
        if isinstance(op, ast.Mult):
            return TEXT
    if isinstance(b, str) and isinstance(op, ast.Mult) and isinstance(a, int):
        return a * b
    if isinstance(a, set) and isinstance(b, set):
        return {ast.BitOr: a.union, ast.BitAnd: a.intersection,
                ast.Sub: a.difference}[type(op)](b)
    if is_scalar(a) and is_scalar(b):
        return scalar_bin(op, a, b)
    if isinstance(a, A().Obj) or isinstance(b, A().Obj):
        nm = {ast.Add: "add", ast.Mult: "mul", ast.Sub: "sub"}.get(type(op))
        for o, x, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(o, A().Obj) and nm:
                m = it.find_method(o, "%s%s__" % (pre, nm))
                if m is not None:
                    return it.call(m, [x], {})
        raise Unsupported("operator on %r" % (a,))
    if a is None or b is None:
        raise A().IRaise(TypeError("unsupported operand None"), it.where())
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, Arr) or isinstance(b, Arr)):
            raise A().IRaise(TypeError("unsupported operand"), it.where())
    return norm0(arr_bin(op, a, b))


def norm0(r):
    return r


# ------------------------------------------------------------------ comparisons
def size_sign(b):
    """Sign facts of a polynomial in lengths (every symbolic length >= 2, generic)."""
    c = b.constant()
    if c is not None:
        return (c > 0) - (c < 0)
    names = b.names()
    if not all(isinstance(n, tuple) and n[0] == "size" for n in names):
        return None
    lo = Fraction(0)
    for (fs, bd), c in b.t.items():
        if any(q < 0 for (_, _, q) in fs):
            return None
        if not fs:
            lo += c
        elif c > 0:
            v = c
            for (_, _, q) in fs:
                v *= Fraction(2) ** int(q)
            lo += v
        else:
            lo = None
            break
    if lo is not None and lo > 0:
        return 1
    hi = Fraction(0)
    for (fs, bd), c in (-b).t.items():
        if not fs:
            hi += c
        elif c > 0:
            v = c
            for (_, _, q) in fs:
                v *= Fraction(2) ** int(q)
            hi += v
        else:
            return None
    if hi > 0:
        return -1
    return None


def cmp_num(op, a, b):
    """Comparison of scalars (lengths are generic: unequal unless identical)."""
    if isinstance(a, float) or isinstance(b, float):
        fa = a if isinstance(a, float) else None
        fb = b if isinstance(b, float) else None
        x = fa if fa is not None else (float(a) if pynum(a) else 1e6)
        y = fb if fb is not None else (float(b) if pynum(b) else 1e6)
    elif pynum(a) and pynum(b):
        x, y = a, b
    else:
        d = tn.to_body(a) - tn.to_body(b)
        if isinstance(op, ast.Eq):
            return d.is_zero()
        if isinstance(op, ast.NotEq):
            return not d.is_zero()
        if d.is_zero():
            return isinstance(op, (ast.LtE, ast.GtE))
        s = size_sign(d)
        if s is None:
            # d >= 0 with equality only for the smallest length
            return A().UBool("comparison of lengths")
        x, y = s, 0
    return {ast.Eq: x == y, ast.NotEq: x != y, ast.Lt: x < y, ast.LtE: x <= y,
            ast.Gt: x > y, ast.GtE: x >= y}[type(op)]


def seq_eq(it, a, b):
    if len(a) != len(b):
        return False
    unknown = None
    for x, y in zip(a, b):
        r = eq(it, x, y)
        t = it.truth(r)
        if isinstance(t, A().UBool):
            unknown = t
        elif not t:
            return False
    return unknown if unknown is not None else True


def eq(it, a, b):
    if isinstance(a, Text) or isinstance(b, Text):
        return A().UBool("string") if isinstance(a, str) and isinstance(b, str) else False
    if is_scalar(a) and is_scalar(b):
        return cmp_num(ast.Eq(), a, b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        return arr_cmp(ast.Eq(), a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if type(a) is not type(b):
            return False
        return seq_eq(it, a, b)
    if isinstance(a, set) or isinstance(a, dict) or isinstance(b, (set, dict)):
        return a == b
    if isinstance(a, A().Obj) and not isinstance(b, A().Obj):
        return False
    if isinstance(a, A().Obj):
        m = it.find_method(a, "__eq__")
        if m is not None:
            return it.call(m, [b], {})
        return a is b
    try:
        return bool(a == b)
    except Exception:
        return a is b


def arr_cmp(op, a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return isinstance(op, ast.NotEq)
    x, y = tn.lift(a), tn.lift(b)

    def f(u, v):
        if u == v:
            return Body.const(int(isinstance(op, (ast.Eq, ast.LtE, ast.GtE))))
        d = u - v
        c = d.constant()
        if c is not None:
            r = {ast.Eq: c == 0, ast.NotEq: c != 0, ast.Lt: c < 0, ast.LtE: c <= 0,
                 ast.Gt: c > 0, ast.GtE: c >= 0}[type(op)]
            return Body.const(int(r))
        names = d.names()
        if all(isinstance(n, tuple) and n[0] == "size" for n in names):
            r = cmp_num(op, tn.simplify_num(u), tn.simplify_num(v))
            if isinstance(r, A().UBool):
                return Body.atom("ubool_%d" % next(tn._ids))
            return Body.const(int(r))
        r = within(op, d) if FACTS else None
        if r is not None:
            return Body.const(int(r))
        sg = 1 if positive(d) else -1 if positive(-d) else 0
        if sg:
            return Body.const(int(isinstance(op, (ast.NotEq,) + (
                (ast.Gt, ast.GtE) if sg > 0 else (ast.Lt, ast.LtE)))))
        vc = v.constant()
        if vc == 0 and isinstance(op, (ast.NotEq, ast.Eq)):
            if all(tn.is_01(n) for n in u.names()) and is_indicator(u):
                r = u
            elif u.monomial():
                ((fs, bd), c), = u.t.items()
                r = tn.fn_atom("nz", Body({(fs, bd): Fraction(1)}))
            else:
                r = tn.fn_atom("nz", u)
            return r if isinstance(op, ast.NotEq) else tn.ONE - r
        return tn.fn_atom("ub_" + type(op).__name__, d)
    return tn.elementwise(f, x, y, dtype="b")


# Intervals of atoms: name or (name, positions) -> (low, low is excluded, high, high is
# excluded); None stands for no bound.
FACTS = {}


def interval(b):
    """Bounds of an affine combination of atoms with known bounds (else None)."""
    lo, lo_open, hi, hi_open = Fraction(0), False, Fraction(0), False
    for (fs, bound), c in b.t.items():
        if not fs and not bound:
            f = (Fraction(1), False, Fraction(1), False)
        elif len(fs) == 1 and not bound and fs[0][2] == 1:
            f = FACTS.get((fs[0][0], fs[0][1]), FACTS.get(fs[0][0]))
            if f is None:
                return None
        else:
            return None
        l, lop, h, hop = f if c > 0 else (f[2], f[3], f[0], f[1])
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
        lo_open, hi_open = lo_open or lop, hi_open or hop
    return lo, lo_open, hi, hi_open


def within(op, d):
    """Truth of `d <op> 0` for every value in the bounds of `d` (None: not decided)."""
    f = interval(d)
    if f is None:
        return None
    lo, lop, hi, hop = f
    pos = lo is not None and (lo > 0 or (lo == 0 and lop))
    neg = hi is not None and (hi < 0 or (hi == 0 and hop))
    nonneg = lo is not None and lo >= 0
    nonpos = hi is not None and hi <= 0
    yes, no = {ast.Lt: (neg, nonneg), ast.GtE: (nonneg, neg), ast.Gt: (pos, nonpos),
               ast.LtE: (nonpos, pos), ast.Eq: (False, pos or neg),
               ast.NotEq: (pos or neg, False)}[type(op)]
    return True if yes else False if no else None


def positive(b):
    """Sums of products of exponentials (and powers of such sums)."""
    def pos(n):
        if not isinstance(n, tuple):
            return False
        return n[0] == "exp" or (n[0] == "poly" and isinstance(n[1], Body) and positive(n[1]))
    return bool(b.t) and all(c > 0 and fs and all(pos(f[0]) for f in fs)
                             for (fs, bd), c in b.t.items())


def is_indicator(b):
    return (b * b) == b


def compare(it, op, a, b):
    if isinstance(op, ast.Is):
        return is_same(a, b)
    if isinstance(op, ast.IsNot):
        return not is_same(a, b)
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(it, a, b)
        if isinstance(r, A().UBool):
            return r
        return r if isinstance(op, ast.In) else not r
    if isinstance(op, ast.Eq):
        return eq(it, a, b)
    if isinstance(op, ast.NotEq):
        r = eq(it, a, b)
        if isinstance(r, A().UBool):
            return r
        if isinstance(r, Arr):
            return arr_cmp(ast.NotEq(), a, b)
        return not r
    if is_scalar(a) and is_scalar(b):
        return cmp_num(op, a, b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        return arr_cmp(op, a, b)
    if isinstance(a, str) and isinstance(b, str) or isinstance(a, set):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
    if a is None or b is None:
        raise A().IRaise(TypeError("ordering of None"), it.where())
    raise Unsupported("comparison of %s and %s" % (type(a).__name__, type(b).__name__))


def is_same(a, b):
    if a is b:
        return True
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, A().Ext) and isinstance(b, A().Ext):
        return a == b
    return False


def contains(it, a, b):
    if isinstance(b, Text) or (isinstance(a, Text) and isinstance(b, (str, dict, set))):
        return A().UBool("string")
    if isinstance(b, str):
        return isinstance(a, str) and a in b
    if isinstance(b, dict):
        return a in b
    if isinstance(b, set):
        return a in b
    for x in it.iterate(b):
        r = it.truth(eq(it, a, x))
        if isinstance(r, A().UBool):
            return r
        if r:
            return True
    return False


# ------------------------------------------------------------------ logicals
def as_bool(x):
    a = tn.lift(x)
    if a.dtype == "b":
        return a
    return arr_cmp(ast.NotEq(), a, 0)


def l_and(a, b):
    r = tn.mul(as_bool(a), as_bool(b))
    r.dtype = "b"
    return r


def l_or(a, b):
    return tn.elementwise(lambda x, y: x + y - x * y, as_bool(a), as_bool(b), dtype="b")


def logical_not(it, a):
    if isinstance(a, bool):
        return not a
    return tn.elementwise(lambda x: tn.ONE - x, as_bool(a), dtype="b")


def where(it, c, a, b):
    dt = tn.result_dtype(a, b)

    def f(m, x, y):
        k = m.constant()
        if k is not None:
            return x if k else y
        return m * x + (tn.ONE - m) * y
    return tn.elementwise(f, as_bool(c), a, b, dtype=dt)


def reduce_bool(a, axis, keepdims, is_any):
    a = as_bool(a)
    nd = a.ndim
    if nd == 0 and axis in (0, -1):
        axis = None
    axes = tuple(range(nd)) if axis is None else (axis,) if isinstance(axis, int) else tuple(axis)
    axes = {tn.norm_axis(k, nd) for k in axes}
    # constant entries: decide
    vals = [b.constant() for b in a.data.values()]
    known = all(v is not None for v in vals)
    if known and axes == set(range(nd)):
        r = any(v for v in vals) if is_any else all(v for v in vals)
        if not keepdims:
            return r
    if not axes:
        return a
    if known:
        enum = a.enum_axes()
        keep = [k for k in enum if k not in axes]
        data = {}
        for pos, b in a.data.items():
            d = dict(zip(enum, pos))
            q = tuple(d[k] for k in keep)
            v = b.constant() != 0
            data.setdefault(q, []).append(v)
        data = {q: Body.const(int(any(v) if is_any else all(v))) for q, v in data.items()}
        out = []
        for k, x in enumerate(a.axes):
            if k in axes:
                if keepdims:
                    out.append(None)
            else:
                out.append(x)
        return Arr(tuple(out), data, "b")
    # symbolic: an opaque indicator of the complement's product
    if any(isinstance(a.axes[k], int) for k in axes):
        out = a
        for k in sorted(axes, reverse=True):
            if isinstance(out.axes[k], int):
                parts = [tn.pick(out, k, i) for i in range(out.axes[k])]
                acc = parts[0]
                for p in parts[1:]:
                    acc = l_or(acc, p) if is_any else l_and(acc, p)
                    if any(len(b.t) > 600 for b in acc.data.values()):
                        raise Unsupported("any/all of too many open conditions")
                out = tn.insert_axis(acc, k)
        a = out
    bind = {a.axes[k] for k in axes if tn.is_idx(a.axes[k])}
    data = {}
    for pos, b in a.data.items():
        dep = bind & b.free()
        if not dep:
            data[pos] = b
        else:
            data[pos] = quantify("any" if is_any else "all", b, dep)
    out = []
    for k, x in enumerate(a.axes):
        if k in axes:
            if keepdims:
                out.append(None)
        else:
            out.append(x)
    return Arr(tuple(out), data, "b")


def quantify(name, body, idxs):
    """any/all over symbolic indices: an indicator atom of the remaining indices."""
    # encode as a function atom whose body sums the (bound) indices of the indicator
    return tn.fn_atom("nz" if name == "any" else name, body.bind(idxs))


# ------------------------------------------------------------------ array helpers
def shape_of(x):
    if isinstance(x, Arr):
        return x.shape()
    if is_scalar(x):
        return ()
    if isinstance(x, (list, tuple, range)):
        return tn.lift(x).shape()
    if isinstance(x, set) or x is None or isinstance(x, (str, slice, A().Obj)) or x is Ellipsis:
        return ()
    raise Unsupported("shape of %s" % type(x).__name__)


def ints(it, v):
    """A tuple of axis numbers / lengths."""
    if v is None:
        return None
    if isinstance(v, Arr):
        v = v.concrete()
    if isinstance(v, (list, tuple, range)):
        return tuple(it.intval(x) if not isinstance(x, Fraction) else int(x) for x in v)
    return v


def as_shape(it, v):
    v = ints(it, v)
    if isinstance(v, (int, Num)):
        return (v,)
    return tuple(v)


def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise ShapeError("matmul of scalars")
    k = object()
    ka = [Ellipsis] + (["i"] if a.ndim > 1 else []) + ["k"]
    kb = [Ellipsis] + (["k", "j"] if b.ndim > 1 else ["k"])
    out = [Ellipsis] + (["i"] if a.ndim > 1 else []) + (["j"] if b.ndim > 1 else [])
    return tn.einsum([a, b], [ka, kb], out)


def dot(a, b):
    if a.ndim == 0 or b.ndim == 0:
        return tn.mul(a, b)
    ka = ["a%d" % i for i in range(a.ndim - 1)] + ["k"]
    if b.ndim == 1:
        kb = ["k"]
        out = ka[:-1]
    else:
        kb = ["b%d" % i for i in range(b.ndim - 2)] + ["k", "z"]
        out = ka[:-1] + kb[:-2] + ["z"]
    # np.dot does not broadcast the contracted axis
    if tn.axis_len(a.axes[-1]) != tn.axis_len(b.axes[-1 if b.ndim == 1 else -2]):
        raise ShapeError("dot: shapes not aligned")
    return tn.einsum([a, b], [ka, kb], out)


def elem_fn(name):
    def f(it, args, kw):
        x = tn.lift(args[0])
        return out_arg(it, kw, tn.elementwise(lambda b: apply_fn(name, b), x))
    return f


def apply_fn(name, b):
    if name == "log":
        return tn.log_body(b)
    if name == "exp":
        c = b.constant()
        if c == 0:
            return tn.ONE
        return exp_body(b)
    if name == "sqrt":
        return b.power(Fraction(1, 2))
    c = b.constant()
    if name == "gammaln" and c in (1, 2):
        return tn.ZERO
    if name == "abs":
        if c is not None:
            return Body.const(abs(c))
        if b.monomial() and all(n in tn.INDICATOR or (isinstance(n, tuple) and n[0] == "size")
                                for n in b.names()):
            return b
    return tn.fn_atom(name, b)


def exp_body(b):
    """exp of a sum == product of the exponentials of its terms; exp(log x) == x."""
    out = tn.ONE
    for (fs, bd), c in b.t.items():
        if len(fs) == 1 and not bd and isinstance(fs[0][0], tuple) and fs[0][0][0] == "log" \
                and fs[0][2] == 1 and isinstance(fs[0][0][1], Body):
            inner = fs[0][0][1]
            free = sorted(inner.free(), key=lambda i: i[1])
            if len(free) == len(fs[0][1]) and c.denominator == 1:
                ren = _unplace(inner, fs[0][1])
                if ren is not None:
                    out = out * ren.power(c)
                    continue
        out = out * tn.fn_atom("exp", Body({(fs, bd): Fraction(1)}), c)
    return out


def _unplace(body, ix):
    """Body of a function atom with its placeholder indices replaced by `ix`."""
    ph = tn.placeholder_order(body)
    if len(ph) != len(ix):
        return None
    return body.rename(dict(zip(ph, ix)))


def out_arg(it, kw, r):
    out = kw.get("out")
    if out is not None:
        it.mutating(out)
        out.set_from(tn.broadcast_to(r, out.shape()))
        return out
    return r


def np_array(it, args, kw, copy=True):
    x = args[0]
    if isinstance(x, Arr):
        if copy:
            return Arr(x.axes, x.data, x.dtype)
        return x
    if isinstance(x, (list, tuple)) and any(isinstance(e, (A().Obj, str)) for e in x):
        raise Unsupported("object array")
    if isinstance(x, (A().Obj, str, slice)) or x is None or x is Ellipsis:
        return Arr((), {(): Body.atom("object")}, "O")
    a = tn.lift(x)
    a = Arr(a.axes, a.data, a.dtype)
    dt = kw.get("dtype", args[1] if len(args) > 1 else None)
    if dt is not None:
        a.dtype = dtype_code(dt)
    return a


def dtype_code(dt):
    n = getattr(dt, "name", str(dt))
    if "bool" in n:
        return "b"
    if "int" in n:
        return "i"
    return "f"


def parse_einsum(args):
    if isinstance(args[0], str):
        spec = args[0].replace(" ", "")
        ops = list(args[1:])
        left, arrow, right = spec.partition("->")

        def keys(s):
            out = []
            i = 0
            while i < len(s):
                if s.startswith("...", i):
                    out.append(Ellipsis)
                    i += 3
                else:
                    out.append(s[i])
                    i += 1
            return out
        ins = [keys(s) for s in left.split(",")]
        return ops, ins, keys(right) if arrow else None
    args = list(args)
    out = None
    if len(args) % 2:
        out = args.pop()
    return args[0::2], args[1::2], out


def np_einsum(it, args, kw):
    ops, ins, out = parse_einsum(args)

    def klist(k):
        if isinstance(k, Arr):
            k = k.concrete()
        return [it.intval(x) for x in k]
    ins = [klist(k) for k in ins]
    out = klist(out) if out is not None else None
    if len(ops) != len(ins):
        raise A().IRaise(ValueError("einsum operands"))
    r = tn.einsum([tn.lift(o) for o in ops], ins, out)
    if len(ops) == 1 and isinstance(ops[0], Arr) and r.ndim == len(set(ins[0])):
        r = view_of(ops[0], r)      # a single operand without summation gives a view
    return r


def np_sum(it, args, kw):
    x = args[0]
    axis = kw.get("axis", args[1] if len(args) > 1 else None)
    a = tn.lift(x)
    if a.ndim == 0 and axis in (0, -1):     # allowed by numpy for scalars
        axis = None
    return tn.sum_axes(a, ints(it, axis), keepdims=bool(kw.get("keepdims", False)))


def np_prod(it, args, kw):
    x = tn.lift(args[0])
    axis = kw.get("axis", args[1] if len(args) > 1 else None)
    if axis is not None:
        raise Unsupported("prod over an axis")
    if any(tn.is_idx(a) for a in x.axes):
        raise Unsupported("product over a symbolic axis")
    r = tn.ONE
    for b in x.data.values():
        r = r * b
    c = r.constant()
    if c is not None:
        return int(c) if c.denominator == 1 else c
    if all(isinstance(n, tuple) and n[0] == "size" for n in r.names()):
        return Num(r)
    return Arr.scalar(r)


def np_transpose(it, args, kw):
    a = tn.lift(args[0])
    axes = ints(it, kw.get("axes", args[1] if len(args) > 1 else None))
    if axes is None:
        axes = tuple(reversed(range(a.ndim)))
    return view_of(a, tn.permute(a, axes))


def view_of(a, r):
    r = Arr(r.axes, r.data, r.dtype)
    r.root = a.root if a.root is not None else a
    return r


def np_log1p(it, args, kw):
    return tn.elementwise(lambda b: tn.log_body(tn.ONE + b), tn.lift(args[0]))


def np_reshape(it, args, kw):
    import matdomain
    sh = kw.get("newshape", kw.get("shape", args[1] if len(args) > 1 else None))
    order = kw.get("order", args[2] if len(args) > 2 else "C")
    if order != "C":
        if order != "F" or isinstance(args[0], matdomain.Grouped):
            raise Unsupported("order of reshape")
        a = np_transpose(it, [args[0]], {})
        sh = as_shape(it, sh)
        sh = tuple(sh)[::-1] if isinstance(sh, (tuple, list)) else (sh,)
        return np_transpose(it, [np_reshape(it, [a, sh], {})], {})
    if isinstance(args[0], matdomain.Grouped):
        return args[0].reshape(as_shape(it, sh))
    a = tn.lift(args[0])
    r = matdomain.reshape(a, as_shape(it, sh))
    return view_of(a, r) if isinstance(r, Arr) else r


def np_expand_dims(it, args, kw):
    a = tn.lift(args[0])
    axis = kw.get("axis", args[1] if len(args) > 1 else None)
    axis = ints(it, axis)
    axes = axis if isinstance(axis, tuple) else (axis,)
    nd = a.ndim + len(axes)
    pos = sorted(tn.norm_axis(k, nd) for k in axes)
    r = a
    for k in pos:
        r = tn.insert_axis(r, k)
    return view_of(a, r)


def np_squeeze(it, args, kw):
    a = tn.lift(args[0])
    axis = ints(it, kw.get("axis", args[1] if len(args) > 1 else None))
    if axis is None:
        pos = [k for k, x in enumerate(a.axes) if x is None]
    else:
        if a.ndim == 0 and axis in (0, -1):
            return view_of(a, a)        # numpy allows this
        axis = axis if isinstance(axis, tuple) else (axis,)
        pos = [tn.norm_axis(k, a.ndim) for k in axis]
    r = a
    for k in sorted(pos, reverse=True):
        r = tn.drop_axis(r, k)
    return view_of(a, r)


def np_moveaxis(it, args, kw):
    a = tn.lift(args[0])
    s, d = ints(it, args[1]), ints(it, args[2])
    s = s if isinstance(s, tuple) else (s,)
    d = d if isinstance(d, tuple) else (d,)
    s = [tn.norm_axis(k, a.ndim) for k in s]
    d = [tn.norm_axis(k, a.ndim) for k in d]
    order = [n for n in range(a.ndim) if n not in s]
    for dest, src in sorted(zip(d, s)):
        order.insert(dest, src)
    return view_of(a, tn.permute(a, order))


def np_swapaxes(it, args, kw):
    a = tn.lift(args[0])
    i, j = tn.norm_axis(args[1], a.ndim), tn.norm_axis(args[2], a.ndim)
    order = list(range(a.ndim))
    order[i], order[j] = order[j], order[i]
    return view_of(a, tn.permute(a, order))


def np_full(it, shape, b, dt="f"):
    return tn.const_array(as_shape(it, shape), b, dt)


def np_arange(it, args, kw):
    vals = [it.intval(x) for x in args]
    if all(isinstance(v, int) for v in vals):
        return np_array(it, [list(range(*vals))], {}) if list(range(*vals)) else \
            Arr((0,), {}, "i")
    if len(vals) == 1 and isinstance(vals[0], Num):
        ax = tn.sort_of_len(vals[0].b)
        return Arr((ax,), {(): Body.atom("position", (ax,))}, "i")
    raise Unsupported("symbolic arange")


def np_tile(it, args, kw):
    a = tn.lift(args[0])
    reps = as_shape(it, args[1])
    nd = max(a.ndim, len(reps))
    while a.ndim < nd:
        a = tn.insert_axis(a, 0)
    reps = (1,) * (nd - len(reps)) + tuple(reps)
    for k, r in enumerate(reps):
        if isinstance(r, int) and r == 1:
            continue
        x = a.axes[k]
        if x is None:
            ax = tn.sort_of_len(tn.to_body(r))
            if isinstance(ax, int):
                a = tn.take_list(a, [0] * ax, k) if ax != 1 else a
            else:
                a = Arr(a.axes[:k] + (ax,) + a.axes[k + 1:], a.data, a.dtype)
        elif isinstance(x, int) and isinstance(r, int):
            a = tn.take_list(a, list(range(x)) * r, k)
        else:
            raise Unsupported("tiling of a symbolic axis")
    return a


def np_repeat(it, args, kw):
    a = tn.lift(args[0])
    r = it.intval(args[1])
    axis = kw.get("axis", args[2] if len(args) > 2 else None)
    k = tn.norm_axis(axis, a.ndim)
    if a.axes[k] is None:
        ax = tn.sort_of_len(tn.to_body(r))
        if isinstance(ax, int):
            return tn.take_list(a, [0] * ax, k)
        return Arr(a.axes[:k] + (ax,) + a.axes[k + 1:], a.data, a.dtype)
    if isinstance(a.axes[k], int) and isinstance(r, int):
        return tn.take_list(a, [i for i in range(a.axes[k]) for _ in range(r)], k)
    raise Unsupported("repeat of a symbolic axis")


def np_take(it, args, kw):
    a = tn.lift(args[0])
    idx = tn.lift(args[1])
    axis = kw.get("axis", args[2] if len(args) > 2 else None)
    if axis is None:
        raise Unsupported("take without axis")
    try:
        return tn.take(a, idx, tn.norm_axis(axis, a.ndim))
    except IndexError as err:
        raise A().IRaise(err)


def np_split(it, args, kw):
    a = tn.lift(args[0])
    sec = args[1]
    axis = tn.norm_axis(kw.get("axis", args[2] if len(args) > 2 else 0), a.ndim)
    sec = ints(it, sec)
    x = a.axes[axis]
    if tn.is_idx(x):
        raise Unsupported("split of a symbolic axis")
    n = 1 if x is None else x
    if isinstance(sec, int):
        if n % sec:
            raise A().IRaise(ValueError("array split does not result in an equal division"))
        w = n // sec
        sec = tuple(range(w, n, w))
    if any(not isinstance(s, int) for s in sec):
        raise Unsupported("symbolic split")
    cuts = [0] + list(sec) + [n]
    return [tn.take_list(a, list(range(n))[b:e], axis) for b, e in zip(cuts[:-1], cuts[1:])]


def np_concatenate(it, args, kw):
    items = [tn.lift(x) for x in it.iterate(args[0])]
    axis = kw.get("axis", args[1] if len(args) > 1 else 0)
    return tn.concatenate(items, axis)


def np_stack(it, args, kw):
    items = [tn.lift(x) for x in it.iterate(args[0])]
    axis = kw.get("axis", 0)
    nd = items[0].ndim + 1
    k = tn.norm_axis(axis, nd)
    return tn.concatenate([tn.insert_axis(a, k) for a in items], k)


def np_cumsum(it, args, kw):
    a = tn.lift(args[0])
    axis = kw.get("axis", args[1] if len(args) > 1 else None)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("cumsum of the flattened array")
        axis = 0
    k = tn.norm_axis(it.intval(axis), a.ndim)
    n = a.axes[k]
    if tn.is_idx(n):
        raise Unsupported("cumsum over a symbolic axis")
    if not isinstance(n, int):
        return tn.Arr(a.axes, dict(a.data), a.dtype)
    q = sum(isinstance(x, int) for x in a.axes[:k])
    data = {}
    for pos in sorted(a.data):
        data[pos] = a.data[pos]
        if pos[q]:
            data[pos] = data[pos[:q] + (pos[q] - 1,) + pos[q + 1:]] + data[pos]
    return tn.Arr(a.axes, data, a.dtype)


def np_diagonal(it, args, kw):
    a = tn.lift(args[0])
    i = tn.norm_axis(kw.get("axis1", args[2] if len(args) > 2 else 0), a.ndim)
    j = tn.norm_axis(kw.get("axis2", args[3] if len(args) > 3 else 1), a.ndim)
    ks = ["k%d" % n for n in range(a.ndim)]
    ks[j] = ks[i]
    out = [k for n, k in enumerate(ks) if n not in (i, j)] + [ks[i]]
    return tn.einsum([a], [ks], out)


def np_trace(it, args, kw):
    return tn.sum_axes(np_diagonal(it, args[:1], kw), (-1,))


def np_nonzero(it, args, kw):
    a = as_bool(args[0])
    if any(tn.is_idx(x) for x in a.axes):
        raise Unsupported("nonzero of a symbolic axis")
    pos = []
    enum = a.enum_axes()
    for p in sorted(a.data):
        c = a.data[p].constant()
        if c is None:
            raise Unsupported("nonzero of symbolic values")
        if c:
            d = dict(zip(enum, p))
            pos.append([d.get(k, 0) for k in range(a.ndim)])
    return tuple(np_array(it, [[p[k] for p in pos]], {}) if pos else Arr((0,), {}, "i")
                 for k in range(a.ndim))


def np_minmax(name):
    def f(it, args, kw):
        vals = []
        for x in args:
            if is_scalar(x):
                vals.append(x)
            elif isinstance(x, Arr) and x.ndim == 0:
                vals.append(tn.num_of(x.data[()], x.dtype))
            else:
                c = tn.lift(x).concrete()
                return tn.lift(c) if False else elementwise_minmax(it, name, args)
        return b_minmax(it, vals, name)
    return f


def elementwise_minmax(it, name, args):
    def g(u, v):
        r = cmp_num(ast.Lt(), tn.simplify_num(u), tn.simplify_num(v))
        if isinstance(r, A().UBool):
            raise Unsupported("minimum of symbolic values")
        return (u if r else v) if name == "min" else (v if r else u)
    return tn.elementwise(g, *args, dtype="i")


def b_minmax(it, vals, name):
    vals = list(vals)
    if not vals:
        raise A().IRaise(ValueError("%s() arg is an empty sequence" % name))
    best = vals[0]
    for v in vals[1:]:
        r = cmp_num(ast.Lt(), v, best) if is_scalar(v) and is_scalar(best) else it.truth(
            compare(it, ast.Lt(), v, best))
        if isinstance(r, A().UBool):
            raise Unsupported("minimum of symbolic values")
        if (r if name == "min" else (not r and not (is_scalar(v) and is_scalar(best)
                                                    and cmp_num(ast.Eq(), v, best)))):
            best = v
    return best


def np_isscalar(it, args, kw):
    x = args[0]
    return is_scalar(x) or isinstance(x, str)


def np_ufunc_at(name):
    def f(it, args, kw):
        x, idx, y = args
        if name != "add":
            raise Unsupported("ufunc.at")
        it.mutating(x)
        if x.root is not None:
            raise Unsupported("accumulation into a view")
        idx = it.plain_index(idx)
        if not isinstance(idx, tuple):
            idx = (idx,)
        real = [(k, i) for k, i in enumerate(idx) if not (isinstance(i, slice)
                                                          and i == slice(None))]
        if len(real) != 1:
            raise Unsupported("accumulation index")
        k, ind = real[0]
        ind = tn.lift(ind)
        tgt = tn.getitem(x, idx)
        y = tn.broadcast_to(tn.lift(y), tgt.shape())
        shape = ind.shape()
        for p in itertools.product(*[range(s) for s in shape]):
            c = ind
            for q in p:
                c = tn.pick(c, 0, q)
            pos = tn.num_of(c.data[()], "i")
            if not isinstance(pos, int):
                raise Unsupported("symbolic index")
            sl = y
            for q in p:
                sl = tn.pick(sl, k, q)
            key = tuple([slice(None)] * k + [pos])
            try:
                x.set_from(tn.setitem(x, key, tn.add(tn.getitem(x, key), sl)))
            except IndexError as err:
                raise A().IRaise(err)
        return None
    return f


def ufunc(op):
    def f(it, args, kw):
        a, b = args[0], args[1]
        r = arr_bin(op, a, b)
        if len(args) > 2:
            kw = dict(kw, out=args[2])
        return out_arg(it, kw, r)
    return f


def np_isnan(it, args, kw):
    a = tn.lift(args[0])
    return tn.elementwise(lambda b: Body.const(int("nan" in b.names())), a, dtype="b")


def np_isinf(it, args, kw):
    a = tn.lift(args[0])
    return tn.elementwise(lambda b: Body.const(int("inf" in b.names())), a, dtype="b")


def np_isfinite(it, args, kw):
    a = tn.lift(args[0])
    return tn.elementwise(
        lambda b: Body.const(int(not ({"inf", "nan"} & b.names()))), a, dtype="b")


def np_like(body):
    def f(it, args, kw):
        return tn.const_array(shape_of(args[0]), body)
    return f


def np_round(it, args, kw):
    a = tn.lift(args[0])
    return tn.elementwise(
        lambda b: b if b.constant() is not None and b.constant().denominator == 1
        else tn.fn_atom("floor", b), a)


def np_allclose(it, args, kw):
    a, b = tn.lift(args[0]), tn.lift(args[1])
    d = tn.sub(a, b)
    if all(x.is_zero() for x in d.data.values()):
        return True
    if FACTS:
        rtol = args[2] if len(args) > 2 else kw.get("rtol", Fraction(1, 10 ** 5))
        atol = args[3] if len(args) > 3 else kw.get("atol", Fraction(1, 10 ** 8))
        r = close(d, tn.broadcast_to(b, d.shape()), tn.to_body(rtol).constant(),
                  tn.to_body(atol).constant())
        if r is not None:
            return r
    return A().UBool("allclose")


def close(d, b, rtol, atol):
    """Every |d| <= atol + rtol |b|: decided by bounds."""
    if rtol is None or atol is None:
        return None
    all_in = True
    for pos, x in d.data.items():
        f, c = interval(x), tn.broadcast_to(b, d.shape())
        enum = d.enum_axes()
        at = dict(zip(enum, pos))
        v = c.data[tuple(at[k] for k in c.enum_axes())].constant()
        if f is None or v is None:
            all_in = None
            continue
        tol = atol + rtol * abs(v)
        if (f[0] is not None and f[0] > tol) or (f[2] is not None and f[2] < -tol):
            return False
        if f[0] is None or f[2] is None or f[0] < -tol or f[2] > tol:
            all_in = None
    return all_in


def np_copyto(it, args, kw):
    dst, src = args[0], args[1]
    it.mutating(dst)
    w = kw.get("where")
    new = tn.broadcast_to(tn.lift(src), dst.shape()) if w is None else \
        where(it, w, src, dst)
    if not A().same_shape(new, dst):
        raise A().IRaise(ValueError("could not broadcast input array"))
    dst.set_from(new)


def np_atleast(n):
    def f(it, args, kw):
        a = tn.lift(args[0])
        r = a
        while r.ndim < n:
            r = tn.insert_axis(r, 0)
        return view_of(a, r)
    return f


def np_ravel(it, args, kw):
    a = tn.lift(args[0])
    order = kw.get("order", args[1] if len(args) > 1 else "C")
    if order == "F":
        a = tn.lift(np_transpose(it, [a], {}))
    elif order != "C":
        raise Unsupported("order of ravel")
    return view_of(a, tn.reshape(a, (-1,))) if a.ndim != 1 else a


def np_broadcast_to(it, args, kw):
    a = tn.lift(args[0])
    return view_of(a, tn.broadcast_to(a, as_shape(it, args[1])))


def np_vdot(it, a, kw):
    """Sum of the products of all elements; the operands must have the same size."""
    x, y = tn.lift(a[0]), tn.lift(a[1])
    if x.ndim != y.ndim:
        raise Unsupported("vdot of arrays of different dimensions")
    for m, n in zip(x.axes, y.axes):
        if (m[0] if isinstance(m, tuple) else m) != (n[0] if isinstance(n, tuple) else n):
            raise Unsupported("vdot of arrays of different shapes")
    return tn.sum_axes(tn.mul(x, y))


def np_outer(it, args, kw):
    a, b = np_ravel(it, [args[0]], {}), np_ravel(it, [args[1]], {})
    return tn.einsum([a, b], [["i"], ["j"]], ["i", "j"])


def multigammaln(it, args, kw):
    a = tn.lift(args[0])
    d = tn.to_body(it.intval(args[1])) if not isinstance(args[1], Arr) else args[1].data[()]
    c = d.constant()
    if c == 1:
        return tn.elementwise(lambda b: apply_fn("gammaln", b), a)
    return tn.elementwise(lambda b: tn.fn_atom(("multigammaln", d.key()), b), a)


def polygamma(it, args, kw):
    return tn.elementwise(lambda b: tn.fn_atom("polygamma%s" % args[0], b), tn.lift(args[1]))


def np_max(name):
    def f(it, args, kw):
        a = tn.lift(args[0])
        if kw.get("axis") is None and not any(tn.is_idx(x) for x in a.axes):
            vals = [tn.simplify_num(b) for b in a.data.values()]
            if all(is_scalar(v) for v in vals):
                try:
                    return b_minmax(it, vals, name)
                except Unsupported:
                    pass
        return reduce_opaque(name, a, kw.get("axis", args[1] if len(args) > 1 else None),
                             bool(kw.get("keepdims", False)))
    return f


def reduce_opaque(name, a, axis, keepdims):
    """Maximum or minimum over axes: an atom applied to the canonical elements."""
    nd = a.ndim
    ax = range(nd) if axis is None else axis if isinstance(axis, (tuple, list)) else (axis,)
    ax = sorted({tn.norm_axis(k, nd) for k in ax})
    if not ax:
        return a
    red = [a.axes[k] for k in ax if tn.is_idx(a.axes[k])]
    enum = [k for k in range(nd) if isinstance(a.axes[k], int)]
    groups = {}
    for pos, b in a.data.items():
        keep = tuple(p for k, p in zip(enum, pos) if k not in ax)
        groups.setdefault(keep, []).append(b)
    data = {}
    for keep, bodies in groups.items():
        free = set()
        for b in bodies:
            free |= b.free()
        by = {}
        for i in sorted(free, key=lambda i: (str(i[0]), i[1])):
            by.setdefault((i in red, i[0]), []).append(i)
        best = None
        kinds = sorted(by, key=str)
        for perms in itertools.product(*[itertools.permutations(by[k]) for k in kinds]):
            ren, order = {}, []
            for (isred, s), g in zip(kinds, perms):
                for k, i in enumerate(g):
                    ren[i] = (s, (5 if isred else 4) * 10 ** 9 + k)
                    if not isred:
                        order.append(i)
            bs = tuple(sorted((b.rename(ren) for b in bodies), key=repr))
            k = tuple(repr(b) for b in bs)
            if best is None or k < best[0]:
                best = (k, bs, tuple(order))
        if len(best[1]) == 1 and not any(i in red for i in free):
            data[keep] = bodies[0]
        else:
            data[keep] = Body.atom((name,) + best[1], best[2])
    axes = tuple(None if k in ax else x for k, x in enumerate(a.axes))
    r = Arr(axes, data, a.dtype)
    if not keepdims:
        for k in reversed(ax):
            r = tn.drop_axis(r, k)
    return r


def any_all(is_any):
    def f(it, args, kw):
        axis = ints(it, kw.get("axis", args[1] if len(args) > 1 else None))
        x = args[0]
        if isinstance(x, (list, tuple)) and all(isinstance(v, (bool, A().UBool)) for v in x):
            if any(isinstance(v, A().UBool) for v in x):
                return A().UBool("any")
            return any(x) if is_any else all(x)
        if isinstance(x, A().UBool):
            return x
        r = reduce_bool(x, axis, bool(kw.get("keepdims", False)), is_any)
        if isinstance(r, Arr) and axis is None and not kw.get("keepdims"):
            c = r.data[()].constant()
            if c is not None:
                return c != 0
        return r
    return f


def np_astype(it, a, dt):
    r = Arr(a.axes, a.data, dtype_code(dt))
    if r.dtype == "b" and a.dtype != "b":
        return as_bool(a)
    return r


def np_divide(it, args, kw):
    r = tn.div(args[0], args[1])
    w = kw.get("where")
    if w is not None and kw.get("out") is not None:
        r = where(it, w, r, kw["out"])
        kw = {}
    return out_arg(it, kw, r)


NP = {
    "shape": lambda it, a, k: shape_of(a[0]),
    "ndim": lambda it, a, k: len(shape_of(a[0])),
    "size": lambda it, a, k: np_size(it, a[0]),
    "einsum": np_einsum, "sum": np_sum, "prod": np_prod,
    "reshape": np_reshape, "transpose": np_transpose, "expand_dims": np_expand_dims,
    "squeeze": np_squeeze, "moveaxis": np_moveaxis, "swapaxes": np_swapaxes,
    "asanyarray": lambda it, a, k: np_array(it, a, k, copy=False),
    "asarray": lambda it, a, k: np_array(it, a, k, copy=False),
    "array": np_array, "copy": np_array,
    "zeros": lambda it, a, k: np_full(it, a[0] if a else k["shape"], tn.ZERO, dtk(k)),
    "ones": lambda it, a, k: np_full(it, a[0] if a else k["shape"], tn.ONE, dtk(k)),
    "empty": lambda it, a, k: np_full(it, a[0], Body.atom("uninitialised"), dtk(k)),
    "full": lambda it, a, k: tn.broadcast_to(tn.lift(a[1]), as_shape(it, a[0])),
    "ones_like": np_like(tn.ONE), "zeros_like": np_like(tn.ZERO),
    "identity": lambda it, a, k: tn.eye(it.intval(a[0])),
    "eye": lambda it, a, k: tn.eye(it.intval(a[0])),
    "dot": lambda it, a, k: dot(tn.lift(a[0]), tn.lift(a[1])),
    "matmul": lambda it, a, k: matmul(tn.lift(a[0]), tn.lift(a[1])),
    "outer": np_outer,
    "vdot": np_vdot,
    "any": any_all(True), "all": any_all(False),
    "log": elem_fn("log"), "exp": elem_fn("exp"), "sqrt": elem_fn("sqrt"),
    "abs": elem_fn("abs"), "sin": elem_fn("sin"), "cos": elem_fn("cos"),
    "sign": elem_fn("sign"), "floor": np_round, "log1p": np_log1p,
    "where": lambda it, a, k: where(it, *a) if len(a) == 3 else np_nonzero(it, a, k),
    "multiply": ufunc(ast.Mult()), "add": ufunc(ast.Add()), "subtract": ufunc(ast.Sub()),
    "divide": np_divide, "true_divide": np_divide,
    "power": ufunc(ast.Pow()),
    "logical_not": lambda it, a, k: logical_not(it, a[0]),
    "logical_or": lambda it, a, k: l_or(a[0], a[1]),
    "logical_and": lambda it, a, k: l_and(a[0], a[1]),
    "isnan": np_isnan, "isinf": np_isinf, "isfinite": np_isfinite,
    "allclose": np_allclose, "isscalar": np_isscalar,
    "arange": np_arange, "tile": np_tile, "repeat": np_repeat, "take": np_take,
    "split": np_split, "concatenate": np_concatenate, "stack": np_stack,
    "cumsum": np_cumsum, "diagonal": np_diagonal, "trace": np_trace,
    "nonzero": np_nonzero, "fmin": np_minmax("min"), "minimum": np_minmax("min"),
    "maximum": np_minmax("max"), "fmax": np_minmax("max"),
    "amax": np_max("max"), "max": np_max("max"), "amin": np_max("min"), "min": np_max("min"),
    "atleast_1d": np_atleast(1), "atleast_2d": np_atleast(2),
    "ravel": np_ravel, "broadcast_to": np_broadcast_to, "copyto": np_copyto,
    "add.at": np_ufunc_at("add"), "multiply.at": np_ufunc_at("multiply"),
    "isclose": lambda it, a, k: arr_cmp(ast.Eq(), a[0], a[1]),
    "array_equal": np_allclose,
    "mean": lambda it, a, k: np_mean(it, a, k),
    "square": lambda it, a, k: tn.elementwise(lambda b: b.power(2), tn.lift(a[0])),
    "negative": lambda it, a, k: tn.neg(tn.lift(a[0])),
}


def np_mean(it, args, kw):
    a = tn.lift(args[0])
    axis = ints(it, kw.get("axis", args[1] if len(args) > 1 else None))
    axes = tuple(range(a.ndim)) if axis is None else (axis,) if isinstance(axis, int) else axis
    n = tn.ONE
    for k in axes:
        n = n * tn.axis_len(a.axes[tn.norm_axis(k, a.ndim)])
    s = tn.sum_axes(a, axes, keepdims=bool(kw.get("keepdims", False)))
    return tn.mul(s, Arr.scalar(n.power(-1)))


def dtk(k):
    return dtype_code(k["dtype"]) if k.get("dtype") is not None else "f"


def np_size(it, x):
    r = tn.ONE
    for s in shape_of(x):
        r = r * tn.to_body(s)
    return tn.simplify_num(r)


SPECIAL = {
    "gammaln": elem_fn("gammaln"), "psi": elem_fn("psi"), "digamma": elem_fn("psi"),
    "multigammaln": multigammaln, "polygamma": polygamma,
    "xlogy": lambda it, a, k: tn.mul(a[0], elem_fn("log")(it, [a[1]], {})),
}


# ----------------------------------------------------------------- ext names
CONSTS = {
    "numpy.newaxis": None, "numpy.inf": INF, "numpy.Inf": INF, "numpy.nan": float("nan"),
}


def ext_attr(it, name):
    if name in CONSTS:
        return CONSTS[name]
    if name == "numpy.pi":
        return Arr.scalar(Body.atom("pi"))
    if name == "numpy.e":
        return Arr.scalar(tn.fn_atom("exp", tn.ONE))
    if name == "sys.version_info":
        return (3, 8)
    return A().Ext(name)


def ext_item(it, name, k):
    raise Unsupported("%s[...]" % name)


def call(it, name, args, kw):
    if name.startswith("builtins."):
        return call_builtin(it, name[9:], args, kw)
    f = None
    if name.startswith("numpy."):
        f = NP.get(name[6:])
    if f is None and name.startswith("scipy.special."):
        f = SPECIAL.get(name[14:])
    if f is None:
        f = EXTRA.get(name)
    if f is None:
        import matdomain
        f = matdomain.PRIMS.get(name)
    if f is None:
        raise Unsupported("call of %s" % name)
    kw = Keywords(kw)
    try:
        r = f(it, list(args), kw)
    except ShapeError as err:
        raise A().IRaise(ValueError("%s: %s" % (name, err)), it.where())
    ignored = set(kw) - kw.seen - NEUTRAL if not kw.all else set()
    if ignored:
        raise Unsupported("keyword %s of %s" % (", ".join(sorted(ignored)), name))
    return r


NEUTRAL = {"dtype", "optimize", "copy", "casting", "subok", "check_finite", "overwrite_b",
           "overwrite_a", "divide", "invalid", "over", "under", "stacklevel"}


class Keywords(dict):
    """Keyword arguments that remember which of them have been looked at."""

    def __init__(self, d):
        dict.__init__(self, d)
        self.seen, self.all = set(), False

    def get(self, k, default=None):
        self.seen.add(k)
        return dict.get(self, k, default)

    def __getitem__(self, k):
        self.seen.add(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self.seen.add(k)
        return dict.__contains__(self, k)

    def pop(self, k, *d):
        self.seen.add(k)
        return dict.pop(self, k, *d)

    def keys(self):
        self.all = True
        return dict.keys(self)

    def items(self):
        self.all = True
        return dict.items(self)


def _reduce(it, a, k):
    f = a[0]
    seq = it.iterate(a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        if not seq:
            raise A().IRaise(TypeError("reduce() of empty sequence"))
        acc, seq = seq[0], seq[1:]
    for x in seq:
        acc = it.call(f, [acc, x], {})
    return acc


def _block_diag(it, a, k):
    """scipy.linalg.block_diag of matrices; 0 x 0 matrices add nothing."""
    xs = [tn.lift(x) for x in a]
    if any(x.ndim != 2 for x in xs):
        raise Unsupported("block_diag of other than matrices")
    xs = [x for x in xs if tuple(x.axes) != (0, 0)]
    if len(xs) == 1:
        return xs[0]
    if not all(n is None or isinstance(n, int) for x in xs for n in x.axes):
        raise Unsupported("block_diag of symbolic sizes")
    rows, cols = sum(x.shape()[0] for x in xs), sum(x.shape()[1] for x in xs)
    data = {(i, j): tn.ZERO for i in range(rows) for j in range(cols)}
    r = c = 0
    for x in xs:
        for i in range(x.shape()[0]):
            for j in range(x.shape()[1]):
                key = tuple(p for p, n in zip((i, j), x.axes) if n is not None)
                data[(r + i, c + j)] = x.data[key]
        r += x.shape()[0]
        c += x.shape()[1]
    return tn.Arr((rows, cols), data)


EXTRA = {
    "scipy.linalg.block_diag": _block_diag,
    "functools.reduce": _reduce,
    "itertools.product": lambda it, a, k: [tuple(t) for t in
                                           itertools.product(*[it.iterate(x) for x in a])],
    "itertools.chain": lambda it, a, k: [y for x in a for y in it.iterate(x)],
    "warnings.warn": lambda it, a, k: None,
    "functools.wraps": lambda it, a, k: A().NativeMethod(lambda it2, b, kk: b[0]),
    "scipy.sparse.issparse": lambda it, a, k: False,
    "copy.copy": lambda it, a, k: shallow(a[0]),
    "copy.deepcopy": lambda it, a, k: shallow(a[0]),
    "numpy.errstate": lambda it, a, k: None,
}


def shallow(x):
    if isinstance(x, Arr):
        return Arr(x.axes, x.data, x.dtype)
    if isinstance(x, list):
        return [shallow(v) for v in x]
    if isinstance(x, dict):
        return dict(x)
    if isinstance(x, (int, str, tuple, Fraction, Num)) or x is None:
        return x
    raise Unsupported("copy of %s" % type(x).__name__)


def call_builtin(it, name, args, kw):
    f = BUILTIN.get(name)
    if f is None:
        raise Unsupported("builtin %s" % name)
    return f(it, list(args), dict(kw))


def b_len(it, a, k):
    x = a[0]
    if isinstance(x, (list, tuple, dict, set, str, range)):
        return len(x)
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise A().IRaise(TypeError("len() of unsized object"))
        return x.shape()[0]
    if isinstance(x, A().Obj):
        m = it.find_method(x, "__len__")
        if m is not None:
            return it.call(m, [], {})
    raise A().IRaise(TypeError("object of type %s has no len()" % type(x).__name__), it.where())


def b_range(it, a, k):
    vals = [it.intval(x) for x in a]
    vals = [int(v) if isinstance(v, Fraction) and v.denominator == 1 else v for v in vals]
    if not all(isinstance(v, int) for v in vals):
        if any(v is None for v in vals):
            raise A().IRaise(TypeError("range of None"), it.where())
        raise Unsupported("range over a symbolic length")
    return range(*vals)


def b_sum(it, a, k):
    acc = a[1] if len(a) > 1 else 0
    for x in it.iterate(a[0]):
        acc = it.binop(ast.Add(), acc, x)
    return acc


def b_minmax_call(name):
    def f(it, a, k):
        if len(a) == 1:
            vals = it.iterate(a[0])
        else:
            vals = a
        if "key" in k:
            raise Unsupported("min with key")
        if not vals and "default" in k:
            return k["default"]
        vals = [it.intval(v) for v in vals]
        return b_minmax(it, vals, name)
    return f


def b_isinstance(it, a, k):
    x, ts = a
    ts = ts if isinstance(ts, tuple) else (ts,)
    return any(inst(it, x, t) for t in ts)


def inst(it, x, t):
    if isinstance(t, A().ICls):
        return isinstance(x, A().Obj) and x.cls.issub(t)
    if isinstance(t, A().Ext):
        n = t.name.rsplit(".", 1)[-1]
        if n == "ndarray":
            return isinstance(x, Arr)
        if n in ("int", "integer", "int64"):
            if n == "int":
                return isinstance(x, int) or isinstance(x, Num)
            return False
        if n in ("float",):
            return isinstance(x, (float, Fraction)) and not isinstance(x, int)
        if n in ("list", "tuple", "dict", "set", "str", "bool", "range"):
            return isinstance(x, getattr(builtins, n))
        if n == "slice":
            return isinstance(x, slice)
        if n in ("Number",):
            return is_scalar(x)
        if n == "number":
            return False
        if n == "type":
            return isinstance(x, (A().ICls, type))
        raise Unsupported("isinstance of %s" % t.name)
    if isinstance(t, type) and issubclass(t, BaseException):
        return isinstance(x, t)
    if t is object:
        return True
    if isinstance(t, (Arr, Num, A().Obj, int, float, str, list, dict)) or t is None:
        raise A().IRaise(TypeError("isinstance() arg 2 must be a type"))
    raise Unsupported("isinstance")


def b_issubclass(it, a, k):
    c, t = a
    ts = t if isinstance(t, tuple) else (t,)
    for t in ts:
        if isinstance(c, A().ICls):
            if c.issub(t):
                return True
        elif isinstance(c, A().Ext) and isinstance(t, A().Ext):
            n = t.name.rsplit(".", 1)[-1]
            if c.name == t.name or c.name == "dtype:" + {"integer": "i", "bool_": "b",
                                                         "floating": "f"}.get(n, "?"):
                return True
        elif isinstance(c, type) and isinstance(t, type):
            if issubclass(c, t):
                return True
    return False


def b_getattr(it, a, k):
    if len(a) > 2:
        return it.getattr(a[0], a[1], a[2])
    return it.getattr(a[0], a[1])


def b_hasattr(it, a, k):
    try:
        it.getattr(a[0], a[1])
        return True
    except A().IRaise as err:
        if isinstance(err.value, AttributeError):
            return False
        raise


def b_list(it, a, k):
    return it.iterate(a[0]) if a else []


def b_int(it, a, k):
    x = it.intval(a[0])
    if isinstance(x, Fraction):
        return int(x)
    if isinstance(x, (int, Num)):
        return int(x) if isinstance(x, bool) else x
    raise Unsupported("int()")


def b_sorted(it, a, k):
    vals = it.iterate(a[0])
    if "key" in k:
        keyed = [(it.call(k["key"], [v], {}), v) for v in vals]
        return [v for _, v in sorted(keyed, key=lambda t: t[0])]
    return sorted(vals, reverse=bool(k.get("reverse", False)))


def b_zip(it, a, k):
    return [tuple(t) for t in zip(*[it.iterate(x) for x in a])]


def b_super(it, a, k):
    return A().Super(a[0], a[1])


def b_anyall(is_any):
    def f(it, a, k):
        unknown = None
        for x in it.iterate(a[0]):
            t = it.truth(x)
            if isinstance(t, A().UBool):
                unknown = t
            elif bool(t) == is_any:
                return is_any
        return unknown if unknown is not None else (not is_any)
    return f


def b_callable(it, a, k):
    x = a[0]
    if isinstance(x, A().Obj):
        return it.find_method(x, "__call__") is not None
    return isinstance(x, (A().IFunc, A().Bound, A().ICls, A().Ext, A().NativeMethod, type))


class Iter:
    """An iterator over the elements a container had when it was created."""

    def __init__(self, items):
        self.items = list(items)


def b_next(it, a, k):
    if not isinstance(a[0], Iter):
        raise Unsupported("next() of %s" % type(a[0]).__name__)
    if a[0].items:
        return a[0].items.pop(0)
    if len(a) > 1:
        return a[1]
    raise A().IRaise(StopIteration(), it.where())


BUILTIN = {
    "len": b_len, "range": b_range, "sum": b_sum, "min": b_minmax_call("min"),
    "max": b_minmax_call("max"), "isinstance": b_isinstance, "issubclass": b_issubclass,
    "getattr": b_getattr, "hasattr": b_hasattr,
    "setattr": lambda it, a, k: it.setattr(a[0], a[1], a[2]),
    "list": b_list, "tuple": lambda it, a, k: tuple(it.iterate(a[0])) if a else (),
    "set": lambda it, a, k: set(it.iterate(a[0])) if a else set(),
    "dict": lambda it, a, k: dict(*[dict(x) if isinstance(x, dict) else
                                    [tuple(y) for y in it.iterate(x)] for x in a], **k),
    "int": b_int, "float": lambda it, a, k: a[0], "str": lambda it, a, k: formatted(str, a, tuple) if a else "",
    "repr": lambda it, a, k: formatted(repr, a, tuple), "print": lambda it, a, k: None,
    "abs": lambda it, a, k: b_abs(it, a[0]),
    "zip": b_zip,
    "enumerate": lambda it, a, k: [(i + (a[1] if len(a) > 1 else 0), x)
                                   for i, x in enumerate(it.iterate(a[0]))],
    "reversed": lambda it, a, k: list(reversed(it.iterate(a[0]))),
    "sorted": b_sorted, "super": b_super,
    "any": b_anyall(True), "all": b_anyall(False),
    "map": lambda it, a, k: [it.call(a[0], list(t), {}) for t in
                             zip(*[it.iterate(x) for x in a[1:]])],
    "filter": lambda it, a, k: [x for x in it.iterate(a[1])
                                if it.truth(it.call(a[0], [x], {})) is True],
    "callable": b_callable, "id": lambda it, a, k: id(a[0]),
    "bool": lambda it, a, k: it.truth(a[0]) if a else False,
    "type": lambda it, a, k: a[0].cls if isinstance(a[0], A().Obj) else
    (_ for _ in ()).throw(Unsupported("type()")),
    "slice": lambda it, a, k: slice(*a),
    "iter": lambda it, a, k: a[0] if isinstance(a[0], Iter) else Iter(it.iterate(a[0])),
    "next": b_next,
    "hash": lambda it, a, k: hash(a[0]),
    "round": lambda it, a, k: a[0],
    "object": lambda it, a, k: A().Opaque("object"),
    "vars": lambda it, a, k: a[0].attrs,
}


def b_abs(it, x):
    if isinstance(x, (int, Fraction, float)):
        return abs(x)
    if isinstance(x, Num):
        return x
    return elem_fn("abs")(it, [x], {})


# ------------------------------------------------------------- value attributes
def value_attr(it, o, name):
    NM = A().NativeMethod
    if isinstance(o, (Fraction, int, float)) and not isinstance(o, bool):
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name == "dtype":
            return DType("i" if isinstance(o, int) else "f")
    if type(o).__name__ == "Grouped":
        if name == "shape":
            return o.shape()
        if name == "ndim":
            return 2
        if name == "T":
            return o.T
        if name == "reshape":
            return NM(lambda it2, a, k: np_reshape(
                it2, [o, a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else tuple(a)], k))
        return A().MISSING
    if isinstance(o, Arr):
        if name == "shape":
            return o.shape()
        if name == "ndim":
            return o.ndim
        if name == "size":
            return np_size(it, o)
        if name == "T":
            return np_transpose(it, [o], {})
        if name == "dtype":
            return DType(o.dtype)
        if name in ("reshape",):
            return NM(lambda it2, a, k: np_reshape(
                it2, [o, a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else tuple(a)], k))
        if name == "transpose":
            return NM(lambda it2, a, k: np_transpose(
                it2, [o] + ([a[0] if len(a) == 1 and isinstance(a[0], (tuple, list))
                             else tuple(a)] if a else []), k))
        if name in ("sum", "any", "all", "prod", "dot", "squeeze", "take", "mean", "copy",
                    "ravel", "cumsum", "repeat", "swapaxes", "diagonal", "trace", "max", "min"):
            return NM(lambda it2, a, k: call(it2, "numpy." + name, [o] + list(a), k))
        if name == "flatten":
            return NM(lambda it2, a, k: np_ravel(it2, [o] + list(a), k))
        if name == "astype":
            return NM(lambda it2, a, k: np_astype(it2, o, a[0]))
        if name == "item":
            return NM(lambda it2, a, k: tn.num_of(o.body(), o.dtype))
        if name == "tolist":
            return NM(lambda it2, a, k: o.concrete())
        if name == "fill":
            def fill(it2, a, k):
                it2.mutating(o)
                o.set_from(tn.broadcast_to(tn.lift(a[0]), o.shape()))
            return NM(fill)
        return A().MISSING
    if isinstance(o, DType):
        if name == "type":
            return A().Ext("dtype:" + o.code)
        if name == "kind":
            return o.code
        return A().MISSING
    if isinstance(o, list):
        def app(it2, a, k):
            it2.mutating(o)
            o.append(a[0])

        def ext(it2, a, k):
            it2.mutating(o)
            o.extend(it2.iterate(a[0]))

        def ins(it2, a, k):
            it2.mutating(o)
            o.insert(a[0], a[1])

        def pop(it2, a, k):
            it2.mutating(o)
            try:
                return o.pop(*a)
            except IndexError as err:
                raise A().IRaise(err, it2.where())

        def index(it2, a, k):
            for i, x in enumerate(o):
                if it2.truth(eq(it2, x, a[0])) is True:
                    return i
            raise A().IRaise(ValueError("not in list"), it2.where())

        def remove(it2, a, k):
            it2.mutating(o)
            i = index(it2, a, k)
            del o[i]

        def rev(it2, a, k):
            it2.mutating(o)
            o.reverse()

        def sort(it2, a, k):
            it2.mutating(o)
            o.sort(reverse=bool(k.get("reverse", False)))
        m = {"append": app, "extend": ext, "insert": ins, "pop": pop, "index": index,
             "remove": remove, "reverse": rev, "sort": sort,
             "copy": lambda it2, a, k: list(o),
             "count": lambda it2, a, k: sum(1 for x in o if it2.truth(eq(it2, x, a[0])) is True)}
        return NM(m[name]) if name in m else A().MISSING
    if isinstance(o, tuple):
        if name == "index":
            return value_attr(it, list(o), "index")
        if name == "count":
            return value_attr(it, list(o), "count")
        return A().MISSING
    if isinstance(o, dict):
        def get(it2, a, k):
            return o.get(a[0], a[1] if len(a) > 1 else None)

        def upd(it2, a, k):
            it2.mutating(o)
            if a:
                o.update(dict(a[0]))
            o.update(k)

        def dpop(it2, a, k):
            it2.mutating(o)
            if a[0] in o:
                return o.pop(a[0])
            if len(a) > 1:
                return a[1]
            raise A().IRaise(KeyError(str(a[0])), it2.where())
        m = {"get": get, "update": upd, "pop": dpop,
             "items": lambda it2, a, k: list(o.items()),
             "keys": lambda it2, a, k: list(o.keys()),
             "values": lambda it2, a, k: list(o.values()),
             "setdefault": lambda it2, a, k: o.setdefault(a[0], a[1] if len(a) > 1 else None),
             "copy": lambda it2, a, k: dict(o)}
        return NM(m[name]) if name in m else A().MISSING
    if isinstance(o, set):
        def srem(it2, a, k):
            if a[0] not in o:
                raise A().IRaise(KeyError("set.remove"), it2.where())
            o.remove(a[0])
        m = {"add": lambda it2, a, k: o.add(a[0]), "remove": srem,
             "discard": lambda it2, a, k: o.discard(a[0]),
             "union": lambda it2, a, k: o.union(*[set(it2.iterate(x)) for x in a]),
             "update": lambda it2, a, k: o.update(*[set(it2.iterate(x)) for x in a]),
             "copy": lambda it2, a, k: set(o)}
        return NM(m[name]) if name in m else A().MISSING
    if isinstance(o, str):
        if name in STR_METHODS:
            def method(it2, a, k):
                a = [list(it2.iterate(a[0]))] if name == "join" else list(a)
                if name == "format":
                    return formatted(o.format, a, tuple, k)
                if isinstance(o, Text):
                    return TEXT if name in ("strip", "lower", "upper", "replace") \
                        else unknown_text()
                flat = a[0] if name == "join" else a
                if any(isinstance(x, Text) for x in flat):
                    return TEXT if name in ("join", "replace") else unknown_text()
                if not all(isinstance(x, (str, int, tuple)) or x is None for x in flat):
                    if name == "join":
                        raise A().IRaise(TypeError("sequence item is no string"), it2.where())
                    return unknown_text()
                try:
                    return getattr(o, name)(*a, **k)
                except (ValueError, TypeError) as err:
                    raise A().IRaise(err, it2.where())
            return NM(method)
        return A().MISSING
    if isinstance(o, slice):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        if name == "indices":
            def ind(it2, a, k):
                n = it2.intval(a[0])
                if isinstance(n, int):
                    return o.indices(n)
                if o == slice(None):
                    return (0, n, 1)
                raise Unsupported("slice of a symbolic length")
            return NM(ind)
    if isinstance(o, BaseException):
        if name == "args":
            return o.args
    if isinstance(o, A().UBool):
        return A().MISSING
    return A().MISSING


class DType:
    def __init__(self, code):
        self.code = code

    def __eq__(self, o):
        if isinstance(o, DType):
            return self.code == o.code
        return self.code == dtype_code(o)

    def __hash__(self):
        return hash(self.code)


# matrix functions: abstract positive-definite matrices -------------------------
class CholVal:
    pass


def mat_key(a, ndim, what):
    """Function atom of a whole (…×d×d) matrix: name carries the canonical body."""
    raise Unsupported("matrix function %s" % what)


OVERRIDES = {}


import npmore  # noqa: E402,F401  (registers further functions)

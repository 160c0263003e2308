"""Further functions of numpy and the standard library, in terms of those of npdomain."""
import ast
import itertools

import matdomain
import npdomain as nd
import tensor as tn
from tensor import Arr, Unsupported


def cmp(op):
    return lambda it, a, k: nd.compare(it, op, a[0] if nd.is_scalar(a[0]) and nd.is_scalar(a[1])
                                       else tn.lift(a[0]), a[1])


def bin(op):
    return lambda it, a, k: nd.binop(it, op, a[0], a[1])


def tensordot(it, a, k):
    x, y = tn.lift(a[0]), tn.lift(a[1])
    axes = k.get("axes", a[2] if len(a) > 2 else 2)
    axes = nd.ints(it, axes) if not isinstance(axes, (list, tuple)) else [
        v if isinstance(v, (list, tuple)) else [v] for v in axes]
    if isinstance(axes, int):
        p = list(range(x.ndim - axes, x.ndim))
        q = list(range(axes))
    else:
        p, q = [[nd.ints(it, v) for v in s] for s in axes]
    p = [tn.norm_axis(v, x.ndim) for v in p]
    q = [tn.norm_axis(v, y.ndim) for v in q]
    if len(p) != len(q):
        raise tn.ShapeError("shape-mismatch for sum")
    kx, ky = list(range(x.ndim)), [100 + v for v in range(y.ndim)]
    for u, v in zip(p, q):
        ax, ay = x.axes[u], y.axes[v]
        if (ax is None) != (ay is None):
            raise tn.ShapeError("shape-mismatch for sum")
        ky[v] = kx[u]
    out = [v for u, v in enumerate(kx) if u not in p] + [v for u, v in enumerate(ky) if u not in q]
    return tn.einsum([x, y], [kx, ky], out)


def inner(it, a, k):
    x, y = tn.lift(a[0]), tn.lift(a[1])
    if not x.ndim or not y.ndim:
        return tn.mul(x, y)
    return tensordot(it, [x, y, [[-1], [-1]]], {})


def stack_along(axis1, axisn):
    def f(it, a, k):
        xs = [tn.lift(x) for x in it.iterate(a[0])]
        if axisn == 0:
            xs = [tn.insert_axis(x, 0) if x.ndim == 1 else x for x in xs]
        if any(x.ndim == 0 for x in xs):
            raise Unsupported("stacking of scalars")
        return tn.concatenate(xs, axis1 if xs[0].ndim == 1 else axisn)
    return f


def append(it, a, k):
    axis = k.get("axis", a[2] if len(a) > 2 else None)
    x, y = tn.lift(a[0]), tn.lift(a[1])
    if axis is None:
        if x.ndim > 1 or y.ndim > 1:
            raise Unsupported("append to the flattened array")
        x, y = [tn.insert_axis(v, 0) if v.ndim == 0 else v for v in (x, y)]
        axis = 0
    return tn.concatenate([x, y], axis)


def broadcast_shapes(it, a, k):
    out = []
    for s in a:
        s = list(nd.as_shape(it, s))
        n = max(len(s), len(out))
        s, out = [1] * (n - len(s)) + s, [1] * (n - len(out)) + out
        for i, (p, q) in enumerate(zip(out, s)):
            if p == 1:
                out[i] = q
            elif not (q == 1 or nd.cmp_num(ast.Eq(), p, q) is True):
                raise tn.ShapeError("shape mismatch")
    return tuple(out)


def broadcast_arrays(it, a, k):
    xs = [tn.lift(x) for x in a]
    shape = broadcast_shapes(it, [x.shape() for x in xs], {})
    return [tn.broadcast_to(x, shape) for x in xs]


def diag(it, a, k):
    x = tn.lift(a[0])
    if len(a) > 1 or k:
        raise Unsupported("diagonals other than the main one")
    if x.ndim == 2:
        return tn.einsum([x], [[0, 0]], [0])
    if x.ndim != 1:
        raise tn.ShapeError("input must be 1- or 2-d")
    n = x.shape()[0]
    return tn.mul(tn.eye(n), x)


def reducer(f):
    """ufunc.reduce: over the first axis unless told."""
    def g(it, a, k):
        axis = k.get("axis", a[1] if len(a) > 1 else 0)
        kw = {"axis": axis}
        if "keepdims" in k:
            kw["keepdims"] = k["keepdims"]
        x = a[0]
        if isinstance(x, (list, tuple)):
            x = nd.np_array(it, [list(x)], {})
        return f(it, [x], nd.Keywords(kw))
    return g


def multi_dot(it, a, k):
    xs = [tn.lift(x) for x in it.iterate(a[0])]
    out = xs[0]
    for x in xs[1:]:
        out = nd.dot(out, x)
    return out


def solve(it, a, k):
    b = tn.lift(a[1])
    if b.ndim == 1:
        raise Unsupported("solution for a vector")
    return nd.matmul(matdomain.inv_arr(tn.lift(a[0])), b)


def accumulate(it, a, k):
    seq = it.iterate(a[0])
    out = []
    for x in seq:
        out.append(x if not out else (it.call(a[1], [out[-1], x], {}) if len(a) > 1
                                      else nd.binop(it, ast.Add(), out[-1], x)))
    return out


def zip_longest(it, a, k):
    return [tuple(t) for t in itertools.zip_longest(*[it.iterate(x) for x in a],
                                                    fillvalue=k.get("fillvalue"))]


def full_like(it, a, k):
    return tn.broadcast_to(tn.lift(a[1]), tn.lift(a[0]).shape())


def flip(it, a, k):
    x = tn.lift(a[0])
    axis = k.get("axis", a[1] if len(a) > 1 else None)
    axes = range(x.ndim) if axis is None else [tn.norm_axis(nd.ints(it, axis), x.ndim)]
    key = [slice(None, None, -1) if i in axes else slice(None) for i in range(x.ndim)]
    return tn.getitem(x, tuple(key))


def logaddexp(it, a, k):
    exp = nd.NP["exp"]
    return nd.NP["log"](it, [tn.add(tn.lift(exp(it, [a[0]], {})), tn.lift(exp(it, [a[1]], {})))],
                        {})


def rollaxis(it, a, k):
    x = tn.lift(a[0])
    axis = tn.norm_axis(nd.ints(it, a[1]), x.ndim)
    start = nd.ints(it, a[2]) if len(a) > 2 else 0
    order = [i for i in range(x.ndim) if i != axis]
    if start > axis:
        start -= 1
    order.insert(start, axis)
    return nd.np_transpose(it, [x, order], {})


nd.NP.update({
    "equal": cmp(ast.Eq()), "not_equal": cmp(ast.NotEq()), "less": cmp(ast.Lt()),
    "less_equal": cmp(ast.LtE()), "greater": cmp(ast.Gt()), "greater_equal": cmp(ast.GtE()),
    "reciprocal": lambda it, a, k: tn.elementwise(lambda b: b.power(-1), tn.lift(a[0])),
    "floor_divide": bin(ast.FloorDiv()), "mod": bin(ast.Mod()), "remainder": bin(ast.Mod()),
    "positive": lambda it, a, k: a[0],
    "tensordot": tensordot, "inner": inner,
    "hstack": stack_along(0, 1), "vstack": stack_along(None, 0), "append": append,
    "broadcast_shapes": broadcast_shapes, "broadcast_arrays": broadcast_arrays,
    "diag": diag, "full_like": full_like, "flip": flip, "logaddexp": logaddexp,
    "rollaxis": rollaxis, "linalg.multi_dot": multi_dot, "linalg.solve": solve,
    "add.reduce": reducer(nd.np_sum), "logical_or.reduce": reducer(nd.NP["any"]),
    "logical_and.reduce": reducer(nd.NP["all"]),
    "ndindex": lambda it, a, k: [tuple(t) for t in itertools.product(*[
        range(it.intval(n)) for n in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple))
                                      else a)])],
})
nd.EXTRA.update({
    "itertools.zip_longest": zip_longest,
    "itertools.accumulate": accumulate,
    "itertools.chain.from_iterable": lambda it, a, k: [y for x in it.iterate(a[0])
                                                       for y in it.iterate(x)],
    "itertools.starmap": lambda it, a, k: [it.call(a[0], list(it.iterate(x)), {})
                                           for x in it.iterate(a[1])],
    "itertools.combinations": lambda it, a, k: [
        tuple(t) for t in itertools.combinations(it.iterate(a[0]), it.intval(a[1]))],
    "operator.add": bin(ast.Add()), "operator.sub": bin(ast.Sub()),
    "operator.mul": bin(ast.Mult()), "operator.truediv": bin(ast.Div()),
    "operator.pow": bin(ast.Pow()), "operator.matmul": bin(ast.MatMult()),
    "operator.eq": lambda it, a, k: nd.compare(it, ast.Eq(), a[0], a[1]),
    "operator.ne": lambda it, a, k: nd.compare(it, ast.NotEq(), a[0], a[1]),
    "operator.lt": lambda it, a, k: nd.compare(it, ast.Lt(), a[0], a[1]),
    "operator.gt": lambda it, a, k: nd.compare(it, ast.Gt(), a[0], a[1]),
    "operator.neg": lambda it, a, k: nd.NP["negative"](it, a, k),
    "math.log": nd.NP["log"], "math.exp": nd.NP["exp"], "math.sqrt": nd.NP["sqrt"],
    "math.prod": nd.NP["prod"],
})


def outer_of(op):
    def f(it, a, k):
        x, y = tn.lift(a[0]), tn.lift(a[1])
        for _ in range(y.ndim):
            x = tn.insert_axis(x, x.ndim)
        return nd.binop(it, op, x, y)
    return f


nd.NP.update({
    "multiply.outer": outer_of(ast.Mult()), "add.outer": outer_of(ast.Add()),
    "subtract.outer": outer_of(ast.Sub()),
})

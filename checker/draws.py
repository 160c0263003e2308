"""Random numbers: every call of numpy.random is an arbitrary array of its own, and is
recorded with its parameters (`it.draws`)."""
import ast

import npdomain
import tensor as tn
from tensor import Arr, Body, Unsupported, ShapeError


class Draw:
    def __init__(self, kind, params, arr, name):
        self.kind, self.params, self.arr, self.name = kind, params, arr, name


def draw(it, kind, params, size, dtype="f", event=()):
    """An array of independent draws over the given size (None: that of the parameters);
    event: lengths of the axes of a single draw."""
    log = it.__dict__.setdefault("draws", [])
    params = [tn.lift(p) for p in params]
    if size is None:
        shape = broadcast([npdomain.shape_of(p) for p in params])
    else:
        shape = npdomain.as_shape(it, size)
        for p in params:
            tn.broadcast_to(p, shape)       # raises like numpy
    name = "%s~%d" % (kind, len(log))
    axes = [tn.sort_of_len(tn.to_body(n)) for n in tuple(shape) + tuple(event)]
    tn.SYM.pop(name, None)
    tn.INDICATOR.discard(name)
    arr = generic(name, axes, dtype)
    log.append(Draw(kind, params, arr, name))
    return arr


def broadcast(shapes):
    out = tn.lift(0)
    for s in shapes:
        out = tn.add(out, tn.zeros(s))
    return out.shape()


def generic(name, axes, dtype="f"):
    import itertools
    enum = [a for a in axes if isinstance(a, int)]
    data = {}
    for pos in itertools.product(*[range(a) for a in enum]):
        idx, k = [], 0
        for a in axes:
            if a is None:
                continue
            if isinstance(a, int):
                idx.append(pos[k])
                k += 1
            else:
                idx.append(a)
        data[pos] = Body.atom(name, tuple(idx))
    return Arr(tuple(axes), data, dtype)


def args_of(names, defaults):
    def get(a, k):
        vals = dict(zip(names, defaults))
        vals.update(zip(names, a))
        for n in k:
            if n not in names:
                raise Unsupported("random(%s)" % n)
        vals.update(k.items())
        return [vals[n] for n in names]
    return get


def std(kind):
    return lambda it, a, k: draw(it, kind, [], tuple(a) if a else ())


def family(kind, names, defaults, dtype="f"):
    get = args_of(names + ["size"], list(defaults) + [None])

    def f(it, a, k):
        *params, size = get(a, k)
        return draw(it, kind, params, size, dtype)
    return f


def normal(it, a, k):
    loc, scale, size = args_of(["loc", "scale", "size"], [0, 1, None])(a, k)
    if size is None:
        size = broadcast([npdomain.shape_of(tn.lift(x)) for x in (loc, scale)])
    return tn.add(tn.lift(loc), tn.mul(tn.lift(scale), draw(it, "normal", [], size)))


def uniform(it, a, k):
    lo, hi, size = args_of(["low", "high", "size"], [0, 1, None])(a, k)
    if size is None:
        size = broadcast([npdomain.shape_of(tn.lift(x)) for x in (lo, hi)])
    return tn.add(tn.lift(lo), tn.mul(tn.sub(tn.lift(hi), tn.lift(lo)),
                                      draw(it, "uniform", [], size)))


def sized(kind):
    def f(it, a, k):
        size, = args_of(["size"], [None])(a, k)
        return draw(it, kind, [], () if size is None else size)
    return f


def gamma(it, a, k):
    shape, scale, size = args_of(["shape", "scale", "size"], [None, 1, None])(a, k)
    if size is None:
        size = broadcast([npdomain.shape_of(tn.lift(x)) for x in (shape, scale)])
    return tn.mul(tn.lift(scale), draw(it, "gamma", [shape], size))


def standard_gamma(it, a, k):
    shape, size = args_of(["shape", "size"], [None, None])(a, k)
    return draw(it, "gamma", [shape], size)


def multinomial(it, a, k):
    n, p, size = args_of(["n", "pvals", "size"], [None, None, None])(a, k)
    p = tn.lift(p)
    if size is not None or p.ndim != 1 or tn.lift(n).ndim != 0:
        raise Unsupported("multinomial draws of several plates")
    log = it.__dict__.setdefault("draws", [])
    name = "multinomial~%d" % len(log)
    arr = generic(name, list(p.axes), "i")
    log.append(Draw("multinomial", [tn.lift(n), p], arr, name))
    return arr


def searchsorted(it, a, k):
    side = k.get("side", a[2] if len(a) > 2 else "left")
    P, x = tn.lift(a[0]), tn.lift(a[1])
    if P.ndim != 1 or tn.is_idx(P.axes[0]) or x.ndim != 0 or side not in ("left", "right"):
        raise Unsupported("searchsorted")
    n = 1 if P.axes[0] is None else P.axes[0]
    op = ast.Lt() if side == "left" else ast.LtE()
    out = tn.lift(0)
    for i in range(n):
        out = tn.add(out, npdomain.arr_cmp(op, tn.getitem(P, (i,)), x))
    out.dtype = "i"
    return out


NP = {
    "randn": std("normal"), "rand": std("uniform"),
    "random": sized("uniform"), "random_sample": sized("uniform"), "ranf": sized("uniform"),
    "standard_normal": sized("normal"), "normal": normal, "uniform": uniform,
    "gamma": gamma, "standard_gamma": standard_gamma,
    "poisson": family("poisson", ["lam"], [1], "i"),
    "binomial": family("binomial", ["n", "p"], [None, None], "i"),
    "beta": family("beta", ["a", "b"], [None, None]),
    "multinomial": multinomial,
}
npdomain.NP.update({"random." + k: v for k, v in NP.items()})
npdomain.NP["searchsorted"] = searchsorted


# ------------------------------------------------------------------ judging
def linear_in(a, d):
    """(constant part, M) with a == constant + sum_k M[..., k] * d.arr[k] for the draws d;
    M has the axes of a followed by those of d."""
    import itertools
    dn = [x for x in d.arr.axes]
    new = [tn.fresh(x[0]) if tn.is_idx(x) else x for x in dn]
    enum = [x for x in new if isinstance(x, int)]
    const, data = {}, {}
    for p, b in a.data.items():
        c0 = tn.ZERO
        for q in itertools.product(*[range(n) for n in enum]):
            data[tuple(p) + q] = tn.ZERO
        for (fs, bd), c in b.t.items():
            hit = [f for f in fs if f[0] == d.name]
            if not hit:
                if any(mentions(f[0], d.name) for f in fs):
                    raise Unsupported("not linear in the random numbers")
                c0 = c0 + Body({(fs, bd): c})
                continue
            if len(hit) != 1 or hit[0][2] != 1 or \
                    any(mentions(f[0], d.name) for f in fs if f is not hit[0]):
                raise Unsupported("not linear in the random numbers")
            rest = [f for f in fs if f is not hit[0]]
            q, deltas, i = [], [], iter(hit[0][1])
            for x in new:
                if x is None:
                    continue
                v = next(i)
                if isinstance(x, int):
                    if tn.is_idx(v):
                        raise Unsupported("not linear in the random numbers")
                    q.append(v)
                else:
                    deltas.append(("delta", (v, x), 1))
            ren = {x: tn.fresh(x[0]) for x in bd}
            g = [(n, tn._subst_idx(ix, ren), e) for (n, ix, e) in rest + deltas]
            key = tn._canon(g, set(ren.values()))
            if key is not None:
                pos = tuple(p) + tuple(q)
                data[pos] = data[pos] + Body({key: c})
        const[p] = c0
    return Arr(a.axes, const), Arr(tuple(a.axes) + tuple(new), data)


def mentions(n, name):
    if n == name:
        return True
    if isinstance(n, Body):
        return any(mentions(x, name) for x in n.names())
    if isinstance(n, tuple):
        return any(mentions(x, name) for x in n)
    m = getattr(n, "body", None)
    return isinstance(m, Body) and mentions(m, name)

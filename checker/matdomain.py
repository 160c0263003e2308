"""Matrix functions over the indexed-tensor domain.

The numerical primitives (Cholesky factorisation, triangular solves, inverses,
determinants of one matrix) are atoms applied to the canonical form of the matrix;
everything around them (batching, broadcasting, reshaping, recursions) is the
program's own code.  `resolve` rewrites products of a matrix with its inverse.
"""
import itertools
from fractions import Fraction

import tensor as tn
from tensor import Arr, Body, Unsupported, is_idx

P0, P1 = 2 * 10 ** 9, 2 * 10 ** 9 + 1
_table = {}


class Mat:
    """Canonical matrix: `body` with placeholder indices `row`, `col` of one sort and
    `extra` further free indices."""

    def __init__(self, body, sort, extra):
        self.body, self.sort, self.extra = body, sort, extra
        self.row, self.col = (sort, P0), (sort, P1)
        self.text = repr(body)

    def __repr__(self):
        return self.text


def _swap(b, i, j, s):
    t = (s, 2 * 10 ** 9 + 7)
    return b.rename({i: t}).rename({j: i}).rename({t: j})


def matrix(body, i, j):
    """(coefficient, Mat, order of extra indices) of a matrix with index pair (i, j)."""
    if i[0] != j[0]:
        raise Unsupported("matrix function of a %s x %s array" % (i[0], j[0]))
    if body.is_zero():
        raise Unsupported("matrix function of a zero matrix")
    s = i[0]
    factor, body = scalar_factor(body, i, j)
    others = sorted((x for x in body.free() if x not in (i, j)), key=lambda x: (str(x[0]), x[1]))
    by = {}
    for x in others:
        by.setdefault(x[0], []).append(x)
    best = None
    for perms in itertools.product(*[itertools.permutations(by[q]) for q in sorted(by, key=str)]):
        ren, order = {i: (s, P0), j: (s, P1)}, []
        for q, g in zip(sorted(by, key=str), perms):
            for k, x in enumerate(g):
                ren[x] = (q, 3 * 10 ** 9 + k)
                order.append(x)
        b = body.rename(ren)
        k = b.key()
        if best is None or k < best[0]:
            best = (k, b, order, tuple(ren[x] for x in order))
    k, b, order, extra = best
    lead = b.key()[0][1]
    # with a symbolic factor (whose sign is open) the sign is moved there
    c = abs(lead) if factor == tn.ONE else lead
    b = b.scale(1 / c)
    sym = _swap(b, (s, P0), (s, P1), s) == b
    m = _table.get((b, s))
    if m is None:
        m = _table[b, s] = Mat(b, s, extra)
        m.symmetric = sym
    return factor.scale(c), m, tuple(order)


def scalar_factor(body, i, j):
    """body == factor * rest, for the factors of all terms which do not depend on i, j."""
    common = None
    for (fs, bd) in body.t:
        own = {f for f in fs if not any(x in (i, j) or x in bd for x in f[1])
               and f[0] not in tn.INDICATOR and f[0] != "delta"}
        common = own if common is None else common & own
    if not common:
        return tn.ONE, body
    rest = Body({})
    for (fs, bd), c in body.t.items():
        rest = rest + Body({(tuple(f for f in fs if f not in common), bd): c})
    return Body({(tuple(sorted(common, key=tn._fkey)), ()): Fraction(1)}), rest


def fn(name, m, order, i, j):
    """Atom name(m)[order, i, j]."""
    n = (name, m)
    if name == "inv" and m.symmetric:
        tn.SYM[n] = 1
    return Body.atom(n, tuple(order) + (i, j))


def scalar_of(c, p):
    return c.power(p)


# ------------------------------------------------- merged axes (reshape to a matrix)
class Grouped:
    """A two-dimensional array whose axes are groups of the axes of `base`."""

    def __init__(self, base, groups):
        self.base, self.groups = base, [list(g) for g in groups]

    def shape(self):
        out = []
        for g in self.groups:
            n = tn.ONE
            for k in g:
                n = n * tn.axis_len(self.base.axes[k])
            out.append(tn.simplify_num(n))
        return tuple(out)

    @property
    def T(self):
        return Grouped(self.base, self.groups[::-1])

    def reshape(self, shape):
        a = tn.permute(self.base, tuple(k for g in self.groups for k in g))
        return tn.reshape(a, shape)


def reshape(a, shape):
    try:
        return tn.reshape(a, shape)
    except Unsupported:
        if len(shape) != 2:
            raise
        for k in range(1, a.ndim):
            g = Grouped(a, [list(range(k)), list(range(k, a.ndim))])
            if all((isinstance(w, int) and w == -1) or tn.to_body(n) == tn.to_body(w)
                   for n, w in zip(g.shape(), shape)):
                return g
        raise


# ------------------------------------------------------------- primitives
def square(a):
    if a.ndim != 2:
        raise tn.ShapeError("expected a matrix, not %d axes" % a.ndim)
    x, y = a.axes
    if isinstance(x, int) or isinstance(y, int):
        raise Unsupported("matrix function of an enumerated matrix")
    if (x is None) != (y is None):
        if x is None or y is None:
            raise tn.ShapeError("expected square matrix")
    return x, y


def chol(a):
    x, y = square(a)
    b = a.body()
    if x is None:
        return Arr(a.axes, {(): b.power(Fraction(1, 2))})
    c, m, order = matrix(b, x, y)
    return Arr(a.axes, {(): fn("chol", m, order, x, y) * scalar_of(c, Fraction(1, 2))})


def as_chol(a):
    """(coefficient body, Mat, order) such that a[i,j] == coefficient * chol(Mat)[i,j]."""
    x, y = a.axes
    b = a.body()
    if not b.monomial():
        return None
    ((fs, bd), c), = b.t.items()
    hit = [f for f in fs if isinstance(f[0], tuple) and f[0][0] == "chol"]
    if len(hit) != 1 or bd or hit[0][2] != 1:
        return None
    n, ix, q = hit[0]
    if ix[-2:] != (x, y):
        return None
    rest = Body({(tuple(f for f in fs if f is not hit[0]), ()): c})
    if x in rest.free() or y in rest.free():
        return None
    return rest, n[1], ix[:-2]


def unit(b, u):
    if b.axes[0] is not None:
        raise tn.ShapeError("shapes of the matrix and the right hand side differ")
    return tn.elementwise(lambda v: v * u, b)


def transpose(a):
    return tn.permute(a, tuple(reversed(range(a.ndim))))


def rhs(b):
    return b if isinstance(b, Grouped) else tn.lift(b)


def over_groups(f, b):
    """Apply f to an array of columns; b may have merged axes."""
    if not isinstance(b, Grouped):
        return f(b)
    if len(b.groups[0]) != 1:
        raise Unsupported("columns of a reshaped array")
    perm = [k for g in b.groups for k in g]
    r = f(tn.permute(b.base, tuple(perm)))
    return Grouped(r, [[0], list(range(1, r.ndim))])


def apply_matrix(name, m, order, coef, b):
    """Array of sum_j coef*name(m)[i,j] b[j, ...]."""
    return over_groups(lambda c: _apply_matrix(name, m, order, coef, c), b)


def _apply_matrix(name, m, order, coef, b):
    x = b.axes[0]
    s = m.sort
    if x is None or isinstance(x, int) or x[0] != s:
        raise tn.ShapeError("shapes of the matrix and the right hand side differ")
    i, j = tn.fresh(s), tn.fresh(s)
    M = Arr((i, j), {(): fn(name, m, order, i, j) * coef})
    keys = ["k%d" % k for k in range(b.ndim - 1)]
    return tn.einsum([M, b], [["i", "j"], ["j"] + keys], ["i"] + keys)


def opaque(name, *args):
    raise Unsupported(name)


def cho_factor(it, a, kw):
    low = bool(kw.get("lower", a[1] if len(a) > 1 else False))
    U = chol(tn.lift(a[0]))
    if low:
        U = relabel(U, "lchol")
    return (U, low)


def relabel(U, name):
    h = as_chol(U)
    if h is None:
        return U
    c, m, order = h
    x, y = U.axes
    return Arr(U.axes, {(): fn(name, m, order, x, y) * c})


def cholesky(it, a, kw):
    """scipy.linalg.cholesky: upper factor; numpy.linalg.cholesky: lower."""
    low = bool(kw.get("lower", a[1] if len(a) > 1 else False))
    U = chol(tn.lift(a[0]))
    return relabel(U, "lchol") if low else U


def np_cholesky(it, a, kw):
    U = tn.lift(a[0])
    return relabel(chol(U), "lchol")


def cho_solve(it, a, kw):
    U, low = a[0]
    U, b = tn.lift(U), rhs(a[1])
    x, y = square(U)
    if x is None:
        u = U.body()
        return over_groups(lambda c: unit(c, u.power(-2)), b)
    h = as_chol(U)
    if h is None or low:
        c, m, order = matrix(U.body(), x, y)
        return apply_matrix("chosolve%d" % bool(low), m, order, scalar_of(c, -2), b)
    c, m, order = h
    return apply_matrix("inv", m, order, c.power(-2), b)


def solve_triangular(it, a, kw):
    U, b = tn.lift(a[0]), rhs(a[1])
    trans = kw.get("trans", a[2] if len(a) > 2 else 0)
    low = bool(kw.get("lower", a[3] if len(a) > 3 else False))
    trans = {"N": 0, "T": 1, "C": 1, 0: 0, 1: 1, 2: 1}.get(trans, trans)
    extra = [k for k in kw if k not in ("trans", "lower", "overwrite_b", "check_finite")]
    if extra:
        raise Unsupported("solve_triangular(%s)" % ", ".join(extra))
    x, y = square(U)
    if x is None:
        u = U.body()
        return over_groups(lambda c: unit(c, u.power(-1)), b)
    h = as_chol(U)
    if h is None:
        c, m, order = matrix(U.body(), x, y)
        return apply_matrix("tri%d%d" % (trans, low), m, order, scalar_of(c, -1), b)
    c, m, order = h
    return apply_matrix("choltri%d%d" % (trans, low), m, order, c.power(-1), b)


def two_by_two(e):
    """The determinant."""
    return e(0, 0) * e(1, 1) - e(0, 1) * e(1, 0)


def inv_arr(a):
    """Inverse of the last two axes of a stack."""
    if a.ndim < 2:
        raise tn.ShapeError("at least 2 dimensions required")
    x, y = a.axes[-2:]
    if (x, y) == (2, 2):
        data = {}
        for p in {p[:-2] for p in a.data}:
            e = lambda i, j: a.data[p + (i, j)]
            d = two_by_two(e).power(-1)
            data[p + (0, 0)], data[p + (1, 1)] = e(1, 1) * d, e(0, 0) * d
            data[p + (0, 1)], data[p + (1, 0)] = e(0, 1).scale(-1) * d, e(1, 0).scale(-1) * d
        return Arr(a.axes, data)
    if isinstance(x, int) or isinstance(y, int):
        raise Unsupported("inverse of an enumerated matrix")
    if x is None and y is None:
        return tn.elementwise(lambda v: v.power(-1), a)
    if x is None or y is None:
        raise tn.ShapeError("last 2 dimensions of the array must be square")
    data = {}
    for p, b in a.data.items():
        c, m, order = matrix(b, x, y)
        data[p] = fn("inv", m, order, x, y) * scalar_of(c, -1)
    return Arr(a.axes, data)


def logdet_arr(a):
    """log |det| of the last two axes of a stack."""
    if a.ndim < 2:
        raise tn.ShapeError("at least 2 dimensions required")
    x, y = a.axes[-2:]
    if (x, y) == (2, 2):
        return Arr(a.axes[:-2], {p: tn.log_body(tn.fn_atom("abs", two_by_two(
            lambda i, j: a.data[p + (i, j)]))) for p in {p[:-2] for p in a.data}})
    if isinstance(x, int) or isinstance(y, int):
        raise Unsupported("determinant of an enumerated matrix")
    if x is None and y is None:
        return tn.drop_axis(tn.drop_axis(tn.elementwise(tn.log_body, a), a.ndim - 1), a.ndim - 2)
    data = {}
    for p, b in a.data.items():
        c, m, order = matrix(b, x, y)
        data[p] = Body.atom(("logabsdet", m), order) + tn.log_body(c) * tn.size(x[0])
    return Arr(a.axes[:-2], data)


def slogdet(it, a, kw):
    r = logdet_arr(tn.lift(a[0]))
    return (tn.elementwise(lambda b: tn.fn_atom("signdet", b), r), r)


PRIMS = {
    "scipy.linalg.cho_factor": cho_factor,
    "scipy.linalg.cho_solve": cho_solve,
    "scipy.linalg.solve_triangular": solve_triangular,
    "scipy.linalg.cholesky": cholesky,
    "numpy.linalg.cholesky": np_cholesky,
    "scipy.linalg.inv": lambda it, a, k: inv_arr(tn.lift(a[0])),
    "numpy.linalg.inv": lambda it, a, k: inv_arr(tn.lift(a[0])),
    "numpy.linalg.slogdet": slogdet,
}


# ------------------------------------------------------- specification side
def inv(a):
    return inv_arr(tn.lift(a))


def logdet(a):
    """log det of a stack of positive-definite matrices, through the diagonal of the
    Cholesky factors."""
    a = tn.lift(a)
    x, y = a.axes[-2:]
    if x is None:
        return tn.drop_axis(tn.drop_axis(tn.elementwise(tn.log_body, a), a.ndim - 1), a.ndim - 2)
    data = {}
    for p, b in a.data.items():
        c, m, order = matrix(b, x, y)
        i = tn.fresh(x[0])
        d = fn("chol", m, order, i, i) * scalar_of(c, Fraction(1, 2))
        data[p] = tn.log_body(d).bind([i]).scale(2)
    return Arr(a.axes[:-2], data)


def triinv(a, trans=0):
    """Inverse (transposed) of the upper Cholesky factors."""
    a = tn.lift(a)
    x, y = a.axes[-2:]
    if x is None:
        return tn.elementwise(lambda v: v.power(Fraction(-1, 2)), a)
    data = {}
    for p, b in a.data.items():
        c, m, order = matrix(b, x, y)
        data[p] = fn("choltri%d0" % trans, m, order, x, y) * scalar_of(c, Fraction(-1, 2))
    return Arr(a.axes, data)


# ------------------------------------------------- M inv(M) = identity
def _lead(m):
    """A single-atom term of the matrix with both indices: (name, index template, coef,
    other terms)."""
    best = None
    for (fs, bd), c in m.body.t.items():
        if bd or len(fs) != 1 or fs[0][2] != 1:
            continue
        n, ix, q = fs[0]
        if m.row in ix and m.col in ix and ix.count(m.row) == 1 and ix.count(m.col) == 1:
            k = (tn._fkey(fs[0]))
            if best is None or k < best[0]:
                best = (k, n, ix, c, (fs, bd))
    return best


def resolve(body, limit=400):
    """Rewrite sum_j A[x,j] inv(c A + R)[j,z] -> (delta(x,z) - sum_j R[x,j] inv[j,z]) / c."""
    body = tn.rational(body)
    for _ in range(limit):
        r = _step(body)
        if r is None:
            return body
        body = tn.rational(r)
    raise Unsupported("too many rewriting steps")


def _step(body):
    for (fs, bd), c in body.t.items():
        for f in fs:
            n, ix, q = f
            if not (isinstance(n, tuple) and n[0] == "inv") or q != 1:
                continue
            m = n[1]
            lead = _lead(m)
            if lead is None:
                continue
            r = _apply(fs, bd, c, f, m, lead)
            if r is not None:
                t = dict(body.t)
                del t[(fs, bd)]
                return Body(t) + r
    return None


def _apply(fs, bd, c, f, m, lead):
    _, an, template, ac, key = lead
    at = fs.index(f)
    ren0 = {b: tn.fresh(b[0]) for b in bd}
    fs = tuple((n, tn._subst_idx(ix, ren0), q) for (n, ix, q) in fs)
    bd, f = tuple(ren0.values()), fs[at]
    n, ix, q = f
    order, pair = ix[:-2], ix[-2:]
    bound = set(bd)
    ex = dict(zip(m.extra, order))
    for g in fs:
        if g is f or g[0] != an or g[2] != 1 or len(g[1]) != len(template):
            continue
        env, ok = {}, True
        gixs = [g[1]]
        s = tn.SYM.get(an)
        if s == 1:
            gixs.append(g[1][:-2] + (g[1][-1], g[1][-2]))
        for gix in gixs:
            env, ok = {}, True
            for t, v in zip(template, gix):
                if t in (m.row, m.col):
                    env[t] = v
                elif is_idx(t):
                    ok = ok and ex.get(t, t) == v
                else:
                    ok = ok and t == v
            if not ok:
                continue
            # A[.., x, y] inv[y, z]    or    inv[z, x] A[.., x, y]
            x, y = env[m.row], env[m.col]
            for side, shared, keep in ((0, y, x), (1, x, y)):
                opts = [0, 1] if m.symmetric else [0 if side == 0 else 1]
                for pos in opts:
                    if pair[pos] != shared or shared not in bound:
                        continue
                    z = pair[1 - pos]
                    if z == shared:
                        continue
                    if sum(1 for (_, i2, _) in fs for i in i2 if i == shared) != 2:
                        continue
                    rest = [h for h in fs if h is not f and h is not g]
                    restb = Body({(tuple(rest), ()): c})
                    base = Body.atom("delta", (keep, z))
                    R = Body({k: v for k, v in m.body.t.items() if k != key})
                    if not R.is_zero():
                        ren = dict(ex)
                        ren.update({m.row: keep, m.col: shared} if side == 0
                                   else {m.row: shared, m.col: keep})
                        Rb = R.rename(ren) * Body.atom(n, ix)
                        base = base - Rb.bind([shared])
                    out = restb * base.scale(1 / ac)
                    return out.bind([b for b in bd if b != shared])
    return None

"""P10: the linear-algebra and array helpers act on stacks of arrays as documented.

Every helper is interpreted on generic arrays whose leading (plate) axes broadcast in
every legal way; the result must equal the documented formula for each element.  One
matrix's Cholesky factorisation, triangular solve and inverse are primitives
(matdomain); the block-tridiagonal solver and the forward-backward recursion are
decided by exact algebra (A inv(A) = I, sums over all paths).
"""
import itertools
from fractions import Fraction

import tensor as tn
import matdomain as md
import npdomain
import scen
from scen import World, same, expected
from tensor import Body

SIZES = {"N": 2, "K": 3}
PL = ("N", "K")
PATS = [PL, ("N", 1), (1, "K"), (1, 1), ("K",), (1,), ()]


def run(ctx):
    scen.prepare(ctx)
    ctx.rule("linalg", "linear algebra of stacks of matrices, per element", floor=40)
    ctx.rule("banded", "block-tridiagonal solver: inverse blocks, solution and log-determinant",
             floor=6)
    ctx.rule("recursion", "forward-backward recursion == sums over all state paths", floor=4)
    ctx.rule("arrays", "axis manipulation and sum-product helpers, per element", floor=60)
    ctx.rule("formulas", "densities and entropies of the utilities are the documented ones", floor=4)
    ctx.assumptions = [
        "factorisation, triangular solve and inverse of a single matrix are primitives",
        "plate axes of 2 and 3 elements; matrix dimensions of any size; 1 to 4 blocks or steps"]
    h = H(ctx)
    linalg(h)
    banded(h)
    recursion(h)
    arrays(h)
    formulas(h)
    ctx.functions.update(h.w.it.functions)


class H:
    def __init__(self, ctx):
        self.ctx = ctx
        self.w = World(ctx, sizes=SIZES)

    def fn(self, mod, name):
        f = self.w.it.cls("bayespy.utils.%s.%s" % (mod, name))
        return lambda *a, **k: self.w.it.call(f, list(a), k)

    def where(self, mod, name):
        try:
            f = self.ctx.p.function("bayespy.utils.%s.%s" % (mod, name))
            return "%s:%d" % (f.module.rel, f.node.lineno)
        except Exception:
            return "bayespy/utils/%s.py (%s)" % (mod, name)

    def es(self, *a):
        return npdomain.np_einsum(self.w.it, list(a), {})

    def check(self, rule, mod, name, label, got, want, shape=None, resolve=False):
        """got, want: thunks. shape: required exact shape of the result."""
        lab = "%s.%s: %s" % (mod, name, label)
        with self.ctx.instance(rule, lab):
            self.w.reset()
            g = got(self.fn(mod, name))
            v = expected(want)
            gs, vs = listed(g), listed(v)
            ok = len(gs) == len(vs)
            why = "number of results" if not ok else ""
            for k, (a, b) in enumerate(zip(gs, vs)):
                if a is None or b is None or isinstance(b, (tuple, bool)):
                    r = a == b
                    s = True
                else:
                    a, b = tn.lift(a), tn.lift(b)
                    s = shape is not False and same_shape(a, b) or shape is False
                    r = s and equal(a, b, resolve)
                if not r:
                    ok = False
                    why = "result %d is %s; documented %s" % (k, str(a)[:300], str(b)[:300])
                    break
            self.ctx.verdict(rule, lab, ok, why, self.where(mod, name))


def same_shape(a, b):
    x, y = a.shape(), b.shape()
    return len(x) == len(y) and all(tn.to_body(p) == tn.to_body(q) for p, q in zip(x, y))


def equal(a, b, resolve=False):
    d = tn.sub(a, b)
    return all((md.resolve(x) if resolve else x).is_zero() for x in d.data.values())


def listed(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def bc(*pats):
    """Legal pairs only, and their broadcast shape."""
    n = max(len(p) for p in pats)
    out = []
    for k in range(-n, 0):
        vals = {p[k] for p in pats if -k <= len(p)} - {1}
        if len(vals) > 1:
            return None
        out.append(vals.pop() if vals else 1)
    return tuple(out)


def full(h, x, pat, nd):
    """Broadcast the leading axes of the specification's result."""
    tail = tuple(x.shape())[x.ndim - nd:] if nd else ()
    return tn.broadcast_to(x, h.w.shape(pat) + tail)


def linalg(h):
    w, es = h.w, h.es
    D = ("D",)
    for p in PATS:
        L = w.arr("L", p + D + D, sym=1)
        U = None
        with h.ctx.instance("linalg", "linalg.chol of [%s]" % ",".join(p + D + D if False else
                                                                       map(str, p))):
            U = h.fn("linalg", "chol")(L)
        if U is None:
            continue
        lab = "matrices[%s]" % ",".join(map(str, p))
        h.check("linalg", "linalg", "chol_inv", lab, lambda f: f(U), lambda: md.inv(L))
        h.check("linalg", "linalg", "chol_logdet", lab, lambda f: f(U), lambda: md.logdet(L))
        h.check("linalg", "linalg", "logdet_chol", lab, lambda f: f(U), lambda: md.logdet(L))
        h.check("linalg", "linalg", "logdet_cov", lab, lambda f: f(L), lambda: md.logdet(L))
        h.check("linalg", "linalg", "inv", lab, lambda f: f(L, ndim=1), lambda: md.inv(L))
        for q in PATS:
            s = bc(p, q)
            if s is None:
                continue
            l2 = lab + ", vectors[%s]" % ",".join(map(str, q))
            b = w.arr("b", q + D)
            B = w.arr("B", q + D + ("E",))
            h.check("linalg", "linalg", "chol_solve", l2, lambda f: f(U, b),
                    lambda: full(h, es("...ij,...j->...i", md.inv(L), b), s, 1))
            h.check("linalg", "linalg", "chol_solve", l2 + ", matrix", lambda f: f(U, B, matrix=True),
                    lambda: full(h, es("...ij,...jk->...ik", md.inv(L), B), s, 2))
            for tr in ("N", "T"):
                h.check("linalg", "linalg", "solve_triangular", l2 + ", trans=" + tr,
                        lambda f: f(U, b, trans=tr, lower=False),
                        lambda: full(h, es("...ij,...j->...i", md.triinv(L, int(tr == "T")), b), s, 1))
        for q in PATS:
            s = bc(p, q)
            if s is None:
                continue
            l2 = "[%s] and [%s]" % (",".join(map(str, p)), ",".join(map(str, q)))
            A = w.arr("A", p + ("E", "D"))
            b = w.arr("b", q + D)
            B = w.arr("B", q + ("D", "F"))
            C = w.arr("C", q + ("D", "E"))
            h.check("linalg", "linalg", "mvdot", l2, lambda f: f(A, b),
                    lambda: full(h, es("...ij,...j->...i", A, b), s, 1))
            h.check("linalg", "linalg", "mmdot", l2, lambda f: f(A, B),
                    lambda: full(h, es("...ij,...jk->...ik", A, B), s, 2))
            h.check("linalg", "linalg", "dot", l2, lambda f: f(A, B),
                    lambda: full(h, es("...ij,...jk->...ik", A, B), s, 2))
            h.check("linalg", "linalg", "dot", l2 + " three", lambda f: f(A, B, tn.permute(
                B, tuple(range(B.ndim - 2)) + (B.ndim - 1, B.ndim - 2))),
                    lambda: full(h, es("...ij,...jk,...lk->...il", A, B, B), s, 2))
            h.check("linalg", "linalg", "tracedot", l2, lambda f: f(A, C),
                    lambda: full(h, es("...ij,...ji->...", A, C), s, 0))
            x, y = w.arr("x", p + ("D",)), w.arr("y", q + ("E",))
            z = w.arr("z", q + ("D",))
            h.check("linalg", "linalg", "outer", l2, lambda f: f(x, y),
                    lambda: full(h, es("...i,...j->...ij", x, y), s, 2))
            h.check("linalg", "linalg", "inner", l2, lambda f: f(x, z),
                    lambda: full(h, es("...i,...i->...", x, z), s, 0))
            X, Y = w.arr("x", p + ("D", "E")), w.arr("y", q + ("D", "F"))
            Z = w.arr("z", q + ("D", "E"))
            h.check("linalg", "linalg", "outer", l2 + " ndim=2", lambda f: f(X, Y, ndim=2),
                    lambda: full(h, es("...ij,...kl->...ijkl", X, Y), s, 4))
            h.check("linalg", "linalg", "inner", l2 + " ndim=2", lambda f: f(X, Z, ndim=2),
                    lambda: full(h, es("...ij,...ij->...", X, Z), s, 0))
            M4 = w.arr("A", p + ("E", "F", "D", "E"))
            h.check("linalg", "linalg", "mvdot", l2 + " ndim=2", lambda f: f(M4, Z, ndim=2),
                    lambda: full(h, es("...abij,...ij->...ab", M4, Z), s, 2))
            # scalars (ndim=0)
            u, v = w.arr("x", p), w.arr("y", q)
            h.check("linalg", "linalg", "outer", l2 + " ndim=0", lambda f: f(u, v, ndim=0),
                    lambda: full(h, tn.mul(u, v), s, 0))
            h.check("linalg", "linalg", "mvdot", l2 + " ndim=0", lambda f: f(u, v, ndim=0),
                    lambda: full(h, tn.mul(u, v), s, 0))
            h.check("linalg", "linalg", "mmdot", l2 + " ndim=0", lambda f: f(u, v, ndim=0),
                    lambda: full(h, tn.mul(u, v), s, 0))
            h.check("linalg", "linalg", "chol_solve", l2 + " ndim=0",
                    lambda f: f(h.fn("linalg", "chol")(u, ndim=0), v, ndim=0),
                    lambda: full(h, tn.div(v, u), s, 0))
        u = w.arr("x", p)
        h.check("linalg", "linalg", "chol_inv", lab + " ndim=0",
                lambda f: f(h.fn("linalg", "chol")(u, ndim=0), ndim=0),
                lambda: tn.elementwise(lambda b: b.power(-1), u))
        h.check("linalg", "linalg", "chol_logdet", lab + " ndim=0",
                lambda f: f(h.fn("linalg", "chol")(u, ndim=0), ndim=0),
                lambda: tn.elementwise(tn.log_body, u))
        h.check("linalg", "linalg", "inv", lab + " ndim=0", lambda f: f(u, ndim=0),
                lambda: tn.elementwise(lambda b: b.power(-1), u))
        A = w.arr("A", p + ("D", "E"))
        h.check("linalg", "linalg", "transpose", lab, lambda f: f(A),
                lambda: es("...ij->...ji", A))
        A4 = w.arr("A", p + ("D", "E", "F", "G"))
        h.check("linalg", "linalg", "transpose", lab + " ndim=2", lambda f: f(A4, ndim=2),
                lambda: es("...ijkl->...klij", A4))


# ------------------------------------------------------------ block-tridiagonal
def blk(a, *i):
    return tn.getitem(a, (Ellipsis,) + i + (slice(None), slice(None)))


def vec(a, i):
    return tn.getitem(a, (Ellipsis, i, slice(None)))


def banded(h):
    w, es, ctx = h.w, h.es, h.ctx
    D = w.n("D")
    combos = [((), (), ()), (("N",), (), ()), ((), ("N",), ()), ((), (), ("N",)),
              (("N",), ("N",), ("N",)), (("N",), (1,), ("K", 1)), ((1,), ("N",), ("K", "N"))]
    fn = h.fn("linalg", "block_banded_solve")
    where = h.where("linalg", "block_banded_solve")
    for T in (1, 2, 3, 4):
        for pa, pb, py in combos if T <= 3 else combos[:1]:
            lab = "linalg.block_banded_solve: %d blocks, A[%s] B[%s] y[%s]" % (
                T, ",".join(map(str, pa)), ",".join(map(str, pb)), ",".join(map(str, py)))
            with ctx.instance("banded", lab):
                w.reset()
                A = w.arr("A", pa + (T, "D", "D"), sym=1)
                B = w.arr("B", pb + (T - 1, "D", "D")) if T > 1 else \
                    tn.zeros(w.shape(pb) + (0, D, D))
                y = w.arr("y", py + (T, "D"))
                V, C, x, ld = fn(A, B, y)
                bad = expected(lambda: banded_spec(h, T, A, B, y, V, C, x, ld,
                                                   w.shape(bc(pa, pb)), w.shape(bc(pa, pb, py))))
                ctx.verdict("banded", lab, not bad, "; ".join(bad)[:600], where)


def banded_spec(h, T, A, B, y, V, C, x, ld, vplates, xplates):
    es = h.es
    D = h.w.n("D")
    bad = []

    def zero(what, a):
        if not all(md.resolve(b).is_zero() for b in a.data.values()):
            bad.append(what)
    for nm, a, sh in (("inverse blocks", V, vplates + (T, D, D)),
                      ("off-diagonal blocks", C, vplates + (T - 1, D, D)),
                      ("solution", x, xplates + (T, D)), ("log-determinant", ld, vplates)):
        s = tn.lift(a).shape()
        if len(s) != len(sh) or any(tn.to_body(p) != tn.to_body(q) for p, q in zip(s, sh)):
            bad.append("%s of shape %s" % (nm, s))
    if bad:
        return bad
    if T > 1:
        c = lambda n: blk(C, n)
        b = lambda n: blk(B, n)
    for n in range(T):
        r = es("...ij,...jk->...ik", blk(A, n), blk(V, n))
        z = es("...ij,...j->...i", blk(A, n), vec(x, n))
        if n < T - 1:
            r = tn.add(r, es("...ij,...kj->...ik", b(n), c(n)))
            z = tn.add(z, es("...ij,...j->...i", b(n), vec(x, n + 1)))
        if n > 0:
            r = tn.add(r, es("...ji,...jk->...ik", b(n - 1), c(n - 1)))
            z = tn.add(z, es("...ji,...j->...i", b(n - 1), vec(x, n - 1)))
        zero("(M inv)[%d,%d] is not the identity" % (n, n), tn.sub(r, tn.eye(D)))
        zero("M x != y at block %d" % n, tn.sub(z, vec(y, n)))
        zero("block %d of the inverse is not symmetric" % n,
             tn.sub(blk(V, n), es("...ij->...ji", blk(V, n))))
    if T > 1:
        zero("(M inv)[0,1] != 0", tn.add(es("...ij,...jk->...ik", blk(A, 0), c(0)),
                                         es("...ij,...jk->...ik", b(0), blk(V, 1))))
        zero("(M inv)[last,last-1] != 0",
             tn.add(es("...ji,...jk->...ik", b(T - 2), blk(V, T - 2)),
                    es("...ij,...kj->...ik", blk(A, T - 1), c(T - 2))))
    # log-determinant: product of the Schur complements
    S = blk(A, 0)
    want = md.logdet(S)
    for n in range(1, T):
        S = tn.sub(blk(A, n), es("...ji,...jk,...kl->...il", b(n - 1), md.inv(S), b(n - 1)))
        want = tn.add(want, md.logdet(S))
    if not equal(tn.lift(ld), want):
        bad.append("log-determinant")
    return bad


# ------------------------------------------------------------ forward-backward
def recursion(h):
    w, es = h.w, h.es
    exp = lambda a: tn.elementwise(npdomain.exp_body, a)
    for T in (1, 2, 3, 4):
        for p, q in [((), ()), (("N",), ()), ((), ("N",)), (("N",), ("N",)), (("N",), (1,)),
                     (("N", 1), ("K",))]:
            if T == 4 and p + q:
                continue
            s = bc(p, q)
            a = w.arr("a", p + ("D",))
            b = w.arr("b", q + (T, "D", "D"))
            lab = "%d steps, initial[%s], transitions[%s]" % (T, ",".join(map(str, p)),
                                                              ",".join(map(str, q)))

            def spec():
                letters = "ijklmn"
                ops = [exp(a)] + [exp(blk(b, n)) for n in range(T)]
                ins = ",".join(["..." + letters[0]] +
                               ["..." + letters[n:n + 2] for n in range(T)])
                Z = es(ins + "->...", *ops)
                iZ = tn.elementwise(lambda v: v.power(-1), Z)
                z0 = es(ins + ",...->..." + letters[0], *(ops + [iZ]))
                zz = [tn.insert_axis(full(h, es(ins + ",...->..." + letters[n:n + 2],
                                                *(ops + [iZ])), s, 2), len(s)) for n in range(T)]
                return [full(h, z0, s, 1), tn.concatenate(zz, len(s)) if T > 1 else zz[0],
                        full(h, tn.neg(tn.elementwise(tn.log_body, Z)), s, 0)]
            h.check("recursion", "random", "alpha_beta_recursion", lab, lambda f: f(a, b), spec)


# ------------------------------------------------------------ arrays
P3 = [("A", "B", "C"), ("A", 1, "C"), (1, "B", 1), ("B", "C"), (1, "C"), ("C",), (1,), (),
      ("A", 1, 1)]


def sum_spec(h, arrs, keep, nd, keepdims):
    """Sum of the product over all axes of the broadcast shape but `keep`."""
    pr = tn.lift(1)
    for a in arrs:
        pr = tn.mul(pr, a)
    pr = tn.broadcast_to(pr, tuple(pr.shape()))
    while pr.ndim < nd:
        pr = tn.insert_axis(pr, 0)
    ax = tuple(k for k in range(nd) if k not in keep)
    return tn.sum_axes(pr, ax, keepdims=keepdims) if ax else pr


def arrays(h):
    w, es = h.w, h.es
    show = lambda p: "[%s]" % ",".join(map(str, p))
    # sums of products
    for p, q in itertools.product(P3, P3[:6]):
        x, y = w.arr("x", p), w.arr("y", q)
        nd = max(len(p), len(q))
        for ax in [None, (), 0, -1] + [(0, -1)] * (nd > 2) + [(-1, -2)] * (nd > 1):
            if ax in (0, -1) and nd == 0:
                continue
            t = () if ax is None else (ax,) if isinstance(ax, int) else ax
            t = {a % nd for a in t} if nd else set()
            for kd in (False, True):
                lab = "%s * %s, axis=%s keepdims=%s" % (show(p), show(q), ax, kd)
                keep = set() if ax is None else set(range(nd)) - t
                h.check("arrays", "misc", "sum_multiply", lab,
                        lambda f: f(x, y, axis=ax, keepdims=kd),
                        lambda: sum_spec(h, [x, y], keep, nd, kd))
                if not isinstance(ax, int) and ax is not None:
                    h.check("arrays", "misc", "sum_product", "keep " + lab,
                            lambda f: f(x, y, axes_to_keep=list(ax), keepdims=kd),
                            lambda: sum_spec(h, [x, y], t, nd, kd))
    # sums of products to plates
    for p, q in itertools.product([("A", "B"), ("A", 1), (1, "B"), ("B",), (1, 1), ()], repeat=2):
        s = bc(p, q)
        if s is None:
            continue
        for to in [("A", "B"), ("A", 1), (1, "B"), ("B",), (1, 1), (1,), ()]:
            for frm in (None, ("A", "B")):
                base = s if frm is None else frm
                if bc(base, to) != base and frm is not None:
                    continue
                if frm is None and not subset(to, s):
                    continue
                for nd in (0, 1):
                    tail = ("D",) if nd else ()
                    x, y = w.arr("x", p + tail), w.arr("y", q + tail)
                    lab = "%s * %s to %s from %s ndim=%d" % (show(p), show(q), show(to), frm, nd)

                    def spec():
                        pr = tn.mul(x, y)
                        pr = tn.broadcast_to(pr, w.shape(base) + tuple(
                            pr.shape())[pr.ndim - nd:])
                        while pr.ndim - nd < len(to):
                            pr = tn.insert_axis(pr, 0)
                        lead = pr.ndim - nd - len(to)
                        ax = tuple(range(lead))
                        pr = tn.sum_axes(pr, ax) if ax else pr
                        ax = tuple(k for k, t in enumerate(to) if t == 1 and pr.axes[k] is not None)
                        pr = tn.sum_axes(pr, ax, keepdims=True) if ax else pr
                        return tn.broadcast_to(pr, w.shape(to) + tuple(pr.shape())[pr.ndim - nd:])

                    def got(f):
                        r = tn.lift(f(x, y, to_plates=w.shape(to), ndim=nd,
                                      from_plates=None if frm is None else w.shape(frm)))
                        return tn.broadcast_to(r, w.shape(to) + tuple(r.shape())[r.ndim - nd:])
                    h.check("arrays", "misc", "sum_multiply_to_plates", lab, got, spec)
    # sum and repeat to a shape
    for p, s in itertools.product([("A", "B"), ("A", 1), ("B",), (1,), ()],
                                  [("A", "B"), ("A", 1), (1, "B"), ("B",), (1,), ()]):
        x = w.arr("x", p)
        if len(s) <= len(p) and all(t == 1 or t == a for t, a in zip(s, p[len(p) - len(s):])):
            h.check("arrays", "misc", "sum_to_shape", "%s to %s" % (show(p), show(s)),
                    lambda f: f(x, w.shape(s)),
                    lambda: tn.sum_axes(
                        tn.sum_axes(x, tuple(range(len(p) - len(s)))) if len(p) > len(s) else x,
                        tuple(k for k, t in enumerate(s) if t == 1), keepdims=True)
                    if any(t == 1 for t in s) else
                    (tn.sum_axes(x, tuple(range(len(p) - len(s)))) if len(p) > len(s) else x))
        if len(s) >= len(p) and subset(p, s):
            h.check("arrays", "misc", "repeat_to_shape", "%s to %s" % (show(p), show(s)),
                    lambda f: f(x, w.shape(s)), lambda: tn.broadcast_to(x, w.shape(s)))
    # axes
    x = w.arr("x", ("A", "B", "C", "D"))
    for i, j in itertools.product(range(-4, 4), repeat=2):
        perm = [k for k in range(4) if k != i % 4]
        perm.insert(j % 4, i % 4)
        h.check("arrays", "misc", "moveaxis", "4 axes, %d to %d" % (i, j), lambda f: f(x, i, j),
                lambda: tn.permute(x, tuple(perm)))
    for p in [("A", "B"), ("A",), ()]:
        x = w.arr("x", p)
        for n in (0, 1, 2):
            h.check("arrays", "misc", "add_leading_axes", "%s + %d" % (show(p), n),
                    lambda f: f(x, n), lambda: ins(x, [0] * n))
            h.check("arrays", "misc", "add_trailing_axes", "%s + %d" % (show(p), n),
                    lambda f: f(x, n), lambda: ins(x, [x.ndim + k for k in range(n)]))
            for ax in range(-1 - len(p), len(p) + 1):
                at = ax if ax >= 0 else len(p) + 1 + ax
                if ax < 0:
                    pos = [len(p) + k + 1 + ax for k in range(n)]
                else:
                    pos = [at] * n
                h.check("arrays", "misc", "add_axes", "%s + %d at %d" % (show(p), n, ax),
                        lambda f: f(x, num=n, axis=ax), lambda: ins(x, pos))
        for d in range(4):
            h.check("arrays", "misc", "atleast_nd", "%s to %d axes" % (show(p), d),
                    lambda f: f(x, d), lambda: ins(x, [0] * max(0, d - len(p))))
    x = w.arr("x", (1, 1, "A", "B"))
    for d in (2, 3, 4):
        h.check("arrays", "misc", "squeeze_to_dim", "[1,1,A,B] to %d" % d, lambda f: f(x, d),
                lambda: drop(x, 4 - d))
    # diagonals
    for p in [("N", "K"), ("N", 1), ()]:
        for nd in (0, 1, 2, 3):
            ds = ("A",) if nd == 1 else (2, 3, 2)[:nd]
            for n2 in range(nd + 1):
                ld, ad = "ijk"[:nd], "abc"[:nd]
                # the first nd - n2 axes are diagonal, the last n2 are full
                second = ld[:nd - n2] + ad[nd - n2:]
                full_ = w.arr("X", p + ds + ds)
                h.check("arrays", "misc", "get_diag", "%s ndim=%d ndim_to=%d" % (show(p), nd, n2),
                        lambda f: f(full_, ndim=nd, ndim_to=n2),
                        lambda: es("...%s%s->...%s%s" % (ld, second, ld, ad[nd - n2:]), full_)
                        if nd else full_)
                small = w.arr("X", p + ds + ds[nd - n2:])
                eyes = [tn.eye(w.n(a)) for a in ds[:nd - n2]]
                h.check("arrays", "misc", "make_diag", "%s ndim=%d ndim_from=%d" % (show(p), nd, n2),
                        lambda f: f(small, ndim=nd, ndim_from=n2),
                        lambda: es(",".join(["..." + ld + ad[nd - n2:]] +
                                            [a + b for a, b in zip(ld, ad)][:nd - n2]) +
                                   "->..." + ld + ad, small, *eyes))
            x = w.arr("X", p + ds)
            h.check("arrays", "misc", "diag", "%s ndim=%d" % (show(p), nd),
                    lambda f: f(x, ndim=nd),
                    lambda: es(",".join(["..." + ld] + [a + b for a, b in zip(ld, ad)]) +
                               "->..." + ld + ad, x, *[tn.eye(w.n(a)) for a in ds]))
        x = w.arr("X", p + ("A", "B"))
        h.check("arrays", "misc", "T", show(p), lambda f: f(x), lambda: es("...ij->...ji", x))
        x = w.arr("X", p + ("A", "A"))
        h.check("arrays", "misc", "symm", show(p), lambda f: f(x),
                lambda: tn.mul(tn.add(x, es("...ij->...ji", x)), tn.lift(Fraction(1, 2))))
    # concatenation and block diagonals with broadcasting
    for p, q in itertools.product(PATS, repeat=2):
        s = bc(p, q)
        if s is None:
            continue
        x, y = w.arr("x", p + (2, 3)), w.arr("y", q + (1, 2))
        y2 = w.arr("y", q + (2, 2))
        lab = "%s and %s" % (show(p), show(q))
        sh = w.shape(s)
        h.check("arrays", "misc", "concatenate", lab, lambda f: f(x, y2, axis=-1),
                lambda: tn.concatenate([tn.broadcast_to(x, sh + (2, 3)),
                                        tn.broadcast_to(y2, sh + (2, 2))], len(s) + 1))

        def bd():
            X, Y = tn.broadcast_to(x, sh + (2, 3)), tn.broadcast_to(y, sh + (1, 2))
            top = tn.concatenate([X, tn.zeros(sh + (2, 2))], len(s) + 1)
            bot = tn.concatenate([tn.zeros(sh + (1, 3)), Y], len(s) + 1)
            return tn.concatenate([top, bot], len(s))
        h.check("arrays", "misc", "block_diag", lab, lambda f: f(x, y), bd)
    # flattening
    for p in [("N", "K"), ()]:
        x = w.arr("x", p + (2, 3, 4))
        h.check("arrays", "misc", "flatten_axes", show(p) + " 2,1", lambda f: f(x, 2, 1),
                lambda: tn.reshape(x, w.shape(p) + (6, 4)))
        h.check("arrays", "misc", "flatten_axes", show(p) + " 1,2", lambda f: f(x, 1, 2),
                lambda: tn.reshape(x, w.shape(p) + (2, 12)))
        y = w.arr("x", p + (6, 4))
        h.check("arrays", "misc", "reshape_axes", show(p), lambda f: f(y, (2, 3), (4,)),
                lambda: tn.reshape(y, w.shape(p) + (2, 3, 4)))
    # shapes
    for p, q in itertools.product(P3, repeat=2):
        s = bc(p, q)
        lab = "%s and %s" % (show(p), show(q))
        if s is not None:
            h.check("arrays", "misc", "broadcasted_shape", lab,
                    lambda f: tuple(f(w.shape(p), w.shape(q))),
                    lambda: [w.n(a) for a in s])
        h.check("arrays", "misc", "is_shape_subset", lab,
                lambda f: bool(f(w.shape(p), w.shape(q))), lambda: subset(p, q))
        if subset(q, p) or len(q) > len(p) and bc(p, q) is not None:
            h.check("arrays", "misc", "axes_to_collapse", lab,
                    lambda f: (tuple(f(w.shape(p), w.shape(q))),),
                    lambda: [tuple(k for k in range(-len(p), 0) if p[k] != 1
                                   and (-k > len(q) or q[k] == 1))])
        n = max(len(p), len(q))
        pp, qq = (1,) * (n - len(p)) + p, (1,) * (n - len(q)) + q
        h.check("arrays", "misc", "multiply_shapes", lab,
                lambda f: tuple(f(w.shape(p), w.shape(q))),
                lambda: [tn.Arr.scalar(tn.to_body(w.n(a)) * tn.to_body(w.n(b)))
                         for a, b in zip(pp, qq)])
    # log-sum-exp
    exp = lambda a: tn.elementwise(npdomain.exp_body, a)
    for p in [("N", "D"), ("N", "D", "E"), ("D",)]:
        x = w.arr("x", p)
        for ax in [-1, (-1,), None] + [(-1, -2), -2] * (len(p) > 1):
            t = tuple(range(len(p))) if ax is None else (ax,) if isinstance(ax, int) else ax
            for kd in (False, True):
                h.check("arrays", "misc", "logsumexp", "%s axis=%s keepdims=%s" % (show(p), ax, kd),
                        lambda f: f(x, axis=ax, keepdims=kd),
                        lambda: tn.elementwise(tn.log_body, tn.sum_axes(
                            exp(x), tuple(sorted(k % len(p) for k in t)), keepdims=kd)))

        def norm():
            Z = tn.sum_axes(exp(x), (len(p) - 1,), keepdims=True)
            return [tn.div(exp(x), Z), tn.elementwise(tn.log_body, Z)]
        h.check("arrays", "misc", "normalized_exp", show(p), lambda f: f(x), norm)


def subset(p, q):
    return len(p) <= len(q) and all(a == 1 or a == b for a, b in zip(p, q[len(q) - len(p):]))


def ins(x, positions):
    for k in positions:
        x = tn.insert_axis(x, k)
    return x


def drop(x, n):
    for _ in range(n):
        x = tn.drop_axis(x, 0)
    return x


# ------------------------------------------------------------ formulas
def formulas(h):
    w = h.w
    S = lambda n: w.arr(n, ("N",))
    at = lambda n: S(n)
    half = tn.lift(Fraction(1, 2))
    log = lambda a: tn.elementwise(tn.log_body, a)
    lgam = lambda a: tn.elementwise(lambda b: npdomain.apply_fn("gammaln", b), a)
    pi2 = tn.mul(tn.lift(2), tn.Arr.scalar(Body.atom("pi")))
    D = tn.lift(w.n("D"))

    def lin(*terms):
        out = tn.lift(0)
        for c, x in terms:
            out = tn.add(out, tn.mul(tn.lift(c), x))
        return out
    F = Fraction
    h.check("formulas", "random", "gaussian_logpdf", "all", lambda f: f(
        S("yy"), S("ym"), S("mm"), S("ld"), w.n("D")),
        lambda: lin((F(-1, 2), S("yy")), (1, S("ym")), (F(-1, 2), S("mm")), (F(1, 2), S("ld")),
                    (F(-1, 2), tn.mul(D, log(pi2)))))
    h.check("formulas", "random", "gaussian_entropy", "all", lambda f: f(S("ld"), w.n("D")),
            lambda: lin((F(-1, 2), S("ld")), (F(1, 2), D), (F(1, 2), tn.mul(D, log(pi2)))))
    h.check("formulas", "random", "gamma_logpdf", "all", lambda f: f(
        S("bx"), S("lx"), S("alx"), S("alb"), S("ga")),
        lambda: lin((1, S("alb")), (-1, S("ga")), (1, S("alx")), (-1, S("lx")), (-1, S("bx"))))
    h.check("formulas", "random", "gamma_entropy", "all", lambda f: f(
        S("a"), S("lb"), S("ga"), S("pa"), S("apa")),
        lambda: lin((1, S("a")), (-1, S("lb")), (1, S("ga")), (1, S("pa")), (-1, S("apa"))))
    nu = S("nu")

    def t():
        hn = tn.mul(half, tn.add(nu, D))
        return lin((1, lgam(hn)), (-1, lgam(tn.mul(half, nu))),
                   (F(-1, 2), tn.mul(D, log(tn.mul(nu, tn.Arr.scalar(Body.atom("pi")))))),
                   (F(-1, 2), S("ld")),
                   (-1, tn.mul(hn, log(tn.add(tn.lift(1), tn.div(S("z2"), nu))))))
    h.check("formulas", "random", "t_logpdf", "all", lambda f: f(S("z2"), S("ld"), nu, w.n("D")), t)

    def s():
        a, b = S("a"), S("b")
        return [w.arr("mu", ("N", "D")),
                tn.mul(w.arr("C", ("N", "D", "D")), ins(tn.div(b, a), [1, 2])),
                tn.mul(tn.lift(2), a)]
    h.check("formulas", "random", "gaussian_gamma_to_t", "all",
            lambda f: f(w.arr("mu", ("N", "D")), w.arr("C", ("N", "D", "D")), S("a"), S("b")), s)
    h.check("formulas", "random", "logodds_to_probability", "all", lambda f: f(S("x")),
            lambda: tn.div(tn.lift(1), tn.add(tn.lift(1), tn.elementwise(
                npdomain.exp_body, tn.neg(S("x"))))))

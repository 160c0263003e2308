"""Axis-erasing algebraic interpretation of value graphs.

Array-valued terms are mapped to exact scalar formulas: an array stands for one
generic element, shape manipulations are the identity, contractions are products
and matrix factorisations act like their 1x1 counterparts.  The map is a
homomorphism (it is the restriction of the code to arrays with singleton axes), so
an identity that fails on the images fails on the code.

Vector-valued variables whose components matter (categories) are split in K
components: `at(k)` interprets a term at component k of its last axis and a sum
over the axis is the explicit sum of the components.
"""
from fractions import Fraction
from vg import *
from alg import *
from core import Undecided


class NeedCase(Exception):
    def __init__(self, cond):
        self.cond = cond


IDENTITY = {"np.asanyarray", "np.asarray", "np.array", "np.copy", "np.reshape", "np.squeeze",
            "np.expand_dims", "np.ravel", "np.atleast_1d", "np.atleast_2d", "np.broadcast_to",
            "np.moveaxis", "np.swapaxes", "np.transpose", "np.ascontiguousarray",
            "misc.add_trailing_axes", "misc.add_leading_axes", "misc.add_axes",
            "misc.atleast_nd", "misc.diag", "misc.get_diag", "misc.make_diag", "misc.repeat_to_shape",
            "misc.moveaxis", "misc.squeeze", "misc.squeeze_to_dim", "linalg.transpose", "float",
            "misc.T", "np.diag", "misc.diagonal", "np.diagonal", "np.real", "np.float64"}
SUMS = {"np.sum", "misc.sum_to_dim", "misc.sum_to_shape", "np.nansum"}
PRODUCT = {"linalg.outer": 2, "linalg.inner": 2, "linalg.mvdot": 2, "linalg.mmdot": 2,
           "np.dot": 2, "np.outer": 2, "np.multiply": 2, "linalg.dot": None, "linalg.tracedot": 2,
           "misc.multiply": None, "misc.sum_multiply": None, "misc.sum_product": None,
           "np.matmul": 2, "np.inner": 2, "misc.m_dot": 2, "linalg.m_dot": 2, "misc.m_outer": 2}
CONTRACT = {"linalg.inner", "np.inner", "np.dot", "np.vdot"}
ONES = {"np.ones", "misc.identity", "np.identity", "np.eye", "np.ones_like"}
ZEROS = {"np.zeros", "np.zeros_like"}
FN1 = {"special.gammaln": "gammaln", "special.psi": "digamma", "special.digamma": "digamma",
       "scipy.special.gammaln": "gammaln", "scipy.special.psi": "digamma",
       "scipy.special.digamma": "digamma"}


class Erase(Conv):
    def __init__(self, table=None, cases=None, K=None, comp=None, vec=(), root=None, shapes=None):
        Conv.__init__(self)
        self.table = table or {}     # term -> Poly or tuple/list of Poly per component
        self.cases = cases if cases is not None else {}
        self.K = K
        self.comp = comp
        self.root = root or self
        self.kids = {}

    def at(self, k):
        if self.comp == k:
            return self
        r = self.root.kids.get(k)
        if r is None:
            r = self.root.kids[k] = Erase(self.table, self.cases, self.K, k, root=self.root)
        return r

    def atom(self, t):
        raise Undecided("no scalar interpretation of %s" % str(t)[:160])

    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op == "un" and c.a[0] == "not":
            return not self.decide(c.a[1])
        if c in self.cases:
            return self.cases[c]
        raise NeedCase(c)

    def over_components(self, f):
        out = Poly()
        for k in range(self.K):
            out = out + f(self.at(k))
        return out

    def is_vec(self, t):
        return any(isinstance(self.table.get(s), (tuple, list)) for s in subterms(t)) or \
            any(s.op in ("list", "tuple") and len(s.a) == self.K and
                all(is_const(x) and isinstance(x.a[0], (int, float)) for x in s.a)
                for s in subterms(t))

    def conv(self, t):
        v = self.table.get(t)
        if v is not None:
            if isinstance(v, (tuple, list)):
                if self.comp is None:
                    raise Undecided("vector %s used as a scalar" % str(t)[:60])
                return v[self.comp]
            return v
        if is_const(t):
            if isinstance(t.a[0], (int, float, bool)):
                try:
                    return Poly.const(t.a[0])
                except ValueError:
                    pass
            self.atom(t)
        if t.op == "phi":
            return self.branch(t)
        if t.op == "name" and t.a[0] in ("np.pi", "math.pi"):
            return Poly.sym("pi")
        if t.op in ("list", "tuple"):
            if self.K is not None and len(t.a) == self.K and self.comp is not None:
                return self(t.a[self.comp])
            if len(t.a) == 1 and t.a[0].op not in ("star", "each"):
                return self(t.a[0])      # numpy stacks along one leading singleton axis
            self.atom(t)
        if t.op == "sub":
            return self.subscript(t)
        if t.op == "bin" and t.a[0] == "@":
            return self.product(list(t.a[1:]), False)
        if t.op == "attr" and t.a[1] == "T":
            return self(t.a[0])
        if t.op == "call":
            r = self.call(t)
            if r is not None:
                return r
        if t.op == "mcall":
            r = self.mcall(t)
            if r is not None:
                return r
        return Conv.conv(self, t)

    def branch(self, t):
        c, a, b = t.a
        try:
            return self(a if self.decide(c) else b)
        except NeedCase as nc:
            if nc.cond not in subterms(c) and nc.cond is not c:
                raise
        try:
            x, y = self(a), self(b)
            if x == y:
                return x
        except (Undecided, NeedCase, ValueError):
            pass
        return self(a if self.decide(c) else b)

    # -- numpy -----------------------------------------------------------------
    def subscript(self, t):
        base, ix = t.a
        items = ix.a if ix.op == "tuple" else (ix,)
        if base.op == "call" and base.a[0] == "misc.normalized_exp" and is_const(ix):
            return self.normexp(base.a[1][0], ix.a[0])
        if base.op == "call" and base.a[0] in ("np.shape",) and len(items) == 1:
            return self.size()
        if base.op == "attr" and base.a[1] in ("shape",) and len(items) == 1 and \
                items[0].op != "slice":
            return self.size()
        comp = None
        for i in items:
            if i is NONE or i.op == "slice" or (is_const(i) and i.a[0] is Ellipsis) or \
                    (i.op == "name" and i.a[0] == "np.newaxis") or i.op == "star":
                continue
            if i.op == "bin" and any(x.op == "tuple" for x in i.a[1:]):
                continue                 # (Ellipsis,) + k*(None,)
            if is_const(i) and isinstance(i.a[0], int) and comp is None:
                comp = i.a[0]
                continue
            self.atom(t)
        if comp is None:
            if all(i.op == "slice" for i in items):
                self.atom(t)
            return self(base)
        if len(items) > 1 and items[-1].op == "const" and self.K is not None:
            return self.at(comp % self.K)(base)
        self.atom(t)

    def size(self):
        return Poly.const(self.K) if self.K is not None else Poly.sym("D")

    def normexp(self, x, i):
        if self.K is None:
            raise Undecided("normalised exponential without components")
        z = self.over_components(lambda e: fn("exp", e(x)))
        return fn("exp", self(x)) / z if i == 0 else fn("log", z)

    def product(self, args, contract):
        if contract and self.K is not None and any(self.is_vec(a) for a in args):
            def one(e):
                r = Poly.const(1)
                for a in args:
                    r = r * e(a)
                return r
            return self.over_components(one)
        r = Poly.const(1)
        for a in args:
            r = r * self(a)
        return r

    def logdet(self, x):
        """log |x| with numeric factors raised to the dimension."""
        return fn("ldet", self(x))

    def chol_arg(self, t):
        """The matrix of which t is a Cholesky factor."""
        if t.op == "phi":
            return self.chol_arg(t.a[1] if self.decide(t.a[0]) else t.a[2])
        if t.op == "call" and t.a[0] in ("linalg.chol", "misc.chol", "misc.m_chol",
                                         "np.linalg.cholesky", "misc.cholesky"):
            return t.a[1][0]
        return None

    def call(self, t):
        n, a, kw = t.a
        kw = dict(kw)
        if n in IDENTITY and a:
            return self(a[0])
        if n in ("np.sum", "np.nansum"):
            if self.K is not None and self.is_vec(a[0]):
                return self.over_components(lambda e: e(a[0]))
            return self(a[0])
        if n in SUMS and a:
            return self(a[0])
        if n in ONES:
            return Poly.const(1)
        if n in ZEROS:
            return Poly()
        if n == "np.concatenate" and self.K is not None and self.comp is not None and \
                a and a[0].op in ("list", "tuple") and len(a[0].a) == self.K:
            return self(a[0].a[self.comp])
        if n in ("np.einsum",) and a and is_const(a[0]):
            ops = [x for x in a[1:]]
            return self.product(ops, str(a[0].a[0]).split("->")[0].replace(" ", "") ==
                                "...i,...i")
        if n in PRODUCT:
            k = PRODUCT[n]
            ops = list(a[:k]) if k is not None else list(a)
            contract = n in CONTRACT or n in ("misc.sum_multiply", "misc.sum_product")
            if n in ("misc.sum_multiply", "misc.sum_product") and self.K is not None:
                raise Undecided("sum_multiply over components")
            if n == "linalg.inner":
                nd = kw.get("ndim", a[2] if len(a) > 2 else None)
                if nd is not None and nd is const(0):
                    contract = False
            return self.product(ops, contract)
        if n in FN1 and len(a) == 1:
            return fn(FN1[n], self(a[0]))
        if n in ("special.polygamma", "scipy.special.polygamma") and len(a) == 2 and \
                is_const(a[0]):
            if a[0].a[0] == 1:
                return fn("trigamma", self(a[1]))
            if a[0].a[0] == 0:
                return fn("digamma", self(a[1]))
        if n in ("special.multigammaln", "scipy.special.multigammaln") and len(a) == 2:
            return fn("mgammaln", self(a[0]), self(a[1]))
        if n == "misc.multidigamma" and len(a) == 2:
            return fn("mdigamma", self(a[0]), self(a[1]))
        if n == "np.log1p":
            return fn("log", Poly.const(1) + self(a[0]))
        if n == "np.expm1":
            return fn("exp", self(a[0])) - 1
        if n == "misc.logsumexp":
            return self.normexp(a[0], 1)
        if n in ("np.prod",):
            x = a[0]
            if x.op == "attr" and x.a[1] == "shape" or x.op == "call" and x.a[0] == "np.shape" \
                    or x.op == "sub" and x.a[0].op == "call" and x.a[0].a[0] == "np.shape":
                return self.size()
        if n == "len":
            return self.size()
        if n in ("np.linalg.inv", "linalg.inv", "misc.inv") and a:
            return self(a[0]).inverse()
        if n in ("linalg.logdet_cov", "linalg.logdet") and a:
            return self.logdet(a[0])
        if n in ("linalg.chol_solve", "linalg.chol_inv", "linalg.chol_logdet",
                 "linalg.logdet_chol", "misc.chol_solve", "misc.chol_inv", "misc.chol_logdet",
                 "misc.m_chol_solve", "misc.m_chol_inv", "misc.m_chol_logdet") and a:
            x = self.chol_arg(a[0])
            if x is None:
                raise Undecided("not a Cholesky factor: %s" % str(a[0])[:80])
            short = n.split(".")[1].replace("m_", "")
            if short == "chol_inv":
                return self(x).inverse()
            if short == "chol_solve":
                return self(a[1]) / self(x)
            return self.logdet(x)
        if n in ("linalg.chol", "np.linalg.cholesky") and a:
            return self(a[0]) ** Fraction(1, 2)
        if n == "linalg.solve_triangular" and len(a) >= 2:
            return self(a[1]) / self(a[0])
        if n == "np.where" and len(a) == 3:
            return self(a[1] if self.decide(a[0]) else a[2])
        return None

    def mcall(self, t):
        name, base, args, kw = t.a
        if name in ("copy", "reshape", "squeeze", "transpose", "view", "astype", "ravel"):
            return self(base)
        if name == "sum":
            if self.K is not None and self.is_vec(base):
                return self.over_components(lambda e: e(base))
            return self(base)
        if name == "dot" and len(args) == 1:
            return self.product([base, args[0]], True)
        return None


def strip_seq(v, cases, ncomp=None):
    """Resolve a returned sequence under case assumptions: -> tuple of terms."""
    while True:
        if v.op == "phi":
            c = v.a[0]
            neg = False
            while c.op == "un" and c.a[0] == "not":
                c, neg = c.a[1], not neg
            if c in cases:
                v = v.a[1] if cases[c] != neg else v.a[2]
                continue
            raise NeedCase(c)
        if v.op == "obj":
            v = v.a[0]
            continue
        if v.op in ("list", "tuple") and not any(x.op in ("star", "each") for x in v.a):
            return tuple(v.a)
        raise Undecided("not a literal sequence: %s" % str(v)[:120])


def run_cases(f, fixed=None, limit=32):
    """Run f(cases) for every combination of the conditions it asks about.

    Yields (cases, result or Undecided exception)."""
    work = [dict(fixed or {})]
    n = 0
    while work:
        cases = work.pop()
        try:
            r = f(cases)
        except NeedCase as nc:
            n += 1
            if n > limit:
                yield cases, Undecided("too many cases")
                return
            work.append(dict(cases, **{}) | {nc.cond: False})
            work.append(dict(cases) | {nc.cond: True})
            continue
        except Undecided as err:
            yield cases, err
            continue
        yield cases, r

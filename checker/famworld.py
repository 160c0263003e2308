"""Any exponential-family variable in any graph: a node class whose distribution
returns arbitrary arrays, so that what is interpreted is the plate, mask, observation
and update machinery of the program alone."""
import itertools

import tensor as tn
from nodeworld import World, contract, same
from scen import patterns, expand_right, expected
import scen

FAM = '''
from bayespy.inference.vmp.nodes.expfamily import ExponentialFamily, ExponentialFamilyDistribution
from bayespy.inference.vmp.nodes.node import Moments

class AnyMoments(Moments):
    """Fixed moments of a value are given."""
    def __init__(self, fixed, dims):
        self.fixed = fixed
        self.dims = dims
    def compute_fixed_moments(self, x):
        return list(self.fixed[x])

class AnyDistribution(ExponentialFamilyDistribution):
    def __init__(self, phi, g, post, fixed, grad):
        self.phi_p, self.g_p = phi, g
        self.post, self.fixed, self.grad = post, fixed, grad
        self.seen = []
    def compute_phi_from_parents(self, *u_parents, mask=True):
        return list(self.phi_p)
    def compute_cgf_from_parents(self, *u_parents):
        return self.g_p
    def compute_moments_and_cgf(self, phi, mask=True):
        self.seen.append((list(phi), mask))
        return (list(self.post[0]), self.post[1])
    def compute_fixed_moments_and_f(self, x, mask=True):
        u, f = self.fixed[x]
        return (list(u), f)
    def compute_gradient(self, g, u, phi):
        self.graded = (list(g), list(u), list(phi))
        return list(self.grad)
    def random(self, *phi, plates=None):
        self.drawn = (list(phi), plates)
        return "sample"
    def compute_message_to_parent(self, parent, index, u, *u_parents):
        return list(self.message[index])

class AnyNode(ExponentialFamily):
    """Any stochastic exponential-family node."""
    _parent_moments = ()
    def __init__(self, *parents, distribution=None, moments=None, dims=None, plates=None, **kw):
        self.dims = dims
        self._distribution = distribution
        self._moments = moments
        self._parent_moments = tuple(p._moments for p in parents)
        super().__init__(*parents, plates=plates, **kw)
'''


class Fam(World):
    def __init__(self, ctx):
        World.__init__(self, ctx)
        env = self.it.load_source("family", FAM)
        self.AnyNode, self.AnyMoments = env.vars["AnyNode"], env.vars["AnyMoments"]
        self.AnyDistribution = env.vars["AnyDistribution"]


# ------------------------------------------------------------------ the scenario
P = (2, 3)
DIMS = [("D",), ("D", "D"), ()]


def cmask(v):
    """Constant boolean array from nested lists (or a plain bool)."""
    if isinstance(v, bool):
        return v
    if isinstance(v[0], list):
        n, m = len(v), len(v[0])
        axes = tuple(None if k == 1 else k for k in (n, m))
        data = {}
        for i in range(n):
            for j in range(m):
                pos = tuple(p for p, k in ((i, n), (j, m)) if k != 1)
                data[pos] = tn.Body.const(int(v[i][j]))
        return tn.Arr(axes, data, "b")
    n = len(v)
    if n == 1:
        return tn.Arr((None,), {(): tn.Body.const(int(v[0]))}, "b")
    return tn.Arr((n,), {(i,): tn.Body.const(int(x)) for i, x in enumerate(v)}, "b")


T, F = True, False
MASKS = [
    ("nothing", F), ("everything", T),
    ("elements", [[T, F, T], [F, F, T]]),
    ("columns", [T, F, F]), ("columns as a row", [[F, T, T]]), ("rows", [[F], [T]]),
    ("none of the elements", [[F, F, F], [F, F, F]]),
    ("all of the elements", [[T, T, T], [T, T, T]]),
]


class Any:
    """One arbitrary node with two children (one with an additional plate axis)."""

    def __init__(self, w, pats=None, observed=F, m1=T, m2=T, annealing=1, bias=True,
                 multiplier=None, child_multiplier=None, sinks=True):
        pats = pats or {}
        self.w, self.pats = w, pats
        P = globals()['P']
        self.dims = DIMS

        def arrs(name):
            pat = pats.get(name, P)
            return [w.arr("%s%d" % (name, c), tuple(pat) + tuple(d)) for c, d in enumerate(DIMS)]

        def arr(name):
            return w.arr(name, pats.get(name, P))
        self.phi_p, self.phi_q, self.u, self.u_new, self.u_fix = map(
            arrs, ("phi_p", "phi_q", "u", "u_new", "u_fix"))
        self.g_p, self.g_q, self.f, self.g_new, self.f_new = map(
            arr, ("g_p", "g_q", "f", "g_new", "f_new"))
        self.grad = arrs("grad")
        dist = w.it.call(self.cls(w, "AnyDistribution"), [
            list(self.phi_p), self.g_p, (list(self.u_new), self.g_new),
            {"x": (list(self.u_fix), self.f_new)}, list(self.grad)], {})
        self.dist = dist
        mom = w.it.call(w.AnyMoments, [{"x": list(self.u_fix), "sample": list(self.u_fix)},
                                       tuple(w.shape(d) for d in DIMS)], {})
        self.bias = [w.arr("bias%d" % c, tuple(d)) for c, d in enumerate(DIMS)] if bias else None
        self.node = w.it.call(w.AnyNode, [], dict(
            distribution=dist, moments=mom, dims=tuple(w.shape(d) for d in DIMS),
            plates=w.shape(P), initialize=False, phi_bias=self.bias and list(self.bias),
            plates_multiplier=multiplier))
        self.annealing = annealing
        observed, m1, m2 = fit(observed), fit(m1), fit(m2)
        w.it.setattr(self.node, "annealing", annealing)
        self.observed = cmask(observed)
        self.set_state()
        self.g1 = self.g2 = None
        if sinks:
            self.g1 = arrs("msg1")
            pat2 = (2,) + tuple(pats.get("msg2", P))
            self.g2 = [w.arr("msg2%d" % c, pat2 + tuple(d)) for c, d in enumerate(DIMS)]
            self.m1, self.m2 = cmask(m1), cmask(m2)
            w.sink(self.node, w.shape(P), list(self.g1), self.m1, multiplier=child_multiplier)
            w.sink(self.node, w.shape((2,) + P), list(self.g2), self.m2)

    @staticmethod
    def cls(w, name):
        return getattr(w, name)

    def set_state(self):
        w = self.w
        for name, v in (("phi", list(self.phi_q)), ("u", [tn.Arr(a.axes, dict(a.data), a.dtype) for a in self.u]),
                        ("g", self.g_q), ("f", self.f), ("observed", self.observed)):
            w.it.setattr(self.node, name, v)

    def message(self, c, r=1):
        """Sum of the masked messages of the children, over the plates of the node."""
        d = len(DIMS[c])
        full = self.w.shape(P + tuple(DIMS[c]))
        one = tn.mul(scen.expand_right(tn.lift(self.m1), d), self.g1[c])
        one = tn.mul(tn.broadcast_to(one, full), tn.lift(r))
        two = tn.broadcast_to(tn.mul(scen.expand_right(tn.lift(self.m2), d), self.g2[c]),
                              self.w.shape((2,) + P + tuple(DIMS[c])))
        return tn.add(one, tn.sum_axes(two, (0,)))

    def where(self, new, old, c=None):
        """new at the latent plates, old at the observed ones."""
        d = len(DIMS[c]) if c is not None else 0
        full = self.w.shape(P + (tuple(DIMS[c]) if c is not None else ()))
        o = scen.expand_right(tn.lift(self.observed), d)
        o, new, old = [tn.broadcast_to(tn.lift(x), full) for x in (o, new, old)]
        return tn.add(tn.mul(o, old), tn.mul(tn.sub(tn.lift(1), o), new))

    # -------------------------------------------------------------- judging
    def shape(self, c=None):
        return self.w.shape(P + (tuple(DIMS[c]) if c is not None else ()))

    def eq(self, got, want, c=None):
        """Equal up to broadcasting over the plates, with the axes a node array must have."""
        got = tn.lift(got)
        full = self.shape(c)
        if got.ndim > len(full):
            return "has %d axes instead of %d" % (got.ndim, len(full))
        try:
            a = tn.broadcast_to(got, full)
        except tn.ShapeError as e:
            return "does not broadcast to the shape of the node: %s" % e
        want = expected(lambda: tn.broadcast_to(tn.lift(want), full))
        d = tn.sub(a, want)
        for pos, x in d.data.items():
            if not x.is_zero():
                return "at plate %s: is %s; must be %s" % (
                    pos[:2], str(a.data.get(pos))[:250], str(want.data.get(pos))[:250])
        return None

    def state(self, **want):
        """Compare the state of the node: phi=[..], u=[..], g=.., f=.."""
        for name, v in want.items():
            got = self.w.get(self.node, name)
            if isinstance(v, list):
                if len(got) != len(v):
                    return "%s has %d components instead of %d" % (name, len(got), len(v))
                for c, (a, b) in enumerate(zip(got, v)):
                    e = self.eq(a, b, c)
                    if e:
                        return "%s[%d] %s" % (name, c, e)
            else:
                e = self.eq(got, v)
                if e:
                    return "%s %s" % (name, e)
        return None


def plates(p):
    """Set the plates of the arbitrary nodes."""
    global P
    P = p


PLATES = [(2, 3), (3,), (), (1, 3)]


def fit(m):
    """A mask of the plates (2,3) restricted to the present plates."""
    if isinstance(m, bool) or P == (2, 3):
        return m
    rows = m if isinstance(m[0], list) else [m]
    if P == (1, 3):
        return [rows[-1]]
    return rows[-1] if len(P) == 1 else rows[-1][-1]


def label():
    return "" if P == (2, 3) else ", plates [%s]" % ",".join(map(str, P))


def masks():
    return [(a, m) for a, m in MASKS if P == (2, 3) or isinstance(m, bool)
            or (P[-1:] == (3,) and not isinstance(m[0], list))]


def one_by_one(names, extra=False):
    """Broadcasting patterns: one array at a time, and all together."""
    out = [("", {})]
    for p in patterns(P)[1:]:
        if len(p) == len(P):
            for n in names:
                out.append(("%s broadcast as [%s]" % (n, ",".join(map(str, p))), {n: p}))
            out.append(("all broadcast as [%s]" % ",".join(map(str, p)), {n: p for n in names}))
        else:
            for n in names:
                if n in ("phi_p", "g_p", "u_new", "g_new", "msg1", "f_new"):
                    out.append(("%s with axes [%s]" % (n, ",".join(map(str, p))), {n: p}))
    one = (1,) * len(P)
    out.append(("all broadcast as [%s]" % ",".join(map(str, one)), {n: one for n in names}))
    for n in names:
        if n == "phi_p" and extra and P:
            out.append(("%s with additional leading axes" % n, {n: (1,) + P}))
            out.append(("%s with additional leading axes, broadcast" % n, {n: (1,) + one}))
    return out

"""Building blocks of scenarios: moment kinds, arbitrary sources, broadcasting
patterns, guards of single instances (used by the rules that run `nodeworld`)."""
import traceback

import tensor as tn
from absint import IRaise
from nodeworld import World, contract, same
from tensor import Arr, Body, Unsupported, ShapeError


# ------------------------------------------------------------- moment kinds
def gaussian(w, dims):
    return w.new("GaussianMoments", w.shape(dims)), [dims, dims + dims], [0, len(dims)]


def gamma(w, dims):
    return w.new("GammaMoments"), [(), ()], [0, 0]


def wishart(w, dims):
    return w.new("WishartMoments", w.shape(dims)), [dims + dims, ()], [len(dims), 0]


def gaussgamma(w, dims):
    return w.new("GaussianGammaMoments", w.shape(dims)), \
        [dims, dims + dims, (), ()], [0, len(dims), 0, 0]


def categorical(w, dims):
    return w.new("CategoricalMoments", w.n(dims[0])), [dims], [0]


def bernoulli(w, dims):
    return w.new("BernoulliMoments"), [()], [0]


def beta(w, dims):
    return w.new("BetaMoments"), [(2,)], [0]


def gmc(w, dims):          # (N, D)
    N, D = dims
    return w.new("GaussianMarkovChainMoments", w.n(N), w.n(D)), \
        [(N, D), (N, D, D), (N - 1, D, D)], [0, 1, 0]


def cmc(w, dims):          # (K, N)
    K, N = dims
    return w.new("CategoricalMarkovChainMoments", w.n(K), w.n(N)), \
        [(K,), (N - 1, K, K)], [0, 0]


class Src:
    def __init__(self, w, kind, name, plates, dims=(), pattern=None, u=None):
        """pattern: axes of the moment arrays over the plates (None: all)."""
        self.kind, self.name, self.plates = kind, name, tuple(plates)
        self.moments, self.shapes, self.syms = kind(w, tuple(dims))
        pat = self.plates if pattern is None else pattern
        self.names = [name + str(c) for c in range(len(self.shapes))]
        if u is None:
            u = [w.arr(nm, tuple(pat) + tuple(sh), sym=s)
                 for nm, sh, s in zip(self.names, self.shapes, self.syms)]
        self.u = u
        self.dims = tuple(w.shape(sh) for sh in self.shapes)
        self.obj = w.source(self.moments, self.dims, w.shape(plates), u)

    def __repr__(self):
        return self.name


def patterns(plates):
    """Legal broadcastings of an array over the given plates."""
    out = [tuple(plates)]
    for k in range(len(plates)):
        if plates[k] != 1:
            out.append(tuple(1 if j == k else a for j, a in enumerate(plates)))
    for k in range(1, len(plates) + 1):
        out.append(tuple(plates[k:]))
    seen = []
    for p in out:
        if p not in seen:
            seen.append(p)
    return seen


def expected(f):
    """Evaluate the specification; it must not fail where the code does not."""
    try:
        return f()
    except (ShapeError, IndexError) as err:
        raise Unsupported("specification not applicable: %s" % err)


def describe(p, pat):
    return "" if pat is None or tuple(pat) == tuple(p) else \
        "[%s]" % ",".join(str(a) for a in pat)


def expand_right(x, nd):
    for _ in range(nd):
        x = tn.insert_axis(x, x.ndim)
    return x


def expand_left(x, nd):
    k = x.ndim - nd
    for _ in range(nd):
        x = tn.insert_axis(x, k)
    return x


def node_moments(w, node):
    return [tn.lift(x) for x in w.call(node, "get_moments")]


def node_dims(w, node):
    return [tuple(d) for d in w.get(node, "dims")]


def message(w, node, plates, pat, syms):
    return [w.arr("g%d" % c, tuple(pat) + tuple(dims), sym=s)
            for c, (dims, s) in enumerate(zip(node, syms))]


def total(w, node, arrs, us):
    out = None
    for c, (a, u) in enumerate(zip(arrs, us)):
        if a is None:
            continue
        t = contract(a, u, w.call(node, "get_shape", c))
        out = t if out is None else out + t
    return out if out is not None else tn.ZERO


def axis_specs(w, shape):
    """Concrete shape -> axis specs (ints and sort names)."""
    out = []
    for s in shape:
        b = tn.to_body(s)
        c = b.constant()
        if c is not None:
            out.append(int(c))
        else:
            ((fs, _), _), = b.t.items()
            out.append(fs[0][0][1])
    return tuple(out)


def sym_of(w, node):
    """Number of paired axes for second-moment-like components."""
    m = w.get(node, "_moments")
    name = m.cls.name
    dims = node_dims(w, node)
    out = []
    for c, d in enumerate(dims):
        s = 0
        if name in ("GaussianMoments", "GaussianGammaMoments", "GaussianWishartMoments"):
            s = len(d) // 2 if c == (2 if name == "GaussianWishartMoments" else 1) else 0
        elif name == "WishartMoments":
            s = len(d) // 2 if c == 0 else 0
        elif name == "GaussianMarkovChainMoments":
            s = 1 if c == 1 else 0
        out.append(s)
    return out


class Inst:
    """Guard of one instance: outside the domain -> undecided; an exception of the
    analysed code on legal input -> violation."""

    def __init__(self, ctx, rule, construct, where=""):
        self.ctx, self.rule, self.construct = ctx, rule, construct

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            return False
        if issubclass(et, Unsupported):
            self.ctx.und(self.rule, self.construct, "%s (%s)" % (ev, getattr(ev, "trace", "")))
            return True
        if issubclass(et, IRaise) and "NotImplementedError" in str(ev):
            self.ctx.und(self.rule, self.construct, "not implemented: %s" % ev)
            return True
        if issubclass(et, (IRaise, ShapeError, IndexError)):
            self.ctx.bad(self.rule, self.construct, "raises on legal input: %s%s" % (
                ev, " at " + ev.where if getattr(ev, "where", "") else ""),
                         getattr(ev, "where", "") or getattr(ev, "trace", ""))
            return True
        if issubclass(et, (KeyboardInterrupt, SystemExit, MemoryError)):
            return False
        last = traceback.extract_tb(tb)[-1]
        self.ctx.und(self.rule, self.construct, "analysis failure: %s: %s (%s:%d)" % (
            et.__name__, str(ev)[:200], last.filename.rsplit("/", 1)[-1], last.lineno))
        return True


def prepare(ctx):
    ctx.instance = lambda rule, construct: Inst(ctx, rule, construct)

    def class_where(cls):
        try:
            c = ctx.p.get_class(cls)
            return "%s:%d" % (c.module.rel, c.node.lineno)
        except Exception:
            return ""
    ctx.class_where = class_where


def gammaprior(w, dims):
    return w.new("GammaPriorMoments"), [(), ()], [0, 0]


def wishartprior(w, dims):
    return w.new("WishartPriorMoments", w.n(dims[0])), [(), ()], [0, 0]


def dirichlet(w, dims):
    return w.new("DirichletMoments", w.n(dims[0])), [dims], [0]


def concentration(w, dims):
    return w.new("ConcentrationMoments", w.n(dims[0])), [dims, ()], [0, 0]


def poisson(w, dims):
    return w.new("PoissonMoments"), [()], [0]

"""Abstract graphs: a node of the program between source nodes (any parents) and sink
nodes (any children), interpreted by absint over the indexed-tensor domain.

`SRC` is driver code interpreted together with the program: the sources provide
arbitrary moments, the sinks arbitrary messages and masks; everything in between
(plate handling, masking, collecting and summing messages) is the program's.
"""
import tensor as tn
from tensor import Arr, Body, Num, Unsupported, ShapeError, size, fresh
import absint
import draws

SRC = '''
from bayespy.inference.vmp.nodes.node import Node

class Source(Node):
    """Any stochastic node with the given moments."""
    _parent_moments = ()
    def __init__(self, moments, dims, plates, u, multiplier=None):
        self._moments = moments
        self.u = u
        super().__init__(dims=dims, plates=plates, plates_multiplier=multiplier)
    def _get_id_list(self):
        return [id(self)]
    def get_moments(self):
        return list(self.u)
    def random(self):
        return self.value

class Sink(Node):
    """Any child which sends the given message under the given mask."""
    def __init__(self, X, plates, message, mask, multiplier=None):
        self._parent_moments = (X._moments,)
        super().__init__(X, dims=(), plates=plates, plates_multiplier=multiplier)
        self.mask = mask
        self.message = message
    def _get_id_list(self):
        return [id(self)]
    def _get_message_and_mask_to_parent(self, index, u_parent=None):
        return (list(self.message), self.mask)
'''


class World:
    def __init__(self, ctx_or_program, overrides=None, sizes=None):
        self.sizes = sizes or {}    # sorts with a fixed number of elements
        p = getattr(ctx_or_program, "p", ctx_or_program)
        self.it = absint.Interp(p, overrides)
        self.env = self.it.load_source("driver", SRC)
        self.Source = self.env.vars["Source"]
        self.Sink = self.env.vars["Sink"]

    def reset(self):
        self.it.steps = 0
        self.it.mutations = []
        self.it.assumed = []
        self.it.frozen = {}

    # -- shapes: an axis spec is an int or the name of a sort; len() of a sort is Num
    def n(self, a):
        a = self.sizes.get(a, a)
        return a if isinstance(a, int) else Num(size(a))

    def shape(self, axes):
        return tuple(self.n(a) for a in axes)

    def arr(self, name, axes, sym=0, indicator=False, dtype=None):
        """Generic array: element = atom name[indices]."""
        if sym:
            sym = sum(1 for a in tuple(axes)[-sym:] if self.sizes.get(a, a) != 1)
        if sym:
            tn.SYM[name] = sym
        else:
            tn.SYM.pop(name, None)
        if indicator:
            tn.INDICATOR.add(name)
        else:
            tn.INDICATOR.discard(name)
        ax = []
        for a in axes:
            a = self.sizes.get(a, a)
            ax.append(None if a == 1 else a if isinstance(a, int) else fresh(a))
        import itertools
        enum = [a for a in ax if isinstance(a, int)]
        data = {}
        for pos in itertools.product(*[range(a) for a in enum]):
            idx, k = [], 0
            for a in ax:
                if a is None:
                    continue
                if isinstance(a, int):
                    idx.append(pos[k])
                    k += 1
                else:
                    idx.append(a)
            data[pos] = Body.atom(name, tuple(idx))
        return Arr(tuple(ax), data, dtype or ("b" if indicator else "f"))

    def new(self, cls, *args, **kwargs):
        c = self.it.get_class(cls) if isinstance(cls, str) else cls
        return self.it.call(c, list(args), kwargs)

    def call(self, obj, method, *args, **kwargs):
        return self.it.call(self.it.getattr(obj, method), list(args), kwargs)

    def get(self, obj, name):
        return self.it.getattr(obj, name)

    def func(self, dotted):
        return self.it.cls(dotted)

    def source(self, moments, dims, plates, u, **kw):
        return self.it.call(self.Source, [moments, dims, plates, u], kw)

    def sink(self, X, plates, message, mask, **kw):
        return self.it.call(self.Sink, [X, plates, message, mask], kw)


def contract(a, b, shape):
    """Sum over the full shape of the product of two arrays that broadcast to it."""
    a = tn.broadcast_to(tn.lift(a), shape)
    b = tn.broadcast_to(tn.lift(b), shape)
    return tn.sum_axes(tn.mul(a, b)).body()


def same(a, b, shape=None):
    """Equality of two arrays, up to broadcasting to `shape` if given."""
    a, b = tn.lift(a), tn.lift(b)
    if shape is not None:
        a, b = tn.broadcast_to(a, shape), tn.broadcast_to(b, shape)
    d = tn.sub(a, b)
    return all(x.is_zero() for x in d.data.values())

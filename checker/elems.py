"""Generic elements of sequence-valued terms and their scalar interpretation."""
from vg import *
from alg import *
from erase import *
from common import *
from core import Undecided


def is_ix(t):
    return t.op == "ix"


def elem(seq, ix=None, depth=0):
    """The term of a generic element of `seq` (index ix)."""
    if depth > 60:
        raise Undecided("sequence term too deep")
    if ix is None:
        ix = mk("ix", 0)
    if seq.op == "obj":
        return elem(seq.a[0], ix, depth + 1)
    if seq.op == "phi":
        return phi(seq.a[0], elem(seq.a[1], ix, depth + 1), elem(seq.a[2], ix, depth + 1))
    if seq.op in ("list", "tuple") and len(seq.a) == 1 and seq.a[0].op == "each" and \
            seq.a[0].a[2] is TRUE:
        v = seq.a[0].a[1]
        return resolve(v, ix, depth + 1)
    if seq.op in ("list", "tuple") and len(seq.a) == 1 and seq.a[0].op == "star":
        return elem(seq.a[0].a[0], ix, depth + 1)
    if seq.op == "update" and (seq.a[1] is ix or is_ix(seq.a[1])):
        return resolve(seq.a[2], ix, depth + 1)
    if seq.op == "loopout":
        return elem(seq.a[2], ix, depth + 1)
    if seq.op == "carry":
        return elem(seq.a[2], ix, depth + 1)
    if seq.op == "foldmap":
        return resolve(seq.a[1], ix, depth + 1)
    if seq.op == "call" and seq.a[0] in ("list", "tuple", "iter") and len(seq.a[1]) == 1:
        return elem(seq.a[1][0], ix, depth + 1)
    return mk("sub", seq, ix)


SEQ_OPS = ("list", "update", "loopout", "carry", "foldmap", "phi", "obj", "tuple")


def resolve(t, ix, depth=0):
    """Replace X[ix] by the generic element of X inside t."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "sub" and is_ix(x.a[1]) and x.a[0].op in SEQ_OPS:
            r = elem(x.a[0], x.a[1], depth + 1)
        else:
            r = rebuild(x.op, tuple(go2(y) for y in x.a)) if x.a else x
        memo[x] = r
        return r

    def go2(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(go2(z) for z in y)
        return y
    return go(t)


def covers(domain, depth=0):
    """Does a loop over `domain` visit all components?  True / False / None (unknown)."""
    if depth > 20:
        return None
    if domain.op == "until":
        return False if covers(domain.a[0], depth + 1) is False else None
    if domain.op == "call":
        n, a = domain.a[0], domain.a[1]
        if n in ("zip", "enumerate", "list", "tuple", "iter", "reversed"):
            rs = [covers(x, depth + 1) for x in a] if a else [None]
            if False in rs:
                return False
            return None if None in rs else True
        if n == "range":
            if len(a) == 1:
                x = a[0]
                if x.op == "call" and x.a[0] == "len":
                    return covers(x.a[1][0], depth + 1)
                if x.op == "bin" and x.a[0] == "-" and is_const(x.a[2]) and \
                        x.a[1].op == "call" and x.a[1].a[0] == "len":
                    return False if x.a[2].a[0] > 0 else None
                return None
            if len(a) >= 2 and is_const(a[0]):
                if a[0].a[0] == 0 and len(a) == 2:
                    return covers(mk("call", "range", (a[1],), ()), depth + 1)
                return False
            return None
        return True                       # a sequence returned by a function
    if domain.op == "sub" and domain.a[1].op == "slice":
        lo, hi, st = domain.a[1].a
        return True if lo in (NONE, const(0)) and hi is NONE and st is NONE else False
    if domain.op in ("list", "tuple"):
        if len(domain.a) == 1 and domain.a[0].op == "each":
            return covers(domain.a[0].a[0], depth + 1) if domain.a[0].a[2] is TRUE else None
        if len(domain.a) == 1 and domain.a[0].op == "star":
            return covers(domain.a[0].a[0], depth + 1)
        return None
    if domain.op == "loopout":
        return covers(domain.a[1], depth + 1)
    if domain.op == "phi":
        a, b = covers(domain.a[1], depth + 1), covers(domain.a[2], depth + 1)
        return a if a == b else None
    if domain.op in ("attr", "mcall", "param", "sub", "carry"):
        return True
    if domain.op == "foldmap":
        return covers(domain.a[0], depth + 1)
    return None


class Elem(Erase):
    """Scalar interpretation where attributes and opaque calls are named symbols.

    names: list of (predicate on a term, symbol name); X[ix] is interpreted by X."""

    def __init__(self, names, cases=None, table=None):
        Erase.__init__(self, table or {}, cases)
        self.names = names

    def at(self, k):
        return self

    def name_of(self, t):
        for pred, nm in self.names:
            if pred(t):
                return nm
        return None

    def conv(self, t):
        if t.op == "sub" and is_ix(t.a[1]):
            nm = self.name_of(t.a[0])
            if nm is not None:
                return Poly.sym(nm) if isinstance(nm, str) else nm
            if t.a[0].op in SEQ_OPS:
                e = elem(t.a[0], t.a[1])
                if e is not t:
                    return self(e)
        nm = self.name_of(t)
        if nm is not None:
            return Poly.sym(nm) if isinstance(nm, str) else nm
        return Erase.conv(self, t)


def attr_is(name, base=None):
    return lambda t: t.op == "attr" and t.a[1] == name and (base is None or t.a[0] is base)


def mcall_is(*names):
    return lambda t: t.op == "mcall" and t.a[0] in names


def item_is(pred, k):
    return lambda t: t.op == "sub" and is_const(t.a[1]) and t.a[1].a[0] == k and pred(t.a[0])

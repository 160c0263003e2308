"""Indexed-tensor domain: arrays as index expressions over named axes.

An abstract array has a list of axes.  An axis is
  * None          – unit length (broadcasts),
  * an index      – ranges over a *sort* of symbolic length (all sizes at once),
  * an int n      – an enumerated axis of n positions (used where the source slices,
                    takes or concatenates).
Its element is an exact polynomial whose factors are named tensors applied to
indices, Kronecker deltas, powers of axis lengths and elementwise functions.
Contractions bind indices; `Body` keeps every term in a canonical form up to renaming
of bound indices, so equality of formulas is equality of bodies.  Two axes of
different sorts never broadcast: an axis mix-up is a type error of the domain.
"""
import itertools
from fractions import Fraction

_ids = itertools.count(1)


class Unsupported(Exception):
    """Outside the domain: the instance is undecided."""


class ShapeError(Exception):
    """The operands do not broadcast (numpy would raise ValueError)."""


def fresh(sort):
    return (sort, next(_ids))


SYM = {}            # tensor name -> n: symmetric in its last two groups of n indices
INDICATOR = set()   # 0/1-valued tensors


def is_01(n):
    """0/1-valued tensor names."""
    return n in INDICATOR or n == "delta" or (isinstance(n, tuple) and n[0] in ("nz", "all"))


def is_idx(a):
    return isinstance(a, tuple)


# ---------------------------------------------------------------------- terms
# term  = (factors, bound)      factors: tuple of (name, idx, pow), sorted
# Body  = {term: Fraction}

def _subst_idx(idx, ren):
    return tuple(ren.get(i, i) if is_idx(i) else i for i in idx)


def _norm_factor(name, idx):
    n = SYM.get(name)
    if n and len(idx) >= 2 * n:
        a, b = idx[len(idx) - 2 * n:len(idx) - n], idx[len(idx) - n:]
        if _ikey(b) < _ikey(a):
            idx = idx[:len(idx) - 2 * n] + b + a
    if name == "delta" and _ikey(idx[1:]) < _ikey(idx[:1]):
        idx = (idx[1], idx[0])
    return name, idx


def _ikey(idx):
    return tuple((0, i, 0) if not is_idx(i) else (1, str(i[0]), i[1]) for i in idx)


_NKEYS = {}


def _nkey(name):
    if isinstance(name, str):
        return name
    k = _NKEYS.get(name)
    if k is None:
        if len(_NKEYS) > 200000:
            _NKEYS.clear()
        k = _NKEYS[name] = repr(name)
    return k


def _fkey(f):
    return (_nkey(f[0]), _ikey(f[1]), f[2])


def _canon(factors, bound):
    """factors: list of (name, idx, pow); bound: set of indices -> canonical term
    or None when the term vanishes."""
    factors = list(factors)
    bound = set(bound)
    # Kronecker deltas
    changed = True
    while changed:
        changed = False
        for k, (name, idx, p) in enumerate(factors):
            if name != "delta":
                continue
            i, j = idx
            if i == j:
                del factors[k]
                changed = True
                break
            if not is_idx(i) and not is_idx(j):
                return None
            if j in bound:
                ren = {j: i}
            elif i in bound:
                ren = {i: j}
            else:
                continue
            gone = j if j in bound else i
            bound.discard(gone)
            del factors[k]
            factors = [(n, _subst_idx(ix, ren), q) for (n, ix, q) in factors]
            changed = True
            break
    # deltas between free indices: use one representative in the other factors
    deltas = [ix for (n, ix, q) in factors if n == "delta"]
    if deltas and len(factors) > len(deltas):
        rep = {}

        def find(i):
            while i in rep:
                i = rep[i]
            return i
        for i, j in deltas:
            a, b = find(i), find(j)
            if a != b:
                if _ikey((b,)) < _ikey((a,)):
                    a, b = b, a
                if not is_idx(b):
                    return None
                rep[b] = a
        ren = {i: find(i) for i in list(rep)}
        factors = [(n, ix, q) if n == "delta" else (n, _subst_idx(ix, ren), q)
                   for (n, ix, q) in factors]
    used = set()
    for (n, ix, q) in factors:
        used.update(i for i in ix if is_idx(i))
    for b in list(bound):
        if b not in used:
            factors.append((("size", b[0]), (), Fraction(1)))
            bound.discard(b)

    def combine(fs):
        acc = {}
        for (n, ix, q) in fs:
            n, ix = _norm_factor(n, ix)
            k = (n, ix)
            acc[k] = acc.get(k, 0) + q
        out = []
        plain = {n for (n, ix) in acc}
        for (n, ix), q in acc.items():
            if q == 0:
                continue
            if is_01(n) and q > 0:
                q = Fraction(1)
            if isinstance(n, tuple) and n[0] == "nz":
                # x * [x != 0] == x
                base = _placed(n[1], ix)
                if base and all(f in acc and acc[f] > 0 for f in base):
                    continue
                if not base and _nz_implied(n[1], ix, acc):
                    continue
            out.append((n, ix, Fraction(q)))
        out.sort(key=_fkey)
        return out
    factors = combine(factors)
    if not bound:
        return (tuple(factors), ())
    used = set()
    for (n, ix, q) in factors:
        used.update(i for i in ix if is_idx(i))
    for b in list(bound):
        if b not in used:
            factors = combine(factors + [(("size", b[0]), (), Fraction(1))])
            bound.discard(b)
    by = {}
    for b in sorted(bound, key=lambda x: (str(x[0]), x[1])):
        by.setdefault(b[0], []).append(b)
    sorts = sorted(by, key=str)
    # colour bound indices by where they occur, to cut the permutations
    def colour(b):
        occ = []
        for (n, ix, q) in factors:
            n_sym = SYM.get(n, 0)
            for k, i in enumerate(ix):
                if i == b:
                    if n == "delta":
                        kk = 0
                    elif n_sym and k >= len(ix) - 2 * n_sym:
                        kk = len(ix) - 2 * n_sym + (k - (len(ix) - 2 * n_sym)) % n_sym
                    else:
                        kk = k
                    occ.append((_nkey(n), kk, q,
                                tuple(sorted(str(x) for x in ix
                                             if not (is_idx(x) and x in bound)))))
        return tuple(sorted(occ))
    groups = []
    for s in sorts:
        cols = {}
        for b in by[s]:
            cols.setdefault(colour(b), []).append(b)
        for c in sorted(cols, key=repr):
            groups.append((s, cols[c]))
    total = 1
    for s, g in groups:
        for k in range(2, len(g) + 1):
            total *= k
    if total > 5040:
        raise Unsupported("too many symmetric contractions")
    best = None
    for perms in itertools.product(*[itertools.permutations(g) for _, g in groups]):
        ren, cnt = {}, {}
        for (s, _), g in zip(groups, perms):
            for b in g:
                cnt[s] = cnt.get(s, 0) + 1
                ren[b] = (s, -cnt[s])
        fs = combine([(n, _subst_idx(ix, ren), q) for (n, ix, q) in factors])
        key = [_fkey(f) for f in fs]
        if best is None or key < best[0]:
            best = (key, fs, ren)
    return (tuple(best[1]), tuple(sorted(best[2].values(), key=lambda x: (str(x[0]), x[1]))))


def _placed(body, ix):
    """Factors of the monomial inside a function atom at the indices ix."""
    if len(body.t) != 1:
        return None
    ((fs, bd), c), = body.t.items()
    if bd:
        return None
    ren, cnt = {}, {}
    for i in ix:
        if is_idx(i):
            k = cnt.get(i[0], 0)
            ren[(i[0], 10 ** 9 + k)] = i
            cnt[i[0]] = k + 1
    return [_norm_factor(n, _subst_idx(x, ren)) for (n, x, q) in fs]


def _nz_implied(body, ix, acc):
    """[S != 0] next to one of S's own terms, S a sum of products of 0/1 tensors
    (nothing cancels): then S != 0 whenever the product is."""
    ren, cnt = {}, {}
    for i in ix:
        if is_idx(i):
            k = cnt.get(i[0], 0)
            ren[(i[0], 10 ** 9 + k)] = i
            cnt[i[0]] = k + 1
    for (fs, bd), c in body.t.items():
        if c < 0 or any(not is_01(n) and not (isinstance(n, tuple) and n[0] == "size")
                        for (n, x, q) in fs):
            return False
    for (fs, bd), c in body.t.items():
        # match the term's factors against the product; bound indices are free
        pats = [(n, _subst_idx(x, ren)) for (n, x, q) in fs if is_01(n)]
        if _match(pats, {b for b in bd}, acc, {}):
            return True
    return False


def _nz_normal(body):
    """For a sum of products of 0/1 tensors and lengths (all >= 0), only which terms
    there are matters; lengths are positive and [S != 0] can be replaced by S."""
    for (fs, bd), c in body.t.items():
        if c < 0 or any(not is_01(n) and not (isinstance(n, tuple) and n[0] == "size" and q > 0)
                        for (n, x, q) in fs):
            return body
    out = ZERO
    for (fs, bd), c in body.t.items():
        t = ONE
        for (n, x, q) in fs:
            if isinstance(n, tuple) and n[0] == "size":
                continue
            if isinstance(n, tuple) and n[0] == "nz":
                inner, cnt, ren = n[1], {}, {}
                for i in x:
                    if is_idx(i):
                        k = cnt.get(i[0], 0)
                        cnt[i[0]] = k + 1
                        ren[(i[0], 10 ** 9 + k)] = i
                t = t * inner.rename(ren)
            else:
                t = t * Body.atom(n, x, 1)
        out = out + t.bind(bd)
    return Body({k: Fraction(1) for k in out.t})


def _match(pats, bound, acc, env):
    if not pats:
        return True
    n, x = pats[0]
    for (m, y), q in acc.items():
        if m != n or q <= 0 or len(x) != len(y):
            continue
        e = dict(env)
        ok = True
        for a, b in zip(x, y):
            if is_idx(a) and a in bound:
                if not is_idx(b) or b[0] != a[0] or e.setdefault(a, b) != b:
                    ok = False
                    break
            elif a != b:
                ok = False
                break
        if ok and _match(pats[1:], bound, acc, e):
            return True
    return False


class Body:
    __slots__ = ("t", "_k", "_r", "_h")

    def __init__(self, t):
        self.t = {k: v for k, v in t.items() if v != 0}
        self._k = self._r = self._h = None

    # ---- construction
    @staticmethod
    def const(c):
        c = Fraction(c) if not isinstance(c, Fraction) else c
        return Body({((), ()): c})

    @staticmethod
    def atom(name, idx=(), pow=1):
        term = _canon([(name, tuple(idx), Fraction(pow))], ())
        return Body({term: Fraction(1)})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(((tuple(_fkey(f) for f in fs), _ikey(b)), c)
                                   for (fs, b), c in self.t.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, Body) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def is_zero(self):
        return not self.t

    def constant(self):
        """Fraction if constant else None."""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1:
            ((fs, b), c), = self.t.items()
            if not fs and not b:
                return c
        return None

    def monomial(self):
        return len(self.t) == 1

    # ---- algebra
    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Body(t)

    def __neg__(self):
        return Body({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        return Body({k: v * c for k, v in self.t.items()})

    def __mul__(self, o):
        ca, cb = self.constant(), o.constant()
        if ca is not None:
            return o.scale(ca)
        if cb is not None:
            return self.scale(cb)
        t = {}
        for (f1, b1), c1 in self.t.items():
            for (f2, b2), c2 in o.t.items():
                if b1:
                    r1 = {b: fresh(b[0]) for b in b1}
                    g1 = [(n, _subst_idx(ix, r1), q) for (n, ix, q) in f1]
                else:
                    r1, g1 = {}, list(f1)
                if b2:
                    r2 = {b: fresh(b[0]) for b in b2}
                    g2 = [(n, _subst_idx(ix, r2), q) for (n, ix, q) in f2]
                else:
                    r2, g2 = {}, list(f2)
                k = _canon(g1 + g2, set(r1.values()) | set(r2.values()))
                if k is not None:
                    t[k] = t.get(k, 0) + c1 * c2
        if len(t) > 4000:
            raise Unsupported("formula too large")
        return Body(t)

    def power(self, p):
        p = Fraction(p)
        if p == 0:
            return Body.const(1)
        c = self.constant()
        if c is not None:
            if p.denominator == 1:
                if c == 0 and p < 0:
                    return Body.atom("inf")
                return Body.const(c ** int(p))
            if c == 1:
                return self
            if p == Fraction(1, 2) and c > 0:
                r = _isqrt(c)
                if r is not None:
                    return Body.const(r)
            return Body.atom(("pow", str(c)), (), p)
        if self.monomial():
            ((fs, b), c), = self.t.items()
            if not b:
                k = _canon([(n, ix, q * p) for (n, ix, q) in fs], ())
                out = Body({k: Fraction(1)})
                return out * Body.const(c).power(p) if c != 1 else out
        if p.denominator == 1 and p > 0:
            out = self
            for _ in range(int(p) - 1):
                out = out * self
            return out
        b = cancel(self)
        if b is not self and b.t != self.t:
            return b.power(p)
        # take out common factors so that 1/(2xz+2yz) == 1/2 * 1/z * 1/(x+y)
        lead, common, prim = split_common(self)
        out = Body.const(lead).power(p)
        for (n, ix, q) in common:
            out = out * Body.atom(n, ix, q).power(p)
        if prim.constant() == 1:
            return out
        return fn_atom("poly", prim, p) * out

    def bind(self, idxs):
        """Sum over the given free indices."""
        idxs = set(idxs)
        if not idxs:
            return self
        t = {}
        for (fs, b), c in self.t.items():
            ren = {x: fresh(x[0]) for x in b}
            g = [(n, _subst_idx(ix, ren), q) for (n, ix, q) in fs]
            k = _canon(g, set(ren.values()) | idxs)
            if k is not None:
                t[k] = t.get(k, 0) + c
        return Body(t)

    def rename(self, ren):
        if not ren:
            return self
        t = {}
        for (fs, b), c in self.t.items():
            r2 = {x: fresh(x[0]) for x in b}
            r = dict(ren)
            r.update(r2)
            k = _canon([(n, _subst_idx(ix, r), q) for (n, ix, q) in fs],
                       set(r2.values()))
            if k is not None:
                t[k] = t.get(k, 0) + c
        return Body(t)

    def free(self):
        out = set()
        for (fs, b), c in self.t.items():
            for (n, ix, q) in fs:
                out.update(i for i in ix if is_idx(i) and i not in b)
        return out

    def names(self):
        return {n for (fs, b) in self.t for (n, ix, q) in fs}

    def degree_parts(self, pred):
        """{degree in the factors accepted by pred: Body}"""
        out = {}
        for (fs, b), c in self.t.items():
            d = sum(q for (n, ix, q) in fs if pred(n))
            out.setdefault(d, {})[(fs, b)] = c
        return {d: Body(t) for d, t in out.items()}

    def __repr__(self):
        if self._r is None:
            self._r = self.show()
        return self._r

    def show(self):
        if not self.t:
            return "0"
        parts = []
        for (fs, b), c in sorted(self.t.items(), key=lambda kv: str(kv[0])):
            s = "*".join(_show(f) for f in fs) or "1"
            if b:
                s = "sum_{%s} %s" % (",".join(_ishow(i) for i in b), s)
            parts.append("%s%s" % ("" if c == 1 else "%s*" % c, s))
        return " + ".join(parts)


def _isqrt(c):
    from math import isqrt
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def _ishow(i):
    return str(i) if not is_idx(i) else "%s%s" % (i[0], "'" * (-i[1]) if i[1] < 0 else
                                                  "_%d" % i[1])


def _show(f):
    n, ix, q = f
    s = n if isinstance(n, str) else "%s(%s)" % (n[0], ", ".join(str(x) for x in n[1:]))
    if ix:
        s += "[%s]" % ",".join(_ishow(i) for i in ix)
    if q != 1:
        s += "^%s" % q
    return s


ONE = Body.const(1)
ZERO = Body({})


def size(sort):
    return Body.atom(("size", sort))


def fn_atom(fname, body, pow=1):
    """Elementwise function of a body: an atom carrying the canonical body."""
    if fname == "nz":
        body = _nz_normal(body)
        if len(body.t) == 1:
            ((fs, bd), c), = body.t.items()
            if not bd and all(is_01(n) for (n, x, q) in fs):
                return body
    free = sorted(body.free(), key=lambda i: (str(i[0]), i[1]))
    by = {}
    for i in free:
        by.setdefault(i[0], []).append(i)
    sorts = sorted(by, key=str)
    best = None
    n = 1
    for s in sorts:
        for k in range(2, len(by[s]) + 1):
            n *= k
    if n > 720:
        raise Unsupported("function of too many indices")
    for perms in itertools.product(*[itertools.permutations(by[s]) for s in sorts]):
        ren, order = {}, []
        for s, g in zip(sorts, perms):
            for k, i in enumerate(g):
                ren[i] = (s, 10 ** 9 + k)
                order.append(i)
        # renaming must not clash: placeholders are disjoint from real ids
        b = body.rename(ren)
        key = b.key()
        if best is None or key < best[0]:
            best = (key, b, order)
    return Body.atom((fname, best[1]), tuple(best[2]), pow)


def placeholder_order(body):
    """Free indices of the body of a function atom in the order of its arguments."""
    free = body.free()
    if any(i[1] < 10 ** 9 for i in free):
        return ()
    return tuple(sorted(free, key=lambda i: (str(i[0]), i[1])))


def split_common(b):
    """b == lead * (product of factors common to all terms) * rest."""
    lead = b.key()[0][1]
    common = None
    for (fs, bd), c in b.t.items():
        own = {}
        bound = set(bd)
        for (n, ix, q) in fs:
            if n == "delta" or is_01(n):
                continue
            if not any(i in bound for i in ix):
                own[n, ix] = q
        if common is None:
            common = own
        else:
            common = {k: min(common.get(k, 0), own.get(k, 0)) for k in {**common, **own}}
    common = [(n, ix, q) for (n, ix), q in (common or {}).items() if q != 0]
    rest = b.scale(1 / lead)
    for (n, ix, q) in common:
        rest = rest * Body.atom(n, ix, -q)
    return lead, common, rest


def cancel(b):
    """Cancel negative powers of sums: (x + y) * (x + y)^-1 == 1."""
    for _ in range(20):
        hit = None
        for (fs, bd), c in b.t.items():
            for f in fs:
                if isinstance(f[0], tuple) and f[0][0] == "poly" and f[2] < 0 \
                        and not any(i in bd for i in f[1]):
                    hit = f
                    break
            if hit:
                break
        if not hit:
            return b
        n, ix, q = hit
        with_, without = {}, {}
        for (fs, bd), c in b.t.items():
            g = [f for f in fs if f[0] == n and f[1] == ix]
            if g and g[0][2] <= -1:
                with_[fs, bd] = c
            else:
                without[fs, bd] = c
        num = Body(with_) * Body.atom(n, ix, 1)
        ph = placeholder_order(n[1])
        if len(ph) != len(ix):
            return b
        base = n[1].rename(dict(zip(ph, ix)))
        lead, common, rest = split_common(num)
        l2, c2, r2 = split_common(base)
        if rest != r2:
            return b
        out = Body.const(lead / l2)
        for (n_, ix_, q_) in common:
            out = out * Body.atom(n_, ix_, q_)
        for (n_, ix_, q_) in c2:
            out = out * Body.atom(n_, ix_, -q_)
        b = out + Body(without)
    return b


def rational(b):
    """Whole powers of constants are constants."""
    hit = lambda f: isinstance(f[0], tuple) and f[0][0] == "pow" and not f[1] \
        and (f[2] >= 1 or f[2] < 0)
    if not any(hit(f) for (fs, bd) in b.t for f in fs):
        return b
    out = ZERO
    for (fs, bd), c in b.t.items():
        g = []
        for f in fs:
            if hit(f):
                n = f[2].__floor__()
                c = c * Fraction(f[0][1]) ** n
                if f[2] != n:
                    g.append((f[0], (), f[2] - n))
            else:
                g.append(f)
        out = out + Body({(tuple(g), bd): c})
    return out


def clear(b, limit=6000):
    """b times the denominators that are sums of products (a positive factor when they
    are): b is zero iff the result is."""
    for _ in range(40):
        hit = None
        for (fs, bd) in b.t:
            for f in fs:
                if isinstance(f[0], tuple) and f[0][0] == "poly" and abs(f[2]) >= 1 \
                        and not any(i in bd for i in f[1]):
                    hit = f
        if hit is None:
            return b
        n, ix, _ = hit
        q = min([f[2] for (fs, bd) in b.t for f in fs if f[0] == n and f[1] == ix] + [Fraction(0)])
        ph = placeholder_order(n[1])
        if len(ph) != len(ix):
            raise Unsupported("denominator")
        base = n[1].rename(dict(zip(ph, ix)))
        b2 = ZERO
        for (fs, bd), c in b.t.items():
            own = sum((f[2] for f in fs if f[0] == n and f[1] == ix), Fraction(0))
            term = Body({(tuple(f for f in fs if not (f[0] == n and f[1] == ix)), bd): c})
            if (own - q).denominator != 1 or q.denominator != 1:
                raise Unsupported("fractional powers")
            for _ in range(int(own - q)):
                term = term * base
            b2 = b2 + term
        b = b2
        if len(b.t) > limit:
            raise Unsupported("too many terms")
    raise Unsupported("denominators")


def log_body(b):
    c = b.constant()
    if c is not None:
        if c <= 0:
            if c == 0:
                return -Body.atom("inf")
            raise Unsupported("log of a negative constant")
        return _log_rational(c)
    if b.monomial():
        ((fs, bd), c), = b.t.items()
        if not bd:
            out = _log_rational(c) if c > 0 else None
            if out is not None:
                for (n, ix, q) in fs:
                    out = out + _log_atom(n, ix).scale(q)
                return out
    b2 = cancel(b)
    if b2 is not b and b2.t != b.t:
        return log_body(b2)
    lead, common, rest = split_common(b)
    if lead < 0:
        return fn_atom("log", b)
    if (common or lead != 1) and rest.constant() is None:
        out = _log_rational(lead) + fn_atom("log", rest)
        for (n, ix, q) in common:
            out = out + _log_atom(n, ix).scale(q)
        return out
    return fn_atom("log", b)


def _log_atom(n, ix):
    if isinstance(n, tuple) and n[0] == "poly" and isinstance(n[1], Body):
        return fn_atom("log", n[1].rename(dict(zip(placeholder_order(n[1]), ix))))
    if isinstance(n, tuple) and n[0] == "exp" and isinstance(n[1], Body):
        ph = placeholder_order(n[1])
        if len(ph) == len(ix):
            return n[1].rename(dict(zip(ph, ix)))
    return fn_atom("log", Body.atom(n, ix))


def _log_rational(c):
    out = ZERO
    for num, sg in ((c.numerator, 1), (c.denominator, -1)):
        p = 2
        while num > 1:
            while num % p == 0:
                out = out + Body.atom(("log", "%d" % p)).scale(Fraction(sg))
                num //= p
            p += 1
            if p * p > num and num > 1:
                p = num
    return out


# ------------------------------------------------------------------ arrays
class Arr:
    """axes: tuple; data: {positions over the int axes: Body}; dtype f/i/b."""
    __slots__ = ("axes", "data", "dtype", "frozen", "root")

    def __init__(self, axes, data, dtype="f"):
        self.axes = tuple(axes)
        self.data = data
        self.dtype = dtype
        self.frozen = None
        self.root = None

    # -- helpers
    @staticmethod
    def scalar(b, dtype="f"):
        return Arr((), {(): b}, dtype)

    @property
    def ndim(self):
        return len(self.axes)

    def enum_axes(self):
        return [k for k, a in enumerate(self.axes) if isinstance(a, int)]

    def shape(self):
        out = []
        for a in self.axes:
            if a is None:
                out.append(1)
            elif isinstance(a, int):
                out.append(a)
            else:
                out.append(simplify_num(size(a[0])))
        return tuple(out)

    def body(self):
        if self.enum_axes():
            raise Unsupported("array with enumerated axes used as a single element")
        return self.data[()]

    def view(self):
        v = Arr(self.axes, self.data, self.dtype)
        v.root = self.root if self.root is not None else self
        return v

    def is_frozen(self):
        r = self.root if self.root is not None else self
        return r.frozen or self.frozen

    def refresh(self):
        """Same array with fresh free indices."""
        ren = {a: fresh(a[0]) for a in self.axes if is_idx(a)}
        if not ren:
            return Arr(self.axes, self.data, self.dtype)
        return Arr(tuple(ren.get(a, a) if is_idx(a) else a for a in self.axes),
                   {p: b.rename(ren) for p, b in self.data.items()}, self.dtype)

    def set_from(self, o):
        """In-place assignment of the whole content (shape must not change)."""
        self.axes, self.data = o.axes, o.data

    def concrete(self):
        """Nested python structure when all entries are plain numbers / sizes."""
        if any(is_idx(a) for a in self.axes):
            raise Unsupported("symbolic axis in a concrete position")
        shape = self.shape()

        def build(prefix, rest):
            if len(prefix) == len(shape):
                pos = tuple(p for p, a in zip(prefix, self.axes) if isinstance(a, int))
                return num_of(self.data[pos], self.dtype)
            return [build(prefix + (k,), None) for k in range(shape[len(prefix)])]
        return build((), None)

    def __repr__(self):
        return "Arr(%s; %s)" % (",".join(
            "1" if a is None else str(a) if isinstance(a, int) else _ishow(a)
            for a in self.axes), {p: b for p, b in self.data.items()}
            if self.enum_axes() else self.data[()])


class Num:
    """Scalar built from axis lengths (a size or an expression of sizes)."""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __eq__(self, o):
        o = to_body(o)
        return o is not None and self.b == o

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        return "Num(%r)" % (self.b,)


def simplify_num(b):
    c = b.constant()
    if c is not None:
        return int(c) if c.denominator == 1 else c
    return Num(b)


def num_of(b, dtype="f"):
    c = b.constant()
    if c is not None:
        if dtype == "b":
            return bool(c)
        if dtype == "i" and c.denominator == 1:
            return int(c)
        return int(c) if c.denominator == 1 and dtype != "f" else c
    if all(isinstance(n, tuple) and n[0] == "size" for n in b.names()):
        return Num(b)
    raise Unsupported("symbolic array element used as a number")


def to_body(x):
    if isinstance(x, Arr) and x.ndim == 0:
        return x.data[()]
    if isinstance(x, Num):
        return x.b
    if isinstance(x, bool):
        return Body.const(int(x))
    if isinstance(x, (int, Fraction)):
        return Body.const(x)
    if isinstance(x, float):
        if x != x:
            return Body.atom("nan")
        if x in (float("inf"), float("-inf")):
            return Body.atom("inf") if x > 0 else -Body.atom("inf")
        return Body.const(Fraction(repr(x)))
    return None


def lift(x):
    """Python value -> Arr."""
    if isinstance(x, Arr):
        return x
    b = to_body(x)
    if b is not None:
        return Arr.scalar(b, "b" if isinstance(x, bool) else
                          "i" if isinstance(x, int) or isinstance(x, Num) else "f")
    if isinstance(x, (list, tuple, range)):
        items = [lift(e) for e in x]
        return stack(items)
    raise Unsupported("cannot view %s as an array" % type(x).__name__)


def stack(items):
    if not items:
        return Arr((0,), {}, "f")
    nd = items[0].ndim
    if any(i.ndim != nd for i in items):
        raise ShapeError("inhomogeneous array")
    items = align(items)
    axes, bodies = items
    dt = "b" if all(i.dtype == "b" for i in bodies) else \
        "i" if all(i.dtype in "ib" for i in bodies) else "f"
    n = len(bodies)
    if n == 1:
        return Arr((None,) + axes, dict(bodies[0].data), dt)
    data = {}
    for k, a in enumerate(bodies):
        for p, b in full(a, axes).data.items():
            data[(k,) + p] = b
    return Arr((n,) + axes, data, dt)


def align(arrs):
    """Broadcast axes of several arrays to common ones: (axes, arrays renamed) where
    each array keeps its own unit axes but shares index names."""
    nd = max(a.ndim for a in arrs)
    axes = []
    out = [a.refresh() for a in arrs]
    rens = [dict() for _ in out]
    for pos in range(-nd, 0):
        cur = None
        for k, a in enumerate(out):
            if -pos > a.ndim:
                continue
            ax = a.axes[pos]
            if ax is None:
                continue
            if cur is None:
                cur = ax
            elif isinstance(ax, int) or isinstance(cur, int):
                if ax != cur:
                    raise ShapeError("axes of length %s and %s do not broadcast"
                                     % (show_axis(cur), show_axis(ax)))
            else:
                if ax[0] != cur[0]:
                    raise ShapeError("axes %s and %s do not broadcast"
                                     % (show_axis(cur), show_axis(ax)))
                rens[k][ax] = cur
        axes.append(cur)
    res = []
    for a, r in zip(out, rens):
        if r:
            a = Arr(tuple(r.get(x, x) if is_idx(x) else x for x in a.axes),
                    {p: b.rename(r) for p, b in a.data.items()}, a.dtype)
        res.append(a)
    return tuple(axes), res


def show_axis(a):
    return "1" if a is None else str(a) if isinstance(a, int) else str(a[0])


def full(a, axes):
    """a (already aligned to axes) with every position of the enumerated axes."""
    nd = len(axes)
    lead = nd - a.ndim
    own = [None] * lead + list(a.axes)
    enum = [k for k, x in enumerate(axes) if isinstance(x, int)]
    data = {}
    for pos in itertools.product(*[range(axes[k]) for k in enum]):
        p = tuple(v for v, k in zip(pos, enum) if isinstance(own[k], int))
        data[pos] = a.data[p]
    return Arr(axes, data, a.dtype)


def elementwise(f, *arrs, dtype="f"):
    axes, arrs = align([lift(a) for a in arrs])
    arrs = [full(a, axes) for a in arrs]
    data = {p: f(*[a.data[p] for a in arrs]) for p in arrs[0].data}
    return Arr(axes, data, dtype)


def result_dtype(*arrs):
    ds = [lift(a).dtype for a in arrs]
    return "f" if "f" in ds else "i"


def add(a, b):
    return elementwise(lambda x, y: x + y, a, b, dtype=result_dtype(a, b))


def sub(a, b):
    return elementwise(lambda x, y: x - y, a, b, dtype=result_dtype(a, b))


def mul(a, b):
    return elementwise(lambda x, y: x * y, a, b, dtype=result_dtype(a, b))


def div(a, b):
    return elementwise(lambda x, y: x * y.power(-1), a, b)


def neg(a):
    return elementwise(lambda x: -x, a, dtype=result_dtype(a))


def norm_axis(k, nd):
    if not isinstance(k, int):
        raise Unsupported("symbolic axis number")
    if k < -nd or k >= nd:
        raise ShapeError("axis %d out of bounds for %d axes" % (k, nd))
    return k % nd if nd else 0


def sum_axes(a, axes=None, keepdims=False):
    nd = a.ndim
    if axes is None:
        axes = tuple(range(nd))
    elif isinstance(axes, int):
        axes = (axes,)
    axes = {norm_axis(k, nd) for k in axes}
    a = a.refresh()
    enum = a.enum_axes()
    bind = {a.axes[k] for k in axes if is_idx(a.axes[k])}
    keep_enum = [k for k in enum if k not in axes]
    data = {}
    if any(a.axes[k] == 0 for k in enum):
        for pos in itertools.product(*[range(a.axes[k]) for k in keep_enum]):
            data[pos] = ZERO
    for pos, b in a.data.items():
        d = dict(zip(enum, pos))
        q = tuple(d[k] for k in keep_enum)
        v = b.bind(bind)
        data[q] = data[q] + v if q in data else v
    out = []
    for k, x in enumerate(a.axes):
        if k in axes:
            if keepdims:
                out.append(None)
        else:
            out.append(x)
    return Arr(tuple(out), data, "f" if a.dtype == "f" else "i")


def permute(a, perm):
    perm = [norm_axis(p, a.ndim) for p in perm]
    if sorted(perm) != list(range(a.ndim)):
        raise ShapeError("axes don't match array")
    enum = a.enum_axes()
    axes = tuple(a.axes[p] for p in perm)
    new_enum = [p for p in perm if isinstance(a.axes[p], int)]
    data = {}
    for pos, b in a.data.items():
        d = dict(zip(enum, pos))
        data[tuple(d[p] for p in new_enum)] = b
    return Arr(axes, data, a.dtype)


def insert_axis(a, k):
    axes = list(a.axes)
    axes.insert(k, None)
    return Arr(tuple(axes), a.data, a.dtype)


def drop_axis(a, k):
    if a.axes[k] is not None:
        raise ShapeError("cannot squeeze axis of length %s" % show_axis(a.axes[k]))
    return Arr(a.axes[:k] + a.axes[k + 1:], a.data, a.dtype)


def axis_len(x):
    if x is None:
        return ONE
    if isinstance(x, int):
        return Body.const(x)
    return size(x[0])


def reshape(a, shape):
    shape = list(shape)
    lens = [to_body(s) for s in shape]
    if any(l is None for l in lens):
        raise Unsupported("shape of non-numbers")
    if any(isinstance(s, int) and s == -1 for s in shape):
        total = ONE
        for x in a.axes:
            total = total * axis_len(x)
        for s, l in zip(shape, lens):
            if not (isinstance(s, int) and s == -1):
                total = total * l.power(-1)
        k = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1][0]
        lens[k] = total
        shape[k] = simplify_num(total)
    # greedy matching of source axes with target axes
    src = [(k, x) for k, x in enumerate(a.axes) if x is not None]
    tgt = [(k, l) for k, l in enumerate(lens) if l.constant() != 1]
    if len(src) == len(tgt) and all(axis_len(x) == l for (_, x), (_, l) in zip(src, tgt)):
        axes = [None] * len(shape)
        for (_, x), (k, _) in zip(src, tgt):
            axes[k] = x
        return Arr(tuple(axes), a.data, a.dtype)
    # enumerated axes: row-major regrouping
    if all(isinstance(x, int) for _, x in src) and all(l.constant() is not None for l in lens):
        n1 = 1
        for _, x in src:
            n1 *= x
        dims = [int(l.constant()) for l in lens]
        n2 = 1
        for d in dims:
            n2 *= d
        if n1 != n2:
            raise ShapeError("cannot reshape array of size %d into %s" % (n1, dims))
        flat = [a.data[p] for p in itertools.product(*[range(x) for _, x in src])]
        axes = tuple(None if d == 1 else d for d in dims)
        pos = list(itertools.product(*[range(d) for d in dims if d != 1]))
        return Arr(axes, dict(zip(pos, flat)), a.dtype)
    total1 = ONE
    for x in a.axes:
        total1 = total1 * axis_len(x)
    total2 = ONE
    for l in lens:
        total2 = total2 * l
    if total1 != total2:
        raise ShapeError("cannot reshape %s into %s" % (a.shape(), tuple(shape)))
    return regroup(a, lens)


def regroup(a, lens):
    """Reshape where symbolic axes are kept and enumerated axes between them
    are merged and split."""
    tgt = [(k, l) for k, l in enumerate(lens) if l.constant() != 1]
    src = [(k, x) for k, x in enumerate(a.axes) if x is not None]
    i = j = 0
    blocks = []                     # (source axes, target axes)
    while i < len(src) and j < len(tgt):
        x, l = src[i][1], tgt[j][1]
        if is_idx(x):
            if axis_len(x) != l:
                raise Unsupported("reshape mixes axes")
            blocks.append(([i], [j]))
            i, j = i + 1, j + 1
            continue
        bs, bt, n1, n2 = [i], [j], x, l.constant()
        if n2 is None:
            raise Unsupported("reshape mixes axes")
        i, j = i + 1, j + 1
        while n1 != n2:
            if n1 < n2:
                if i >= len(src) or is_idx(src[i][1]):
                    raise Unsupported("reshape mixes axes")
                n1 *= src[i][1]
                bs.append(i)
                i += 1
            else:
                c = tgt[j][1].constant() if j < len(tgt) else None
                if c is None:
                    raise Unsupported("reshape mixes axes")
                n2 *= c
                bt.append(j)
                j += 1
        blocks.append((bs, bt))
    if i != len(src) or j != len(tgt):
        raise Unsupported("reshape mixes axes")
    axes = [None] * len(lens)
    for bs, bt in blocks:
        x = src[bs[0]][1]
        for q in bt:
            axes[tgt[q][0]] = x if is_idx(x) else int(tgt[q][1].constant())
    data = {}
    old = [x for _, x in src if not is_idx(x)]
    assert all(len(p) == len(old) for p in a.data)
    for p in a.data:
        it = iter(p)
        new = []
        for bs, bt in blocks:
            if is_idx(src[bs[0]][1]):
                continue
            flat = 0
            for q in bs:
                flat = flat * src[q][1] + next(it)
            sub = []
            for q in reversed(bt):
                n = int(tgt[q][1].constant())
                sub.append(flat % n)
                flat //= n
            new += reversed(sub)
        data[tuple(new)] = a.data[p]
    return Arr(tuple(axes), data, a.dtype)


def getitem(a, key):
    """Basic (and simple integer-array) indexing."""
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
    if any(k is Ellipsis for k in key):
        e = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key[e:e + 1] = [slice(None)] * (a.ndim - n_real)
    else:
        key = key + [slice(None)] * (a.ndim - n_real)
    if n_real > a.ndim:
        raise IndexError("too many indices for array")
    if sum(isinstance(k, (Arr, list, range)) and lift(k).ndim > 0 for k in key) > 1:
        return pick_many(a, key)
    cur = a
    pos = 0                 # current axis in cur
    adv = []
    for k in key:
        if k is None:
            cur = insert_axis(cur, pos)
            pos += 1
        elif isinstance(k, slice):
            cur = slice_axis(cur, pos, k)
            pos += 1
        elif isinstance(k, bool):
            raise Unsupported("boolean index")
        elif isinstance(k, int):
            cur = pick(cur, pos, k)
        elif isinstance(k, (Arr, list, range)):
            idx = lift(k)
            if idx.dtype == "b":
                raise Unsupported("boolean mask index")
            if idx.ndim == 0:
                cur = pick(cur, pos, int(num_of(idx.data[()], "i")))
            else:
                adv.append(pos)
                if len(adv) > 1:
                    raise Unsupported("several index arrays")
                cur = take(cur, idx, pos)
                pos += idx.ndim
        else:
            raise Unsupported("index of type %s" % type(k).__name__)
    return cur


def pick_many(a, key):
    """Several adjacent index arrays of plain numbers."""
    cur, pos, adv = a, 0, []
    for k in key:
        if k is None:
            cur = insert_axis(cur, pos)
        elif isinstance(k, slice):
            cur = slice_axis(cur, pos, k)
        elif isinstance(k, bool) or not isinstance(k, (int, Arr, list, range)):
            raise Unsupported("index of type %s" % type(k).__name__)
        else:
            idx = lift(k)
            if idx.dtype == "b" or any(is_idx(x) for x in idx.axes):
                raise Unsupported("several index arrays")
            adv.append((pos, idx))
        pos += 1
    at = [p for p, _ in adv]
    if at != list(range(at[0], at[0] + len(at))):
        raise Unsupported("separated index arrays")
    total = lift(0)
    for _, idx in adv:
        total = add(total, mul(lift(0), idx))
    shape = total.shape()
    idxs = [broadcast_to(idx, shape) for _, idx in adv]
    k0 = at[0]

    def part(prefix):
        if len(prefix) < len(shape):
            n = shape[len(prefix)]
            r = stack([part(prefix + (i,)) for i in range(n)])
            # the stacked axis is first; it belongs at position k0
            return permute(r, tuple(range(1, k0 + 1)) + (0,) + tuple(range(k0 + 1, r.ndim)))
        r = cur
        q = tuple(p for p, n in zip(prefix, shape) if n != 1)
        for p, idx in reversed(list(zip(at, idxs))):
            r = pick(r, p, int(num_of(idx.data[q], "i")))
        return r
    return part(())


def full_slice(s, x):
    """The slice selects the whole axis x."""
    if s.start not in (None, 0) or s.step not in (None, 1):
        return False
    if s.stop is None:
        return True
    if isinstance(s.stop, Num):
        if x is None:           # every axis has at least one element
            return s.stop.b.monomial()
        return is_idx(x) and s.stop.b == size(x[0])
    return isinstance(s.stop, int) and not is_idx(x) and s.stop >= (1 if x is None else x)


def slice_axis(a, k, s):
    if full_slice(s, a.axes[k]):
        return a
    for v in (s.start, s.stop, s.step):
        if v is not None and not isinstance(v, int):
            x = a.axes[k]
            if isinstance(v, Num):
                if is_idx(x) and v.b == size(x[0]) and v is s.stop and \
                        s.start in (None, 0) and s.step in (None, 1):
                    return a
                if is_idx(x) and v.b == size(x[0]) and v is s.start and s.stop is None and \
                        s.step in (None, 1):
                    return take_list(a, [], k)
                if not is_idx(x) and v is s.start and s.stop is None and x is None and \
                        s.step in (None, 1):
                    return take_list(a, [], k)
            raise Unsupported("symbolic slice bound")
    if s == slice(None) or (s.start in (None, 0) and s.stop is None and s.step in (None, 1)):
        return a
    x = a.axes[k]
    if is_idx(x):
        raise Unsupported("slice of a symbolic axis")
    n = 1 if x is None else x
    rng = list(range(n))[s]
    return take_list(a, rng, k)


def take_list(a, rng, k):
    """Select positions rng (python ints) of axis k (unit or enumerated)."""
    x = a.axes[k]
    enum = a.enum_axes()
    j = sum(1 for e in enum if e < k)
    m = len(rng)
    data = {}
    if x is None:
        if m == 1:
            return a
        for p, b in a.data.items():
            for q in range(m):
                data[p[:j] + (q,) + p[j:]] = b
    else:
        for q, r in enumerate(rng):
            for p, b in a.data.items():
                if p[j] == r:
                    np_ = p[:j] + ((q,) if m != 1 else ()) + p[j + 1:]
                    data[np_] = b
    return Arr(a.axes[:k] + ((m if m != 1 else None),) + a.axes[k + 1:], data, a.dtype)


def pick(a, k, i):
    x = a.axes[k]
    if is_idx(x):
        raise Unsupported("position of a symbolic axis")
    n = 1 if x is None else x
    if i < -n or i >= n:
        raise IndexError("index %d out of bounds" % i)
    r = take_list(a, [i % n], k)
    return Arr(r.axes[:k] + r.axes[k + 1:], r.data, r.dtype)


def take(a, idx, k):
    """np.take along axis k by an integer array."""
    idx = lift(idx)
    flat_axes = idx.shape()
    x = a.axes[k]
    if is_idx(x):
        raise Unsupported("take along a symbolic axis")
    n = 1 if x is None else x
    pos = list(itertools.product(*[range(s) for s in flat_axes]))
    vals = []
    for p in pos:
        v = idx
        for c in p:
            v = pick(v, 0, c)
        c = num_of(v.data[()], "i")
        if not isinstance(c, int):
            raise Unsupported("symbolic index value")
        if c < -n or c >= n:
            raise IndexError("index out of bounds")
        vals.append(c % n)
    enum = a.enum_axes()
    j = sum(1 for e in enum if e < k)
    new_axes = tuple(None if s == 1 else s for s in flat_axes)
    data = {}
    for p, v in zip(pos, vals):
        pp = tuple(c for c, s in zip(p, flat_axes) if s != 1)
        for q, b in a.data.items():
            if x is None:
                data[q[:j] + pp + q[j:]] = b
            elif q[j] == v:
                data[q[:j] + pp + q[j + 1:]] = b
    return Arr(a.axes[:k] + new_axes + a.axes[k + 1:], data, a.dtype)


def broadcast_to(a, shape):
    o = ones(shape)
    if a.ndim > o.ndim:
        raise ShapeError("cannot broadcast to fewer axes")
    r = elementwise(lambda x, y: x, a, o, dtype=a.dtype)
    if [axis_len(x) for x in r.axes] != [to_body(s) for s in shape]:
        raise ShapeError("cannot broadcast %s to %s" % (a.shape(), tuple(shape)))
    return r


def sort_of_len(b):
    """Axis for a length."""
    c = b.constant()
    if c is not None:
        if c.denominator != 1 or c < 0:
            raise Unsupported("array length %s" % c)
        c = int(c)
        return None if c == 1 else c
    if b.monomial():
        ((fs, bd), c), = b.t.items()
        if c == 1 and len(fs) == 1 and fs[0][2] == 1 and not bd and \
                isinstance(fs[0][0], tuple) and fs[0][0][0] == "size":
            return fresh(fs[0][0][1])
    raise Unsupported("array length %r" % b)


def const_array(shape, body, dtype="f"):
    axes = tuple(sort_of_len(to_body(s)) for s in shape)
    enum = [a for a in axes if isinstance(a, int)]
    data = {p: body for p in itertools.product(*[range(n) for n in enum])}
    return Arr(axes, data, dtype)


def ones(shape):
    return const_array(shape, ONE)


def zeros(shape):
    return const_array(shape, ZERO)


def eye(n):
    ax = sort_of_len(to_body(n))
    if ax is None:
        return Arr((None, None), {(): ONE})
    if isinstance(ax, int):
        return Arr((ax, ax), {(i, j): (ONE if i == j else ZERO)
                              for i in range(ax) for j in range(ax)})
    b = fresh(ax[0])
    return Arr((ax, b), {(): Body.atom("delta", (ax, b))})


def einsum(operands, in_keys, out_keys):
    """operands: Arr list; keys: lists of hashables, Ellipsis allowed (leading)."""
    # expand Ellipsis
    nell = 0
    for a, ks in zip(operands, in_keys):
        if Ellipsis in ks:
            nell = max(nell, a.ndim - (len(ks) - 1))
    ell = [("...", k) for k in range(-nell, 0)]
    ins = []
    for a, ks in zip(operands, in_keys):
        ks = list(ks)
        if Ellipsis in ks:
            e = ks.index(Ellipsis)
            m = a.ndim - (len(ks) - 1)
            if m < 0:
                raise ShapeError("einsum: too many subscripts")
            ks[e:e + 1] = ell[nell - m:] if m else []
        if len(ks) != a.ndim:
            raise ShapeError("einsum: operand has %d axes, %d subscripts" % (a.ndim, len(ks)))
        ins.append(ks)
    if out_keys is None:
        cnt = {}
        for ks in ins:
            for k in ks:
                cnt[k] = cnt.get(k, 0) + 1
        outs = ell + sorted(k for k, c in cnt.items() if c == 1 and k not in ell)
    else:
        outs = list(out_keys)
        if Ellipsis in outs:
            e = outs.index(Ellipsis)
            outs[e:e + 1] = ell
    if len(set(outs)) != len(outs):
        raise ShapeError("einsum: output subscript repeated")
    axis = {}
    arrs = [a.refresh() for a in operands]
    for a, ks in zip(arrs, ins):
        for x, k in zip(a.axes, ks):
            cur = axis.get(k)
            if k not in axis or cur is None:
                axis[k] = x
            elif x is not None:
                if isinstance(x, int) or isinstance(cur, int):
                    if x != cur:
                        raise ShapeError("einsum: subscript has lengths %s and %s"
                                         % (show_axis(cur), show_axis(x)))
                elif x[0] != cur[0]:
                    raise ShapeError("einsum: subscript has lengths %s and %s"
                                     % (show_axis(cur), show_axis(x)))
    for k in outs:
        if k not in axis:
            raise ShapeError("einsum: output subscript %r not in inputs" % (k,))
    enum_keys = [k for k in axis if isinstance(axis[k], int)]
    out_enum = [k for k in outs if k in enum_keys]
    bind = {axis[k] for k in axis if is_idx(axis[k]) and k not in outs}
    data = {}
    for pos in itertools.product(*[range(axis[k]) for k in enum_keys]):
        val = dict(zip(enum_keys, pos))
        prod = ONE
        for a, ks in zip(arrs, ins):
            p = tuple(val[k] for x, k in zip(a.axes, ks) if isinstance(x, int))
            ren = {}
            b = a.data[p]
            for x, k in zip(a.axes, ks):
                if is_idx(x) and axis[k] != x:
                    ren[x] = axis[k]
            prod = prod * b.rename(ren)
            if prod.is_zero():
                break
        prod = prod.bind(bind)
        q = tuple(val[k] for k in out_enum)
        data[q] = data[q] + prod if q in data else prod
    return Arr(tuple(axis[k] for k in outs), data,
               "f" if any(a.dtype == "f" for a in operands) else "i")


def concatenate(arrs, axis):
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise ShapeError("concatenate: different numbers of axes")
    k = norm_axis(axis, nd)
    lens = []
    for a in arrs:
        x = a.axes[k]
        if is_idx(x):
            if len(arrs) == 1:
                return arrs[0]
            raise Unsupported("concatenation along a symbolic axis")
        lens.append(1 if x is None else x)
    # other axes must be equal
    base = arrs[0]
    for a in arrs[1:]:
        for j in range(nd):
            if j != k and axis_len(a.axes[j]) != axis_len(base.axes[j]):
                raise ShapeError("concatenate: axis %d has lengths %s and %s" % (
                    j, show_axis(base.axes[j]), show_axis(a.axes[j])))
    pieces = []
    for a, n in zip(arrs, lens):
        for i in range(n):
            pieces.append(pick(a, k, i))
    axes, al = align(pieces)
    al = [full(a, axes) for a in al]
    m = len(al)
    j = sum(1 for x in axes[:k] if isinstance(x, int))
    data = {}
    for q, a in enumerate(al):
        for p, b in a.data.items():
            data[(p[:j] + (q,) + p[j:]) if m != 1 else p] = b
    return Arr(axes[:k] + ((m if m != 1 else None),) + axes[k:], data,
               "f" if any(a.dtype == "f" for a in arrs) else arrs[0].dtype)


def set_many(a, key, val):
    """Adjacent index arrays of plain numbers; the other axes whole."""
    at = [i for i, k in enumerate(key) if isinstance(k, (Arr, list, range))]
    if at != list(range(at[0], at[0] + len(at))):
        raise Unsupported("separated index arrays")
    n_real = sum(1 for k in key if k is not Ellipsis)
    if n_real > a.ndim:
        raise IndexError("too many indices")
    idxs = []
    for i in at:
        idx = lift(key[i])
        if idx.dtype != "i" or any(is_idx(x) for x in idx.axes) or \
                any(b.constant() is None for b in idx.data.values()):
            raise Unsupported("assignment with an index array")
        idxs.append(idx)
    total = lift(0)
    for idx in idxs:
        total = add(total, mul(lift(0), idx))
    shape = total.shape()
    idxs = [broadcast_to(i, shape) for i in idxs]
    if total.ndim > 1:
        raise Unsupported("assignment with index matrices")
    out = a
    for q in range(shape[0] if shape else 1):
        pos = [int(num_of(i.data[(q,) if shape and shape[0] != 1 else ()], "i")) for i in idxs]
        k = tuple(key[:at[0]]) + tuple(pos) + tuple(key[at[-1] + 1:])
        v = val
        if shape:
            if at[0] != 0 and val.ndim > 0:
                raise Unsupported("assignment with index arrays")
            rest = getitem(out, k)
            if val.ndim > (rest.ndim if isinstance(rest, Arr) else 0):
                v = pick(val, 0, q if val.axes[0] is not None else 0)
        out = setitem(out, k, v)
    return out


def setitem(a, key, val):
    """Returns the updated array (basic indexing over unit/enumerated/symbolic axes)."""
    val = lift(val)
    if not isinstance(key, tuple):
        key = (key,)
    if any(isinstance(k, (Arr, list, range)) for k in key) and \
            not any(isinstance(k, Arr) and k.dtype == "b" for k in key):
        return set_many(a, key, val)
    key = list(key)
    if any(k is None for k in key):
        raise Unsupported("newaxis in assignment")
    n_real = sum(1 for k in key if k is not Ellipsis)
    if any(k is Ellipsis for k in key):
        e = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key[e:e + 1] = [slice(None)] * (a.ndim - n_real)
    else:
        key = key + [slice(None)] * (a.ndim - n_real)
    if len(key) > a.ndim:
        raise IndexError("too many indices")
    # positions selected on each axis
    sel = []
    for ax, k in zip(a.axes, key):
        if isinstance(k, slice):
            if full_slice(k, ax):
                sel.append(None)
                continue
            if is_idx(ax):
                raise Unsupported("assignment to a slice of a symbolic axis")
            if any(v is not None and not isinstance(v, int) for v in (k.start, k.stop, k.step)):
                raise Unsupported("symbolic slice")
            sel.append(list(range(1 if ax is None else ax))[k])
        elif isinstance(k, int) and not isinstance(k, bool):
            if is_idx(ax):
                raise Unsupported("assignment to a position of a symbolic axis")
            n = 1 if ax is None else ax
            if k < -n or k >= n:
                raise IndexError("index out of bounds")
            sel.append(k % n)
        else:
            raise Unsupported("assignment with index %s" % type(k).__name__)
    target = getitem(a, tuple(key))
    # broadcast value to the target
    if val.ndim > target.ndim:
        lead = val.ndim - target.ndim
        for _ in range(lead):
            val = drop_axis(val, 0)
    v = broadcast_to(val, target.shape())
    # rename v's indices to those of target in a
    ren = {x: y for x, y in zip(v.axes, target.axes) if is_idx(x)}
    vdata = {p: b.rename(ren) for p, b in v.data.items()}
    enum = a.enum_axes()
    data = dict(a.data)
    for pos in a.data:
        d = dict(zip(enum, pos))
        q, ok = [], True
        for k, (ax, s) in enumerate(zip(a.axes, sel)):
            c = d.get(k, 0)
            if s is None:
                if isinstance(ax, int):
                    q.append(c)
            elif isinstance(s, list):
                if c not in s:
                    ok = False
                    break
                if len(s) != 1:
                    q.append(s.index(c))
            else:
                if c != s:
                    ok = False
                    break
        if ok:
            data[pos] = vdata[tuple(q)]
    return Arr(a.axes, data, a.dtype)

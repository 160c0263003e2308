"""Constant propagation through an extracted term for given leaf constants.

Used to compare a scalar condition of the source with its specification on a
finite set of representative operand values (orderings, None/zero/positive,
small counters).  Nothing of the analysed program is executed."""
import math
from vg import *


class Unknown(Exception):
    pass


BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
       "/": lambda a, b: a / b if b else (math.nan if a == 0 or a != a else math.copysign(math.inf, a)),
       "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b,
       "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b}
CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, "==": lambda a, b: a == b,
       "!=": lambda a, b: a != b, "is": lambda a, b: a is b or (a == b and a is not None and
                                                               type(a) is type(b)),
       "is not": lambda a, b: not CMP["is"](a, b)}
FUN = {"np.mod": BIN["%"], "np.remainder": BIN["%"], "np.abs": abs, "abs": abs, "np.absolute": abs,
       "np.fabs": abs, "math.fabs": abs, "np.isnan": lambda x: x != x, "math.isnan": lambda x: x != x,
       "np.isfinite": lambda x: x == x and abs(x) != math.inf,
       "math.isfinite": lambda x: x == x and abs(x) != math.inf,
       "np.isinf": lambda x: abs(x) == math.inf,
       "np.logical_not": lambda x: not x, "np.logical_and": lambda a, b: bool(a and b),
       "np.logical_or": lambda a, b: bool(a or b), "bool": bool, "float": float, "int": int,
       "np.bool_": bool, "np.asarray": lambda x: x, "np.array": lambda x: x,
       "np.asanyarray": lambda x: x, "np.float64": lambda x: x,
       "max": max, "min": min, "np.maximum": max, "np.minimum": min,
       "np.subtract": BIN["-"], "np.add": BIN["+"], "np.divide": BIN["/"], "np.multiply": BIN["*"],
       "np.any": bool, "np.all": bool, "divmod": None}


def _lst(f, nan=False):
    def g(*a):
        xs = list(a[0]) if len(a) == 1 and isinstance(a[0], (list, tuple)) else list(a)
        if nan:
            xs = [x for x in xs if x == x] or [math.nan]
        elif any(x != x for x in xs):
            return math.nan
        return f(xs)
    return g


for _n, _f in (("max", max), ("min", min), ("sum", sum), ("mean", lambda x: sum(x) / len(x)),
               ("median", lambda x: sorted(x)[len(x) // 2])):
    FUN["np." + _n] = _lst(_f)
    FUN["np.nan" + _n] = _lst(_f, True)
FUN["np.amax"], FUN["np.amin"] = FUN["np.max"], FUN["np.min"]
FUN["max"], FUN["min"], FUN["sum"] = _lst(max), _lst(min), _lst(sum)
FUN["len"] = len


def fold(t, leaf, memo=None):
    """leaf(t) -> value, or raises/returns Unknown class for a non-leaf."""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = _fold(t, leaf, memo)
    memo[t] = r
    return r


def _fold(t, leaf, memo):
    v = leaf(t)
    if v is not Unknown:
        return v
    F = lambda x: fold(x, leaf, memo)
    op = t.op
    if op == "const":
        return t.a[0]
    if op == "phi":
        return F(t.a[1]) if F(t.a[0]) else F(t.a[2])
    if op in ("and", "or"):
        # an operand that cannot be evaluated is harmless when another one decides
        stop, r, unk = op == "or", op == "and", None
        for x in t.a:
            try:
                r = F(x)
            except Unknown as e:
                unk = unk or e
                continue
            if bool(r) == stop:
                return r
        if unk is not None:
            raise unk
        return r
    try:
        if op == "bin" and t.a[0] in BIN:
            return BIN[t.a[0]](F(t.a[1]), F(t.a[2]))
        if op == "cmp" and t.a[0] in CMP:
            return CMP[t.a[0]](F(t.a[1]), F(t.a[2]))
        if op == "un":
            x = F(t.a[1])
            return {"not": lambda: not x, "-": lambda: -x, "+": lambda: x,
                    "~": lambda: (not x) if isinstance(x, bool) else ~x}[t.a[0]]()
        if op == "call" and FUN.get(t.a[0]) and not t.a[2]:
            return FUN[t.a[0]](*[F(x) for x in t.a[1]])
        if op == "mcall" and not t.a[2] and not t.a[3] and FUN.get("np." + t.a[0]):
            return FUN["np." + t.a[0]](F(t.a[1]))
        if op == "sub" and t.a[1].op == "slice":
            base = F(t.a[0])
            if isinstance(base, (list, tuple)):
                return base[slice(*[F(x) for x in t.a[1].a])]
        elif op == "sub":
            base, i = F(t.a[0]), F(t.a[1])
            if isinstance(base, (list, tuple)) and isinstance(i, int):
                return base[i]
        if op == "obj":
            return F(t.a[0])
    except Unknown:
        raise
    except (TypeError, ValueError, KeyError, IndexError, ZeroDivisionError, OverflowError) as e:
        raise Unknown("%s: %s" % (type(e).__name__, t))
    raise Unknown(str(t)[:120])


def fold_guards(guards, leaf):
    """Value of the Boolean guards of an effect (structured guards ignored)."""
    for g in guards:
        if len(g) == 2 and isinstance(g[1], bool) and isinstance(g[0], T):
            if bool(fold(g[0], leaf)) != g[1]:
                return False
    return True

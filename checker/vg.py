"""Value graphs and effect traces (gated SSA) for Python functions.

`Builder` turns a function into

* a hash-consed value graph: every expression becomes a term over parameters,
  attributes and constants (value numbering, so local names, statement order
  and helper functions disappear), control-flow joins become `phi` terms,
  loops are summarised by one generic iteration with the index term `ix(d)`;
* an ordered effect trace: attribute stores, in-place mutations, calls,
  raises and returns, each with the gating conditions under which it is
  reached.

Nothing is executed: no concrete values, no path enumeration, no solver.
Constants are folded and a branch whose condition folds to a constant is
pruned (ordinary constant propagation, used to specialise e.g. `index == 0`).
"""
import ast
import itertools
import sys

from program import Program, ModuleInfo, ClassInfo, FuncInfo, AnalysisError

sys.setrecursionlimit(20000)


# ----------------------------------------------------------------------- terms
class T:
    __slots__ = ("op", "a", "id")
    _tab = {}
    _n = itertools.count()

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.id < other.id


def _key(x):
    if isinstance(x, T):
        return ("T", x.id)
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    return (type(x).__name__, x)


def mk(op, *a):
    k = (op,) + tuple(_key(x) for x in a)
    t = T._tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.a = a
        t.id = next(T._n)
        T._tab[k] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ELL = const(Ellipsis)


def is_const(t):
    return isinstance(t, T) and t.op == "const"


def param(name):
    return mk("param", name)


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth > 14:
        return "…"
    d = depth + 1
    op, a = t.op, t.a
    if op == "const":
        return repr(a[0])
    if op == "param":
        return a[0]
    if op == "self":
        return "self"
    if op == "attr":
        return "%s.%s" % (show(a[0], d), a[1])
    if op == "bin":
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if op == "cmp":
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if op == "un":
        return "%s(%s)" % (a[0], show(a[1], d))
    if op in ("tuple", "list"):
        s = ", ".join(show(x, d) for x in a)
        return ("(%s)" if op == "tuple" else "[%s]") % s
    if op == "sub":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "phi":
        return "φ(%s ? %s : %s)" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if op == "call":
        return "%s(%s)" % (a[0], ", ".join(
            [show(x, d) for x in a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in a[2]]))
    if op == "mcall":
        return "%s.%s(%s)" % (show(a[1], d), a[0], ", ".join(
            [show(x, d) for x in a[2]] + ["%s=%s" % (k, show(v, d)) for k, v in a[3]]))
    if op == "ix":
        return "i%d" % a[0]
    if op == "name":
        return a[0]
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in a))


def subterms(t, seen=None):
    """All sub-terms (each once)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(x.a)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def substitute(t, table, memo=None):
    """Replace sub-terms (dict T->T), rebuilding with normalisation."""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(substitute(x, table, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in table:
        r = table[t]
    elif not t.a or t.op in ("const", "param", "self", "ix", "name"):
        r = t
    else:
        na = tuple(substitute(x, table, memo) for x in t.a)
        r = rebuild(t.op, na) if any(x is not y for x, y in zip(na, t.a)) else t
    memo[t] = r
    return r


def rebuild(op, a):
    if op == "phi":
        return phi(*a)
    if op == "sub":
        return sub(*a)
    if op == "bin":
        return binop(*a)
    if op == "cmp":
        return compare(*a)
    if op == "un":
        return unop(*a)
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    return mk(op, *a)


# ------------------------------------------------------------- normalisation
def truth(t):
    """Constant truth value of a term, or None."""
    if is_const(t):
        try:
            return bool(t.a[0])
        except Exception:
            return None
    if t.op in ("tuple", "list"):
        if any(x.op in ("each", "star") for x in t.a):
            return None
        return len(t.a) > 0
    if t.op in ("func", "cls", "closure", "new", "self", "module", "bound"):
        return True
    return None


_FOLD = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
    "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b,
    "**": lambda a, b: a ** b,
}
_CMP = {
    "==": lambda a, b: a == b, "!=": lambda a, b: a != b,
    "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
}


def arraylike(t):
    """Certainly an array (or number), so that + and * are arithmetic."""
    if t.op == "bin":
        return t.a[0] in ("-", "/", "**", "@") or arraylike(t.a[1]) or arraylike(t.a[2])
    if t.op == "un":
        return True
    if t.op == "call":
        return str(t.a[0]).split(".")[0] in ("np", "linalg", "special", "scipy", "math")
    if t.op == "sub":
        items = t.a[1].a if t.a[1].op == "tuple" else (t.a[1],)
        return any(i is NONE or (is_const(i) and i.a[0] is Ellipsis) for i in items)
    return is_const(t) and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)


def binop(op, a, b):
    if is_const(a) and is_const(b) and op in _FOLD:
        x, y = a.a[0], b.a[0]
        if isinstance(x, (int, float)) and isinstance(y, (int, float)) or \
                (op in "+*" and isinstance(x, (str, int)) and isinstance(y, (str, int))):
            try:
                v = _FOLD[op](x, y)
                if not isinstance(v, complex) and not (isinstance(v, str) and len(v) > 200):
                    return const(v)
            except Exception:
                pass
    if op == "+" and a.op in ("tuple", "list") and b.op == a.op:
        return mk(a.op, *(a.a + b.a))
    if op == "*":
        for x, y in ((a, b), (b, a)):
            if x.op in ("tuple", "list") and is_const(y) and isinstance(y.a[0], int):
                if 0 <= y.a[0] <= 8:
                    return mk(x.op, *(x.a * y.a[0]))
    return mk("bin", op, a, b)


def unop(op, a):
    if is_const(a):
        v = a.a[0]
        try:
            if op == "-" and isinstance(v, (int, float)):
                return const(-v)
            if op == "not":
                return const(not v)
            if op == "+" and isinstance(v, (int, float)):
                return a
        except Exception:
            pass
    if op == "not":
        tv = truth(a)
        if tv is not None:
            return const(not tv)
        if a.op == "un" and a.a[0] == "not":
            return a.a[1]
        if a.op == "cmp":
            neg = {"==": "!=", "!=": "==", "is": "is not", "is not": "is",
                   "in": "not in", "not in": "in"}
            if a.a[0] in neg:
                return compare(neg[a.a[0]], a.a[1], a.a[2])
    return mk("un", op, a)


_NOTNONE = {"tuple", "list", "func", "cls", "closure", "new", "self", "module",
            "bin", "cmp", "each", "obj", "bound"}


def compare(op, a, b):
    if is_const(a) and is_const(b):
        x, y = a.a[0], b.a[0]
        try:
            if op in _CMP:
                return const(bool(_CMP[op](x, y)))
            if op == "is":
                return const(x is y or (x == y and type(x) is type(y)))
            if op == "is not":
                return const(not (x is y or (x == y and type(x) is type(y))))
        except Exception:
            pass
    if op in ("is", "is not"):
        other = None
        if b is NONE:
            other = a
        elif a is NONE:
            other = b
        if other is not None and (other.op in _NOTNONE):
            return const(op == "is not")
        if a is b and a.op not in ("call", "mcall"):
            return const(op == "is")
        if b in (TRUE, FALSE, ELL) and a.op in ("tuple", "list", "func", "closure"):
            return const(op == "is not")
    if op in ("==", "!=") and a is b and a.op in ("param", "self", "ix"):
        return const(op == "==")
    if op in ("==", "!=") and a.op in ("tuple", "list") and b.op == a.op:
        plain = all(x.op not in ("each", "star") for x in a.a + b.a)
        if plain and len(a.a) != len(b.a):
            return const(op == "!=")
        if plain and all(x is y for x, y in zip(a.a, b.a)) and all(
                is_const(x) for x in a.a):
            return const(op == "==")
    # orientation: prefer < and <=
    if op == ">":
        return mk("cmp", "<", b, a)
    if op == ">=":
        return mk("cmp", "<=", b, a)
    if op in ("==", "!=") and is_const(a) and not is_const(b):
        a, b = b, a
    return mk("cmp", op, a, b)


def and_(*xs):
    out = []
    for x in xs:
        if x.op == "and":
            items = x.a
        else:
            items = (x,)
        for y in items:
            tv = truth(y)
            if tv is True:
                continue
            if tv is False:
                return FALSE
            if y not in out:
                out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out, key=lambda z: z.id))


def or_(*xs):
    out = []
    for x in xs:
        items = x.a if x.op == "or" else (x,)
        for y in items:
            tv = truth(y)
            if tv is False:
                continue
            if tv is True:
                return TRUE
            if y not in out:
                out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *sorted(out, key=lambda z: z.id))


def phi(c, a, b):
    if a is b:
        return a
    tv = truth(c)
    if tv is True:
        return a
    if tv is False:
        return b
    if c.op == "un" and c.a[0] == "not":
        return phi(c.a[1], b, a)
    if c.op == "cmp" and c.a[0] in ("!=", "is not", "not in"):
        inv = {"!=": "==", "is not": "is", "not in": "in"}[c.a[0]]
        return phi(mk("cmp", inv, c.a[1], c.a[2]), b, a)
    # same-condition nesting
    if a.op == "phi" and a.a[0] is c:
        a = a.a[1]
    if b.op == "phi" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return unop("not", c)
    return mk("phi", c, a, b)


def sub(x, i):
    if x.op in ("tuple", "list"):
        plain = all(y.op not in ("each", "star") for y in x.a)
        if is_const(i) and isinstance(i.a[0], int) and not isinstance(i.a[0], bool):
            k = i.a[0]
            if plain and -len(x.a) <= k < len(x.a):
                return x.a[k]
            if k >= 0 and k < len(x.a) and all(
                    y.op not in ("each", "star") for y in x.a[:k + 1]):
                return x.a[k]
        if i.op == "slice" and plain and all(
                is_const(z) and (z.a[0] is None or isinstance(z.a[0], int)) for z in i.a):
            return mk(x.op, *x.a[slice(*[z.a[0] for z in i.a])])
        # [f(i) for i ...][i]
        if len(x.a) == 1 and x.a[0].op == "each" and i.op == "ix" and \
                x.a[0].a[2] is TRUE:
            return x.a[0].a[1]
        if i.op == "ix" and plain and len(x.a) and all(y is x.a[0] for y in x.a):
            return x.a[0]
    if x.op == "phi" and (x.a[1].op in ("tuple", "list") or x.a[2].op in ("tuple", "list")):
        return phi(x.a[0], sub(x.a[1], i), sub(x.a[2], i))
    if x.op == "call" and x.a[0] == "zip" and not x.a[2]:
        return mk("tuple", *[sub(y, i) for y in x.a[1]])
    if x.op == "call" and x.a[0] == "enumerate" and not x.a[2] and len(x.a[1]) == 1:
        return mk("tuple", i, sub(x.a[1][0], i))
    if x.op == "call" and x.a[0] == "range" and i.op == "ix":
        if len(x.a[1]) == 1:
            return i
        if len(x.a[1]) == 2:
            return binop("+", x.a[1][0], i) if not (
                is_const(x.a[1][0]) and x.a[1][0].a[0] == 0) else i
    if x.op == "mcall" and x.a[0] == "items" and not x.a[2] and i.op == "ix":
        k = mk("sub", mk("mcall", "keys", x.a[1], (), ()), i)
        return mk("tuple", k, mk("sub", x.a[1], k))
    if x.op == "call" and x.a[0] in ("list", "tuple") and len(x.a[1]) == 1 and not x.a[2]:
        return sub(x.a[1][0], i)
    if x.op == "update":
        base, idx, val = x.a
        if idx is i:
            return val
        if is_const(idx) and is_const(i) and idx.a[0] != i.a[0] and \
                type(idx.a[0]) is int and type(i.a[0]) is int:
            return sub(base, i)
    if x.op == "foldmap":
        # list whose element at the loop index was replaced in a loop
        if i.op == "ix":
            return x.a[1]
    return mk("sub", x, i)


# ------------------------------------------------------------------- effects
class Effect:
    __slots__ = ("kind", "target", "value", "extra", "guards", "node", "func",
                 "stack", "n")

    def __init__(self, kind, target, value, extra, guards, node, func, stack, n):
        self.kind = kind        # store | mutate | call | raise | return | del
        self.target = target
        self.value = value
        self.extra = extra
        self.guards = guards
        self.node = node
        self.func = func
        self.stack = stack
        self.n = n

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    @property
    def where(self):
        return "%s:%d (%s)" % (self.func.module.rel, self.line, self.func.qual)

    def __repr__(self):
        return "<%s %s = %s | %s @%s>" % (self.kind, self.target, self.value,
                                         self.guards, self.where)


class Frame:
    __slots__ = ("func", "env", "parent", "cls", "self_term", "returns",
                 "guard_base", "nonlocals", "globals", "module", "localnames", "site")

    def __init__(self, func, cls, parent=None):
        self.func = func
        self.module = func.module
        self.cls = cls
        self.env = {}
        self.parent = parent
        self.self_term = None
        self.returns = []
        self.guard_base = 0
        self.site = ""
        self.nonlocals = set()


class Closure:
    """A nested function or lambda together with its defining frame."""
    _n = itertools.count()

    def __init__(self, node, frame, func):
        self.node = node
        self.frame = frame
        self.func = func
        self.id = next(self._n)


class Policy:
    """What to inline and what is known about attribute types."""

    def __init__(self, opaque=(), attr_types=None, max_depth=12,
                 inline_modules=None, opaque_funcs=(), unroll=6, fresh=()):
        self.fresh = set(fresh)              # opaque methods whose calls are told apart by site
        self.opaque = set(opaque)            # method names never inlined
        self.opaque_funcs = set(opaque_funcs)  # module-level functions
        self.attr_types = attr_types or {}   # attribute name -> class name
        self.max_depth = max_depth
        self.inline_modules = inline_modules  # None: all
        self.unroll = unroll


FALLS, TERM = 0, 1

BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) \
    else set(__builtins__)

LIST_MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort",
                 "reverse", "clear"}
SET_MUTATORS = {"add", "discard", "update", "difference_update",
                "intersection_update", "symmetric_difference_update"}
ARRAY_MUTATORS = {"fill", "itemset", "resize", "put", "partition", "sort",
                  "setflags"}


class LoopRec:
    """Summary of one loop: carried variables (initial, value at the end of the
    body), the guards under which the end of the body is reached, the test."""

    def __init__(self, loopid, domain, depth, node, status, begin, end, outer,
                 guards, carried, test):
        self.loopid, self.domain, self.depth, self.node = loopid, domain, depth, node
        self.status, self.begin, self.end = status, begin, end
        self.outer, self.guards, self.carried, self.test = outer, guards, carried, test


class Builder:
    def __init__(self, program, policy=None):
        self.p = program
        self.policy = policy or Policy()
        self.store = {}
        self.effects = []
        self.guards = []
        self.loopdepth = 0
        self.frames = []
        self.closures = {}
        self.nobj = itertools.count()
        self.unsupported = []
        self.inlined = set()
        self.loops = []          # LoopRec of every summarised loop

    # -------------------------------------------------------------- utilities
    def new_obj(self, content):
        o = mk("obj", next(self.nobj), id(self))
        self.store[o] = content
        return o

    def freeze(self, t, seen=None):
        """Replace list objects by their present contents."""
        if isinstance(t, tuple):
            return tuple(self.freeze(x, seen) for x in t)
        if not isinstance(t, T):
            return t
        if t.op in ("const", "param", "self", "ix", "name", "func", "cls", "module",
                    "closure"):
            return t
        if seen is None:
            seen = {}
        if t in seen:
            return seen[t]
        if t.op == "obj":
            seen[t] = t
            c = self.store.get(t)
            r = self.freeze(c, seen) if c is not None else t
        else:
            if not any(x.op == "obj" for x in subterms(t)):
                r = t
            else:
                na = tuple(self.freeze(x, seen) for x in t.a)
                r = rebuild(t.op, na)
        seen[t] = r
        return r

    def effect(self, kind, target, value=None, extra=None, node=None):
        e = Effect(kind,
                   self.freeze(target) if isinstance(target, (T, tuple)) else target,
                   self.freeze(value) if isinstance(value, (T, tuple)) else value,
                   extra, tuple(self.guards), node,
                   self.frames[-1].func if self.frames else None,
                   tuple(f.func.qual for f in self.frames), len(self.effects))
        self.effects.append(e)
        return e

    def _snapshot(self):
        return (dict(self.store), [dict(f.env) for f in self.frames])

    def _restore(self, snap):
        self.store = dict(snap[0])
        for f, e in zip(self.frames, snap[1]):
            f.env = dict(e)

    def _merge(self, cond, s1, s2):
        """State = cond ? s1 : s2."""
        store = {}
        for k in set(s1[0]) | set(s2[0]):
            a = s1[0].get(k)
            b = s2[0].get(k)
            if a is b:
                store[k] = a
                continue
            if isinstance(k, T) and k.op == "obj":
                store[k] = a if b is None else b if a is None else phi(cond, a, b)
            else:
                # attribute: missing means initial value
                init = mk("attr", k[0], k[1])
                store[k] = phi(cond, a if a is not None else init,
                               b if b is not None else init)
        self.store = store
        for f, e1, e2 in zip(self.frames, s1[1], s2[1]):
            env = {}
            for k in set(e1) | set(e2):
                a = e1.get(k)
                b = e2.get(k)
                if a is b:
                    env[k] = a
                elif a is None:
                    env[k] = phi(cond, mk("undef", k), b)
                elif b is None:
                    env[k] = phi(cond, a, mk("undef", k))
                else:
                    env[k] = phi(cond, a, b)
            f.env = env

    # ------------------------------------------------------------------ entry
    def run(self, func, cls=None, args=(), kwargs=None, self_term=None, varargs=None,
            varkw=None):
        """Analyse `func` as an entry point.

        args: terms bound to positional parameters (after self); unbound
        parameters become `param` terms (defaults are NOT assumed)."""
        cls = cls or func.cls
        fr = Frame(func, func.cls)
        node = func.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if func.kind in ("plain", "property", "setter") and func.cls is not None:
            st = self_term or mk("self", cls.name)
            self.self_cls = cls
            fr.env[names[0]] = st
            fr.self_term = st
            names = names[1:]
        elif func.kind == "class":
            st = self_term or mk("cls", cls.name)
            fr.env[names[0]] = st
            fr.self_term = st
            names = names[1:]
        args = list(args)
        kwargs = dict(kwargs or {})
        for n in names:
            if args:
                fr.env[n] = args.pop(0)
            elif n in kwargs:
                fr.env[n] = kwargs.pop(n)
            else:
                fr.env[n] = param(n)
        for x in a.kwonlyargs:
            fr.env[x.arg] = kwargs.pop(x.arg) if x.arg in kwargs else param(x.arg)
        if a.vararg:
            if args or varargs is not None:
                fr.env[a.vararg.arg] = mk("tuple", *(args or varargs))
            else:
                fr.env[a.vararg.arg] = param("*" + a.vararg.arg)
        if a.kwarg:
            fr.env[a.kwarg.arg] = varkw or param("**" + a.kwarg.arg)
        self.frames.append(fr)
        fr.guard_base = len(self.guards)
        status = self.exec_block(node.body)
        ret = self._finish_frame(fr, status, node)
        self.last_frame = fr
        self.frames.pop()
        return self.freeze(ret) if ret is not None else None

    def call_closure(self, t, args=(), kwargs=None):
        """Analyse a closure term with the given argument terms."""
        c = self.closures[t]
        return self._inline_node(c.func, c.node, None, list(args), dict(kwargs or {}),
                                 c.frame, c.node, parent=c.frame)

    def _finish_frame(self, fr, status, node):
        """Merge the return points of a frame: value and state."""
        outs = list(fr.returns)
        if status == FALLS:
            outs.append((tuple(self.guards[fr.guard_base:]), NONE, self._snapshot()))
        del self.guards[fr.guard_base:]
        if not outs:
            return None          # never returns normally
        val, snap = outs[-1][1], outs[-1][2]
        for g, v, s in reversed(outs[:-1]):
            c = self._guard_term(g)
            v1 = v
            # freeze list objects so that merged values are self-contained
            if v1 is not val:
                v1 = self._freeze_in(v1, s)
                val = self._freeze_in(val, snap)
            val = phi(c, v1, val)
            self._merge(c, s, snap)
            snap = self._snapshot()
        self._restore(snap)
        return val

    def _freeze_in(self, t, snap):
        old = self.store
        self.store = snap[0]
        try:
            return self.freeze(t)
        finally:
            self.store = old

    def _guard_term(self, guards):
        parts = []
        for g in guards:
            if g[0] == "loop":
                parts.append(mk("inloop", g[1]))
            elif g[0] == "exc":
                parts.append(mk("exc", g[1]))
            else:
                parts.append(g[0] if g[1] else unop("not", g[0]))
        return and_(*parts) if parts else TRUE

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts):
        for st in stmts:
            r = self.exec_stmt(st)
            if r == TERM:
                return TERM
        return FALLS

    def exec_stmt(self, st):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            self.unsupported.append((type(st).__name__, st))
            return FALLS
        return m(st) or FALLS

    def st_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value)

    def st_Pass(self, st):
        pass

    def st_Global(self, st):
        pass

    def st_Nonlocal(self, st):
        self.frames[-1].nonlocals |= set(st.names)

    def st_Import(self, st):
        fr = self.frames[-1]
        for a in st.names:
            if a.asname:
                fr.env[a.asname] = self.dotted_term(a.name)
            else:
                fr.env[a.name.split(".")[0]] = self.dotted_term(a.name.split(".")[0])

    def st_ImportFrom(self, st):
        fr = self.frames[-1]
        m = fr.module
        for a in st.names:
            tgt = m.imports.get(a.asname or a.name)
            if tgt:
                fr.env[a.asname or a.name] = self.dotted_term(tgt)

    def st_FunctionDef(self, st):
        fr = self.frames[-1]
        fi = FuncInfo(fr.module, None, st.name, st)
        fi.qual = fr.func.qual + "." + st.name
        c = Closure(st, fr, fi)
        t = mk("closure", c.id, st.name)
        self.closures[t] = c
        fr.env[st.name] = t

    def st_ClassDef(self, st):
        fr = self.frames[-1]
        for c in fr.module.all_classes:
            if c.node is st:
                fr.env[st.name] = mk("cls", c.name)
                return
        fr.env[st.name] = mk("name", st.name)

    def st_Return(self, st):
        v = self.ev(st.value) if st.value is not None else NONE
        fr = self.frames[-1]
        self.effect("return", v, None, None, st)
        fr.returns.append((tuple(self.guards[fr.guard_base:]), v, self._snapshot()))
        return TERM

    def st_Raise(self, st):
        v = self.ev(st.exc) if st.exc is not None else NONE
        self.effect("raise", v, None, None, st)
        return TERM

    def st_Assert(self, st):
        c = self.ev(st.test)
        self.guards.append((unop("not", c), True))
        self.effect("raise", mk("name", "AssertionError"), None, None, st)
        self.guards.pop()

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value)
                idx = self.ev(t.slice)
                self.effect("mutate", base, None, ("del", idx), t)
                self._set_lvalue_content(t.value, base,
                                         mk("delitem", self.freeze(base), self.freeze(idx)))
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value)
                self.effect("del", base, None, t.attr, t)

    def st_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v, st)

    def st_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value), st)

    def st_AugAssign(self, st):
        ops = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
               ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&",
               ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@",
               ast.LShift: "<<", ast.RShift: ">>"}
        op = ops[type(st.op)]
        tgt = st.target
        old = self.ev(tgt)
        rhs = self.ev(st.value)
        if old.op == "obj" and op == "+":
            # list += iterable
            c = self.store[old]
            fr = self.freeze(rhs)
            self.effect("mutate", old, fr, ("aug", "+"), st)
            if fr.op in ("list", "tuple"):
                self.store[old] = binop("+", c, mk("list", *fr.a))
            else:
                self.store[old] = binop("+", c, mk("list", mk("star", fr)))
            return
        new = binop(op, self.freeze(old), self.freeze(rhs))
        self.effect("mutate", old, new, ("aug", op), st)
        self._assign_nomut(tgt, new, st)

    def _assign_nomut(self, tgt, v, st):
        if isinstance(tgt, ast.Subscript):
            base = self.ev(tgt.value)
            idx = self.ev(tgt.slice)
            self._write_sub(tgt, base, idx, v)
        else:
            self.assign(tgt, v, st)

    def assign(self, tgt, v, st):
        if isinstance(tgt, ast.Name):
            self._bind(tgt.id, v)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            elts = tgt.elts
            fv = self._peek(v)
            starred = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if starred:
                k = starred[0]
                n_after = len(elts) - k - 1
                for i, e in enumerate(elts[:k]):
                    self.assign(e, sub(fv, const(i)), st)
                self.assign(elts[k].value, sub(fv, mk(
                    "slice", const(k), const(-n_after if n_after else None), NONE)), st)
                for i, e in enumerate(elts[k + 1:]):
                    self.assign(e, sub(fv, const(i - n_after)), st)
            else:
                for i, e in enumerate(elts):
                    self.assign(e, sub(fv, const(i)), st)
        elif isinstance(tgt, ast.Attribute):
            base = self.ev(tgt.value)
            self.set_attr(base, tgt.attr, v, st)
        elif isinstance(tgt, ast.Subscript):
            base = self.ev(tgt.value)
            idx = self.ev(tgt.slice)
            self.effect("mutate", base, v, ("set", self.freeze(idx)), st)
            self._write_sub(tgt, base, idx, v)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, v, st)

    def _peek(self, v):
        if v.op == "obj":
            return self.store[v]
        return v

    def _write_sub(self, tgt, base, idx, v):
        idx = self.freeze(idx)
        if base.op == "obj":
            c = self.store[base]
            self.store[base] = self._update(c, idx, v)
        else:
            new = self._update(base, idx, self.freeze(v))
            self._set_lvalue_content(tgt.value, base, new)

    def _update(self, c, idx, v):
        if c.op == "list" and is_const(idx) and isinstance(idx.a[0], int) and all(
                x.op not in ("each", "star") for x in c.a):
            k = idx.a[0]
            if -len(c.a) <= k < len(c.a):
                items = list(c.a)
                items[k] = v
                return mk("list", *items)
        if c.op == "update" and c.a[1] is idx:
            c = c.a[0]
        return mk("update", c, idx, v)

    def _set_lvalue_content(self, expr, base, new):
        """Rebind the l-value expression that denoted `base` to `new`."""
        if base.op == "obj":
            self.store[base] = new
            return
        if isinstance(expr, ast.Name):
            self._bind(expr.id, new)
        elif isinstance(expr, ast.Attribute):
            b = self.ev(expr.value)
            self.store[(b, self.mangle(expr.attr))] = new
        elif isinstance(expr, ast.Subscript):
            b = self.ev(expr.value)
            i = self.ev(expr.slice)
            self._write_sub(expr, b, i, new)

    def _bind(self, name, v):
        fr = self.frames[-1]
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.env:
                    f.env[name] = v
                    return
                f = f.parent
        fr.env[name] = v

    def mangle(self, attr):
        return attr

    def set_attr(self, base, attr, v, st):
        # property setter?
        cls = self.typeof(base)
        if cls is not None:
            s = self.p.find_setter(cls, attr)
            if s is not None and len(self.frames) < self.policy.max_depth:
                self._inline(s, cls, base, [v], {}, st)
                return
        self.effect("store", base, v, attr, st)
        self.store[(base, attr)] = v

    def _branch(self, body, guard):
        n = len(self.guards)
        self.guards.append(guard)
        status = self.exec_block(body) if isinstance(body, list) else body()
        residual = list(self.guards[n + 1:])
        del self.guards[n:]
        return status, residual, self._snapshot()

    def st_If(self, st):
        c = self.ev_cond(st.test)
        tv = truth(c)
        if tv is True:
            return self.exec_block(st.body)
        if tv is False:
            return self.exec_block(st.orelse)
        return self._if(c, st.body, st.orelse)

    def _raises_only(self, n_before):
        return all(e.kind != "return" for e in self.effects[n_before:])

    def _if(self, c, body, orelse):
        s0 = self._snapshot()
        n0 = len(self.effects)
        nret0 = self._exits()
        st1, res1, s1 = self._branch(body, (c, True))
        exits1 = self._exits() - nret0
        self._restore(s0)
        nret1 = self._exits()
        st2, res2, s2 = self._branch(orelse, (c, False))
        exits2 = self._exits() - nret1
        if st1 == TERM and st2 == TERM:
            return TERM
        if st1 == TERM:
            self._restore(s2)
            if exits1:
                self.guards.append((c, False))
            self.guards.extend(res2)
            return FALLS
        if st2 == TERM:
            self._restore(s1)
            if exits2:
                self.guards.append((c, True))
            self.guards.extend(res1)
            return FALLS
        self._merge(c, s1, s2)
        if res1:
            self.guards.append((or_(unop("not", c), self._guard_term(res1)), True))
        if res2:
            self.guards.append((or_(c, self._guard_term(res2)), True))
        return FALLS

    def _exits(self):
        """Number of non-raise exits recorded so far in the current frame."""
        return len(self.frames[-1].returns) + self._loop_exits

    _loop_exits = 0

    def st_Break(self, st):
        self._loop_exits += 1
        self.effect("break", None, None, None, st)
        return TERM

    def st_Continue(self, st):
        self._loop_exits += 1
        self.effect("continue", None, None, None, st)
        return TERM

    def _assigned(self, stmts):
        """Names bound in a block, without descending into nested functions."""
        names = set()

        def tgt(t):
            if isinstance(t, ast.Name):
                names.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    tgt(e)
            elif isinstance(t, ast.Starred):
                tgt(t.value)
            elif isinstance(t, ast.Subscript):
                tgt(t.value)

        def walk(n):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgt(n.target)
            elif isinstance(n, ast.For):
                tgt(n.target)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, ast.With):
                for it in n.items:
                    if it.optional_vars is not None:
                        tgt(it.optional_vars)
            elif isinstance(n, ast.NamedExpr):
                tgt(n.target)
            for ch in ast.iter_child_nodes(n):
                walk(ch)
        for s in stmts:
            walk(s)
        return names

    def _aug_names(self, stmts):
        out = set()
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    out.add(n.target.id)
        return out

    def st_For(self, st):
        it = self.ev(st.iter)
        fit = self.freeze(it)
        # full unrolling over literal sequences
        items = self._literal_items(fit)
        if items is not None and len(items) <= self.policy.unroll and not any(
                isinstance(n, (ast.Break, ast.Continue)) for s in st.body for n in ast.walk(s)):
            for v in items:
                self.assign(st.target, v, st)
                r = self.exec_block(st.body)
                if r == TERM:
                    return TERM
            if st.orelse:
                return self.exec_block(st.orelse)
            return FALLS
        dom = mk("until", fit) if self._breaks(st.body) else fit
        return self._loop(st, dom, lambda ix: self.assign(st.target, sub(fit, ix), st), None)

    def _breaks(self, stmts):
        """A `break` of this loop (not of a nested one) occurs in the statements."""
        for s in stmts:
            if isinstance(s, ast.Break):
                return True
            if isinstance(s, (ast.For, ast.While)):
                if self._breaks(s.orelse):
                    return True
                continue
            for f in ("body", "orelse", "finalbody"):
                if self._breaks(getattr(s, f, None) or []):
                    return True
            for h in getattr(s, "handlers", None) or []:
                if self._breaks(h.body):
                    return True
        return False

    def st_While(self, st):
        c0 = self.ev_cond(st.test)
        if truth(c0) is False:
            return self.exec_block(st.orelse) if st.orelse else FALLS
        return self._loop(st, mk("while", st.lineno * 0), None, st.test)

    def _literal_items(self, fit):
        if fit.op in ("tuple", "list") and all(x.op not in ("each", "star") for x in fit.a):
            return list(fit.a)
        if fit.op == "call" and fit.a[0] == "range" and not fit.a[2] and all(
                is_const(x) and isinstance(x.a[0], int) for x in fit.a[1]):
            try:
                r = range(*[x.a[0] for x in fit.a[1]])
            except Exception:
                return None
            if len(r) <= 16:
                return [const(i) for i in r]
        if fit.op == "call" and fit.a[0] == "enumerate" and len(fit.a[1]) == 1:
            inner = self._literal_items(fit.a[1][0])
            if inner is not None:
                return [mk("tuple", const(i), x) for i, x in enumerate(inner)]
        if fit.op == "call" and fit.a[0] == "zip" and fit.a[1]:
            lists = [self._literal_items(x) for x in fit.a[1]]
            if all(l is not None for l in lists):
                return [mk("tuple", *x) for x in zip(*lists)]
            known = [l for l in lists if l is not None]
            if known:
                n = min(len(l) for l in known)
                out = []
                for i in range(n):
                    out.append(mk("tuple", *[
                        (l[i] if l is not None else sub(x, const(i)))
                        for l, x in zip(lists, fit.a[1])]))
                return out
        if fit.op == "call" and fit.a[0] == "reversed" and len(fit.a[1]) == 1:
            inner = self._literal_items(fit.a[1][0])
            if inner is not None:
                return inner[::-1]
        return None

    def _loop(self, st, domain, bind, test):
        depth = self.loopdepth
        ix = mk("ix", depth)
        self.loopdepth += 1
        loopid = mk("loopid", domain, depth)
        assigned = self._assigned(st.body)
        s0 = self._snapshot()
        fr = self.frames[-1]
        # loop-carried local variables
        carried = {}
        for n in assigned:
            v = fr.env.get(n)
            if v is not None and v.op != "obj":
                carried[n] = v
                fr.env[n] = mk("carry", loopid, n, v)
        ng = len(self.guards)
        self.guards.append(("loop", domain, depth))
        if bind is not None:
            bind(ix)
        if test is not None:
            c = self.ev_cond(test)
            if truth(c) is None:
                self.guards.append((c, True))
        old_exits = self._loop_exits
        nret = len(fr.returns)
        obj0 = {k: v for k, v in self.store.items() if isinstance(k, T) and k.op == "obj"}
        n_begin = len(self.effects)
        status = self.exec_block(st.body)
        self._loop_exits = old_exits
        self.loops.append(LoopRec(
            loopid, domain, depth, st, status, n_begin, len(self.effects),
            tuple(self.guards[:ng]), tuple(self.guards[ng:]),
            {n: (v, self.freeze(fr.env.get(n))) for n, v in carried.items()
             if fr.env.get(n) is not None},
            c if test is not None else None))
        returned = len(fr.returns) - nret
        del self.guards[ng:]
        self.loopdepth = depth
        # loop-carried result
        memo = {}
        for n in list(fr.env):
            cur = fr.env[n]
            if n in carried:
                init = carried[n]
                me = mk("carry", loopid, n, init)
                fr.env[n] = self._loop_result(me, cur, init, domain, loopid, ix)
        for k in list(self.store):
            if isinstance(k, T) and k.op == "obj" and k in obj0:
                old, cur = obj0[k], self.store[k]
                if old is not cur:
                    self.store[k] = self._loop_list(old, cur, domain, ix, loopid)
            elif isinstance(k, tuple):
                old = s0[0].get(k)
                cur = self.store[k]
                if old is not cur:
                    init = old if old is not None else mk("attr", k[0], k[1])
                    if cur.op == "update" and cur.a[1] is ix and cur.a[0] is init:
                        self.store[k] = mk("foldmap", init, cur.a[2], domain)
                    elif cur.op != "obj":
                        self.store[k] = self._loop_attr(init, cur, domain, loopid, k)
        if returned:
            self.guards.append((mk("loopreturn", loopid), False))
        if st.orelse:
            return self.exec_block(st.orelse)
        if isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value \
                and not any(isinstance(n, ast.Break) for s in st.body for n in ast.walk(s)):
            return TERM
        return FALLS

    def _loop_result(self, me, cur, init, domain, loopid, ix):
        if cur is me:
            return init
        # accumulation  x = x + e
        if cur.op == "bin" and cur.a[0] in ("+", "-", "*", "|", "&"):
            terms = self._split_acc(cur, me)
            if terms is not None:
                return mk("fold", cur.a[0], init, terms, domain, ix)
        # conditional accumulation: x = c ? x + e : x
        if cur.op == "update" and cur.a[0] is me and cur.a[1] is ix:
            return mk("foldmap", init, cur.a[2], domain)
        return mk("loopout", loopid, init, cur)

    def _split_acc(self, cur, me):
        """cur = me + e1 + e2 ... -> (e1 + e2)."""
        op = cur.a[0]
        if cur.a[1] is me:
            if not contains(cur.a[2], lambda x: x is me):
                return cur.a[2]
            return None
        if op in ("+", "*", "|", "&") and cur.a[2] is me:
            if not contains(cur.a[1], lambda x: x is me):
                return cur.a[1]
            return None
        if op == "+" and cur.a[1].op == "bin" and cur.a[1].a[0] == "+":
            inner = self._split_acc(cur.a[1], me)
            if inner is not None and not contains(cur.a[2], lambda x: x is me):
                return binop("+", inner, cur.a[2])
        if op == "+" and cur.a[1].op == "bin" and cur.a[1].a[0] == "-":
            inner = self._split_acc(cur.a[1], me)
            if inner is not None and not contains(cur.a[2], lambda x: x is me):
                return binop("-", cur.a[2], inner)
        return None

    def _loop_list(self, old, cur, domain, ix, loopid):
        # append
        if cur.op == "list" and old.op == "list" and cur.a[:len(old.a)] == old.a:
            new = cur.a[len(old.a):]
            return mk("list", *(old.a + tuple(mk("each", domain, x, TRUE) for x in new)))
        if cur.op == "phi":
            # conditional append: c ? old+[x] : old
            c, a, b = cur.a
            if b is old and a.op == "list" and a.a[:len(old.a)] == old.a and old.op == "list":
                new = a.a[len(old.a):]
                return mk("list", *(old.a + tuple(mk("each", domain, x, c) for x in new)))
            if a is old and b.op == "list" and b.a[:len(old.a)] == old.a and old.op == "list":
                new = b.a[len(old.a):]
                return mk("list", *(old.a + tuple(
                    mk("each", domain, x, unop("not", c)) for x in new)))
        if cur.op == "update" and cur.a[1] is ix and cur.a[0] is old:
            return mk("foldmap", old, cur.a[2], domain)
        if cur.op == "bin" and cur.a[0] == "+" and cur.a[1] is old and cur.a[2].op == "list":
            return binop("+", old, mk("list", *[mk("each", domain, x, TRUE)
                                               for x in cur.a[2].a]))
        return mk("loopout", loopid, old, cur)

    def _loop_attr(self, init, cur, domain, loopid, k):
        if cur.op == "bin" and cur.a[0] in ("+", "-", "*"):
            e = self._split_acc(cur, init)
            if e is not None:
                return mk("fold", cur.a[0], init, e, domain, loopid)
        return mk("loopout", loopid, init, cur)

    def st_With(self, st):
        ctx = []
        for it in st.items:
            v = self.ev(it.context_expr)
            ctx.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        self.guards.append(("with", mk("tuple", *[self.freeze(c) for c in ctx])))
        n = len(self.guards)
        r = self.exec_block(st.body)
        residual = self.guards[n:]
        del self.guards[n - 1:]
        self.guards.extend(residual)
        for c in ctx:
            self.effect("withexit", c, None, None, st)
        return r

    def st_Try(self, st):
        s0 = self._snapshot()
        n0 = len(self.guards)
        tid = mk("try", st.lineno * 0, len(self.effects))
        fin = bool(st.finalbody)
        if fin:
            self.guards.append(("tryfin", tid))
        if st.handlers:
            self.guards.append(("trybody", tid))
        nb = len(self.guards)
        status = self.exec_block(st.body)
        if status == FALLS and st.orelse:
            status = self.exec_block(st.orelse)
        residual = self.guards[nb:]
        del self.guards[n0:]
        s_body = self._snapshot()
        outs = []
        for k, h in enumerate(st.handlers):
            excname = ast.unparse(h.type) if h.type is not None else "BaseException"
            exct = mk("exctype", excname)
            self._merge(mk("exc", tid, k), s0, s_body)
            if h.name:
                self.frames[-1].env[h.name] = mk("excval", exct)
            if fin:
                self.guards.append(("tryfin", tid))
            self.guards.append(("exc", mk("exc", tid, exct)))
            hs = self.exec_block(h.body)
            del self.guards[n0:]
            outs.append((hs, mk("exc", tid, exct), self._snapshot()))
        live = [(c, s) for hs, c, s in outs if hs == FALLS]
        if status == FALLS:
            self._restore(s_body)
            for c, s in live:
                cur = self._snapshot()
                self._merge(c, s, cur)
            if residual:
                self.guards.extend(residual)
            res = FALLS
        elif live:
            self._restore(live[0][1])
            for c, s in live[1:]:
                cur = self._snapshot()
                self._merge(c, s, cur)
            if len(live) >= 1:
                pass
            res = FALLS
        else:
            res = TERM
        if st.finalbody:
            if res == TERM:
                n = len(self.guards)
                self.guards.append(("finally", tid))
                fs = self.exec_block(st.finalbody)
                del self.guards[n:]
                return TERM
            self.effect("finally-begin", None, None, tid, st)
            fs = self.exec_block(st.finalbody)
            if fs == TERM:
                return TERM
        return res

    st_TryStar = st_Try

    # ------------------------------------------------------------- expressions
    def ev_cond(self, e):
        t = self.ev(e)
        if t.op == "obj":
            t = self.freeze(t)
            tv = truth(t)
            if tv is not None:
                return const(tv)
        return self.freeze(t)

    def ev(self, e):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            self.unsupported.append((type(e).__name__, e))
            return mk("opaque", type(e).__name__, ast.unparse(e))
        return m(e)

    def fv(self, e):
        return self.freeze(self.ev(e))

    def ex_Constant(self, e):
        return const(e.value)

    def ex_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.fv(v.value))
            else:
                parts.append(self.fv(v))
        return mk("fstring", tuple(parts))

    def ex_Name(self, e):
        return self.lookup(e.id)

    def lookup(self, name):
        f = self.frames[-1]
        while f is not None:
            if name in f.env:
                return f.env[name]
            f = f.parent
        m = self.frames[-1].module
        return self.module_name(m, name)

    def module_name(self, m, name):
        r = self.p.resolve_name(m, name)
        if r is not None:
            return self._wrap(r)
        if name in m.imports:
            return self.dotted_term(m.imports[name])
        if name in m.consts:
            node = m.consts[name]
            if isinstance(node, ast.Constant):
                return const(node.value)
            if isinstance(node, (ast.Name, ast.Attribute)):
                fr = Frame(FuncInfo(m, None, "<module>", m.tree), None)
                self.frames.append(fr)
                try:
                    return self.freeze(self.ev(node))
                finally:
                    self.frames.pop()
            return mk("global", m.name, name)
        for c in m.all_classes:
            if c.name == name:
                return mk("cls", name)
        return mk("name", name)

    def _wrap(self, r):
        if isinstance(r, ModuleInfo):
            return mk("module", r.name)
        if isinstance(r, ClassInfo):
            return mk("cls", r.name)
        if isinstance(r, FuncInfo):
            return mk("func", r.module.name, r.name)
        return mk("opaque", str(r))

    def dotted_term(self, dotted):
        r = self.p.resolve_dotted(dotted)
        if r is not None:
            return self._wrap(r)
        dotted = self.canon(dotted)
        return mk("name", dotted)

    @staticmethod
    def canon(d):
        if d == "numpy":
            return "np"
        if d.startswith("numpy."):
            return "np" + d[5:]
        return d

    def ex_Attribute(self, e):
        base = self.ev(e.value)
        return self.get_attr(base, e.attr, e)

    def get_attr(self, base, attr, node=None):
        if base.op == "module":
            r = self.p._lookup_in_module(base.a[0], attr, set())
            if r is not None:
                return self._wrap(r)
            m = self.p.modules.get(base.a[0])
            if m is not None:
                return self.module_name(m, attr)
        if base.op == "name":
            return mk("name", base.a[0] + "." + attr)
        if base.op == "phi" and base.a[1].op in ("self", "new") and base.a[2].op in ("self", "new"):
            return phi(base.a[0], self.get_attr(base.a[1], attr), self.get_attr(base.a[2], attr))
        key = (base, attr)
        if key in self.store:
            return self.store[key]
        cls = self.typeof(base)
        if cls is not None:
            f = self.p.find_method(cls, attr)
            if f is not None:
                if f.kind == "property":
                    if self._can_inline(f):
                        return self._inline(f, cls, base, [], {}, node)
                else:
                    return mk("bound", base, attr)
        if base.op == "cls":
            c = self.p.classes.get(base.a[0])
            if c is not None:
                f = self.p.find_method(c, attr)
                if f is not None:
                    return mk("bound", base, attr)
                ca = self.p.find_class_attr(c, attr)
        if attr == "T":
            return mk("attr", self.freeze(base), "T")
        return mk("attr", self.freeze(base), attr)

    def typeof(self, t):
        """Class of a term, when known."""
        if t.op == "self":
            return self.p.classes.get(t.a[0]) if not hasattr(self, "self_cls") or \
                self.self_cls.name != t.a[0] else self.self_cls
        if t.op == "new":
            return self.p.classes.get(t.a[0])
        if t.op == "inst":
            return self.p.classes.get(t.a[0])
        if t.op == "attr":
            n = self.policy.attr_types.get(t.a[1])
            if n is not None:
                return self.p.classes.get(n)
        return None

    def ex_Tuple(self, e):
        return mk("tuple", *self._elts(e.elts))

    def ex_List(self, e):
        return self.new_obj(mk("list", *self._elts(e.elts)))

    def ex_Set(self, e):
        return mk("set", *self._elts(e.elts))

    def _elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.freeze(self.ev(x.value))
                if v.op in ("tuple", "list"):
                    out.extend(v.a)
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.ev(x))
        return out

    def ex_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                items.append(mk("tuple", mk("const", "**"), self.fv(v)))
            else:
                items.append(mk("tuple", self.fv(k), self.fv(v)))
        return mk("dict", *items)

    def ex_BinOp(self, e):
        ops = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
               ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&",
               ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<",
               ast.RShift: ">>"}
        a = self.fv(e.left)
        b = self.fv(e.right)
        r = binop(ops[type(e.op)], a, b)
        if r.op == "list":
            return self.new_obj(r)
        if r.op == "bin" and r.a[0] in ("+", "*") and (a.op == "list" or b.op == "list"):
            # list concatenation / repetition with unknown parts
            other = b if a.op == "list" else a
            if r.a[0] == "+" and not arraylike(other):
                la = a if a.op == "list" else mk("list", mk("star", a))
                lb = b if b.op == "list" else mk("list", mk("star", b))
                return self.new_obj(mk("list", *(la.a + lb.a)))
            lst, n = (a, b) if a.op == "list" else (b, a)
            if r.a[0] == "*" and len(lst.a) == 1 and lst.a[0].op != "each":
                return self.new_obj(mk("list", mk(
                    "each", mk("call", "range", (n,), ()), lst.a[0], TRUE)))
        return r

    def ex_UnaryOp(self, e):
        v = self.fv(e.operand)
        op = {ast.USub: "-", ast.UAdd: "+", ast.Not: "not", ast.Invert: "~"}[type(e.op)]
        return unop(op, v)

    def ex_BoolOp(self, e):
        vals = [self.fv(v) for v in e.values]
        if isinstance(e.op, ast.And):
            return and_(*vals) if len(vals) > 1 else vals[0]
        # `x or default`
        tv = truth(vals[0])
        if tv is True:
            return vals[0]
        return or_(*vals)

    def ex_Compare(self, e):
        ops = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=",
               ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
               ast.In: "in", ast.NotIn: "not in"}
        left = self.ev(e.left)
        if left.op != "obj":
            left = self.freeze(left)
        parts = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            o = ops[type(op)]
            if o in ("is", "is not"):
                parts.append(compare(o, left, right))
            else:
                parts.append(compare(o, self.freeze(left), self.freeze(right)))
            left = right
        return and_(*parts) if len(parts) > 1 else parts[0]

    def ex_IfExp(self, e):
        c = self.ev_cond(e.test)
        tv = truth(c)
        if tv is True:
            return self.ev(e.body)
        if tv is False:
            return self.ev(e.orelse)
        s0 = self._snapshot()
        self.guards.append((c, True))
        a = self.fv(e.body)
        self.guards.pop()
        s1 = self._snapshot()
        self._restore(s0)
        self.guards.append((c, False))
        b = self.fv(e.orelse)
        self.guards.pop()
        s2 = self._snapshot()
        self._merge(c, s1, s2)
        return phi(c, a, b)

    def ex_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def ex_Starred(self, e):
        return mk("star", self.fv(e.value))

    def ex_Slice(self, e):
        return mk("slice", *[self.fv(x) if x is not None else NONE
                             for x in (e.lower, e.upper, e.step)])

    def ex_Subscript(self, e):
        base = self.ev(e.value)
        idx = self.fv(e.slice)
        if base.op == "obj":
            r = sub(self.store[base], idx)
            if r.op == "list":
                return self.new_obj(r)
            return r
        return sub(base, idx)

    def ex_Lambda(self, e):
        fr = self.frames[-1]
        fi = FuncInfo(fr.module, None, "<lambda>", e)
        fi.qual = fr.func.qual + ".<lambda>"
        c = Closure(e, fr, fi)
        t = mk("closure", c.id, "<lambda>")
        self.closures[t] = c
        return t

    def _comp(self, gens, build):
        """Evaluate comprehension generators; returns list of each-terms."""
        saved = dict(self.frames[-1].env)
        depth0 = self.loopdepth
        ng = len(self.guards)

        def rec(k, conds):
            if k == len(gens):
                c = and_(*conds) if conds else TRUE
                return [(build(), c, None)]
            g = gens[k]
            fit = self.fv(g.iter)
            items = self._literal_items(fit)
            if items is not None and len(items) <= self.policy.unroll:
                out = []
                for v in items:
                    self.assign(g.target, v, g)
                    cs = [self.fv(i) for i in g.ifs]
                    if any(truth(c) is False for c in cs):
                        continue
                    out.extend(rec(k + 1, conds + [c for c in cs if truth(c) is None]))
                return out
            depth = self.loopdepth
            self.loopdepth += 1
            ix = mk("ix", depth)
            self.guards.append(("loop", fit, depth))
            self.assign(g.target, sub(fit, ix), g)
            cs = [self.fv(i) for i in g.ifs]
            inner = rec(k + 1, [c for c in cs if truth(c) is None])
            self.loopdepth = depth
            self.guards.pop()
            out = []
            for v, c, _ in inner:
                out.append((mk("each", fit, v, c), TRUE, "each"))
            return out
        res = rec(0, [])
        del self.guards[ng:]
        self.loopdepth = depth0
        self.frames[-1].env = saved
        out = []
        for v, c, kind in res:
            if c is TRUE:
                out.append(v)
            else:
                out.append(mk("each", mk("tuple", NONE), v, c))
        return out

    def ex_ListComp(self, e):
        return self.new_obj(mk("list", *self._comp(e.generators, lambda: self.fv(e.elt))))

    def ex_GeneratorExp(self, e):
        return self.new_obj(mk("list", *self._comp(e.generators, lambda: self.fv(e.elt))))

    def ex_SetComp(self, e):
        return mk("set", *self._comp(e.generators, lambda: self.fv(e.elt)))

    def ex_DictComp(self, e):
        return mk("dict", *self._comp(e.generators, lambda: mk(
            "tuple", self.fv(e.key), self.fv(e.value))))

    def ex_Yield(self, e):
        v = self.fv(e.value) if e.value else NONE
        self.effect("yield", v, None, None, e)
        return mk("opaque", "yield")

    ex_YieldFrom = ex_Yield

    # ------------------------------------------------------------------- calls
    def ex_Call(self, e):
        # super().m(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            return self._super_call(e)
        args, kwargs = self._args(e)
        if isinstance(e.func, ast.Attribute):
            base = self.ev(e.func.value)
            return self._method_call(base, e.func.attr, args, kwargs, e)
        f = self.ev(e.func)
        return self.apply(f, args, kwargs, e)

    def _args(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.freeze(self.ev(a.value))
                if v.op in ("tuple", "list") and all(
                        x.op not in ("each", "star") for x in v.a):
                    args.extend(v.a)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.fv(k.value)
                if v.op == "dict" and all(
                        x.op == "tuple" and is_const(x.a[0]) and isinstance(x.a[0].a[0], str)
                        and x.a[0].a[0] != "**" for x in v.a):
                    for x in v.a:
                        kwargs[x.a[0].a[0]] = x.a[1]
                elif v.op == "call" and v.a[0] == "dict" and not v.a[1]:
                    for kk, vv in v.a[2]:
                        kwargs[kk] = vv
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = self.ev(k.value)
        return args, kwargs

    def _super_call(self, e):
        args, kwargs = self._args(e)
        fr = self.frames[-1]
        f = fr
        while f is not None and (f.cls is None or f.self_term is None):
            f = f.parent
        if f is None:
            return self.opaque_call("super." + e.func.attr, args, kwargs, e)
        st = f.self_term
        if st.op == "cls":
            cls = self.p.classes.get(st.a[0])
        else:
            cls = self.typeof(st)
        if cls is None:
            cls = f.cls
        m = self.p.find_method(cls, e.func.attr, after=f.cls)
        if m is None:
            return self.opaque_call("super." + e.func.attr, args, kwargs, e)
        if self._can_inline(m):
            self.effect("call", mk("bound", st, e.func.attr), None,
                        (tuple(self.freeze(a) for a in args),
                         {k: self.freeze(v) for k, v in kwargs.items()}, "super"), e)
            return self._inline(m, cls, st, args, kwargs, e)
        return self._opaque_method(st, e.func.attr, args, kwargs, e)

    def _can_inline(self, f):
        if f.name in self.policy.opaque:
            return False
        if len(self.frames) >= self.policy.max_depth:
            return False
        if self.policy.inline_modules is not None and \
                f.module.name not in self.policy.inline_modules:
            return False
        # recursion
        n = sum(1 for fr in self.frames if fr.func.node is f.node)
        if n >= 1:
            return False
        return True

    def _method_call(self, base, name, args, kwargs, e):
        if base.op == "module" or base.op == "name":
            f = self.get_attr(base, name, e)
            return self.apply(f, args, kwargs, e)
        if base.op == "cls":
            c = self.p.classes.get(base.a[0])
            m = self.p.find_method(c, name) if c is not None else None
            if m is not None:
                return self._call_cls_method(base, c, m, args, kwargs, e)
            return self._opaque_method(base, name, args, kwargs, e)
        if (base, name) in self.store:
            return self.apply(self.store[(base, name)], args, kwargs, e)
        if base.op == "obj":
            r = self._list_method(base, name, args, kwargs, e)
            if r is not None:
                return r
        cls = self.typeof(base)
        if cls is not None:
            m = self.p.find_method(cls, name)
            if m is not None:
                self.effect("call", mk("bound", base, name), None,
                            (tuple(self.freeze(a) for a in args),
                             {k: self.freeze(v) for k, v in kwargs.items()}, "method"), e)
                if self._can_inline(m):
                    if m.kind == "static":
                        return self._inline(m, cls, None, args, kwargs, e)
                    if m.kind == "class":
                        return self._inline(m, cls, mk("cls", cls.name), args, kwargs, e)
                    if m.kind == "plain":
                        return self._inline(m, cls, base, args, kwargs, e)
                fa = tuple(self.freeze(a) for a in args)
                fk = tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items()))
                return mk("mcall", name, base, fa, self._fresh(name, fk, e))
        if base.op == "phi" and base.a[1].op in ("inst", "new") and \
                base.a[2].op in ("inst", "new"):
            a = self._method_call(base.a[1], name, args, kwargs, e)
            b = self._method_call(base.a[2], name, args, kwargs, e)
            return phi(base.a[0], self.freeze(a), self.freeze(b))
        return self._opaque_method(base, name, args, kwargs, e)

    def _call_cls_method(self, base, c, m, args, kwargs, e):
        self.effect("call", mk("bound", base, m.name), None,
                    (tuple(self.freeze(a) for a in args),
                     {k: self.freeze(v) for k, v in kwargs.items()}, "cls"), e)
        if self._can_inline(m):
            if m.kind == "static":
                return self._inline(m, c, None, args, kwargs, e)
            if m.kind == "class":
                return self._inline(m, c, base, args, kwargs, e)
            if m.kind == "plain" and args:
                return self._inline(m, c, args[0], args[1:], kwargs, e)
        return mk("mcall", m.name, base, tuple(self.freeze(a) for a in args),
                  tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items())))

    def _list_method(self, base, name, args, kwargs, e):
        c = self.store[base]
        if name in LIST_MUTATORS:
            fa = tuple(self.freeze(a) for a in args)
            self.effect("mutate", base, fa[0] if fa else None, ("list", name), e)
            if name == "append" and len(args) == 1:
                if c.op == "list":
                    self.store[base] = mk("list", *(c.a + (args[0],)))
                else:
                    self.store[base] = binop("+", c, mk("list", args[0]))
                return NONE
            if name == "extend" and len(args) == 1:
                x = fa[0]
                items = x.a if x.op in ("list", "tuple") else (mk("star", x),)
                self.store[base] = mk("list", *(c.a + items)) if c.op == "list" else \
                    binop("+", c, mk("list", *items))
                return NONE
            plain = c.op == "list" and all(x.op not in ("each", "star") for x in c.a)
            if name == "pop":
                if plain and (not fa or (is_const(fa[0]) and isinstance(fa[0].a[0], int))):
                    k = fa[0].a[0] if fa else -1
                    if -len(c.a) <= k < len(c.a):
                        items = list(c.a)
                        v = items.pop(k)
                        self.store[base] = mk("list", *items)
                        return v
                v = sub(c, fa[0] if fa else const(-1))
                self.store[base] = mk("delitem", c, fa[0] if fa else const(-1))
                return v
            if name == "insert" and len(fa) == 2:
                if plain and is_const(fa[0]) and isinstance(fa[0].a[0], int):
                    items = list(c.a)
                    items.insert(fa[0].a[0], fa[1])
                    self.store[base] = mk("list", *items)
                    return NONE
                self.store[base] = mk("insitem", c, fa[0], fa[1])
                return NONE
            self.store[base] = mk("listop", name, c, fa)
            return NONE
        if name in ("index", "count", "copy"):
            if name == "copy":
                return self.new_obj(c)
        return None

    def _opaque_method(self, base, name, args, kwargs, e):
        fb = self.freeze(base)
        fa = tuple(self.freeze(a) for a in args)
        fk = tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items()))
        self.effect("call", mk("bound", fb, name), None, (fa, dict(fk), "opaque"), e)
        if name in LIST_MUTATORS | SET_MUTATORS | ARRAY_MUTATORS:
            self.effect("mutate", fb, fa[0] if fa else None, ("method", name), e)
        if name == "setdefault" and base.op == "param":
            pass
        return mk("mcall", name, fb, fa, self._fresh(name, fk, e))

    def _site(self, e):
        up = getattr(self.frames[-1], "site", "") if self.frames else ""
        return "%s/%s:%s" % (up, getattr(e, "lineno", 0), getattr(e, "col_offset", 0))

    def _fresh(self, name, fk, e):
        if name not in self.policy.fresh:
            return fk
        return tuple(sorted(fk + (("@", const(self._site(e))),), key=lambda kv: kv[0]))

    def opaque_call(self, name, args, kwargs, e):
        fa = tuple(self.freeze(a) for a in args)
        fk = tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items()))
        self.effect("call", mk("name", name), None, (fa, dict(fk), "ext"), e)
        # known in-place library functions
        if name in ("np.copyto", "np.put", "np.place", "np.putmask", "np.fill_diagonal",
                    "np.put_along_axis") and fa:
            self.effect("mutate", fa[0], fa[1] if len(fa) > 1 else None,
                        (name, fa[1:], dict(fk)), e)
            # value update of the l-value
            if isinstance(e, ast.Call) and e.args:
                w = dict(fk).get("where")
                if name == "np.copyto":
                    new = mk("masked", w if w is not None else TRUE, fa[1], fa[0]) \
                        if len(fa) > 1 else mk("opaque", name)
                else:
                    new = mk("call", name, fa, fk)
                if args[0].op != "obj":
                    self._set_lvalue_content(e.args[0], args[0], new)
        if name.endswith(".at") and name.startswith("np.") and fa:
            self.effect("mutate", fa[0], fa[2] if len(fa) > 2 else None,
                        (name, fa[1:], dict(fk)), e)
        out = dict(fk).get("out")
        if out is not None and out is not NONE:
            self.effect("mutate", out, None, ("out", name), e)
        if name in ("random.shuffle", "np.random.shuffle") and fa:
            self.effect("mutate", fa[0], None, (name,), e)
        return self.builtin(name, args, fa, fk)

    def builtin(self, name, args, fa, fk):
        if name == "len" and len(fa) == 1:
            x = fa[0]
            if x.op in ("tuple", "list") and all(y.op not in ("each", "star") for y in x.a):
                return const(len(x.a))
        if name in ("list", "tuple") and len(fa) <= 1 and not fk:
            x = fa[0] if fa else mk("list")
            if x.op in ("tuple", "list", "set"):
                items = x.a
            elif x.op in ("update", "foldmap") and name == "list":
                return self.new_obj(x)
            else:
                lit = self._literal_items(x)
                items = tuple(lit) if lit is not None else None
            if items is not None:
                if name == "tuple":
                    return mk("tuple", *items)
                return self.new_obj(mk("list", *items))
            if name == "list":
                return self.new_obj(mk("list", mk("star", x)))
            return mk("call", "tuple", fa, fk)
        if name == "isinstance" and len(fa) == 2:
            x, k = fa
            if k.op == "cls" and x.op in ("self", "inst", "new"):
                c = self.typeof(x)
                b = self.p.classes.get(k.a[0])
                if c is not None and b is not None:
                    return const(b in self.p.mro(c))
        if name == "hasattr" and len(fa) == 2 and is_const(fa[1]):
            c = self.typeof(fa[0])
            if c is not None and self.p.find_method(c, fa[1].a[0]) is not None:
                return TRUE
        if name == "callable" and len(fa) == 1 and fa[0].op in ("closure", "func", "bound", "cls"):
            return TRUE
        if name == "callable" and len(fa) == 1 and fa[0].op in ("list", "tuple", "bin"):
            return FALSE
        if name == "getattr" and len(fa) == 2 and is_const(fa[1]) and \
                isinstance(fa[1].a[0], str):
            return self.get_attr(args[0], fa[1].a[0])
        return mk("call", name, fa, fk)

    def apply(self, f, args, kwargs, e):
        if f.op == "closure":
            c = self.closures[f]
            if len(self.frames) < self.policy.max_depth and not any(
                    fr.func.node is c.node for fr in self.frames):
                return self._inline_node(c.func, c.node, None, args, kwargs, None, e,
                                         parent=c.frame)
            return self.opaque_call("<closure>%s" % f.a[1], args, kwargs, e)
        if f.op == "func":
            m = self.p.modules[f.a[0]]
            fi = m.funcs.get(f.a[1])
            short = f.a[0].rsplit(".", 1)[-1] + "." + f.a[1]
            if fi is not None and short not in self.policy.opaque_funcs and \
                    self._can_inline(fi) and not self._is_generator(fi.node):
                self.effect("call", mk("name", short), None,
                            (tuple(self.freeze(a) for a in args),
                             {k: self.freeze(v) for k, v in kwargs.items()}, "func"), e)
                return self._inline_node(fi, fi.node, None, args, kwargs, None, e)
            return self.opaque_call(short, args, kwargs, e)
        if f.op == "bound":
            base, name = f.a
            return self._method_call(base, name, args, kwargs, e)
        if f.op == "cls":
            fa = tuple(self.freeze(a) for a in args)
            fk = tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items()))
            self.effect("call", f, None, (fa, dict(fk), "new"), e)
            return mk("new", f.a[0], fa, fk)
        if f.op == "name":
            return self.opaque_call(f.a[0], args, kwargs, e)
        if f.op == "phi":
            s0 = self._snapshot()
            self.guards.append((f.a[0], True))
            a = self.freeze(self.apply(f.a[1], args, kwargs, e))
            self.guards.pop()
            s1 = self._snapshot()
            self._restore(s0)
            self.guards.append((f.a[0], False))
            b = self.freeze(self.apply(f.a[2], args, kwargs, e))
            self.guards.pop()
            s2 = self._snapshot()
            self._merge(f.a[0], s1, s2)
            return phi(f.a[0], a, b)
        fa = tuple(self.freeze(a) for a in args)
        fk = tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items()))
        if f.op == "attr":
            self.effect("call", mk("bound", f.a[0], f.a[1]), None, (fa, dict(fk), "opaque"), e)
            return mk("mcall", f.a[1], f.a[0], fa, fk)
        self.effect("call", self.freeze(f), None, (fa, dict(fk), "dyn"), e)
        return mk("dyncall", self.freeze(f), fa, fk)

    @staticmethod
    def _is_generator(node):
        for n in ast.walk(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    def _inline(self, f, cls, self_term, args, kwargs, e):
        if f.kind == "static":
            return self._inline_node(f, f.node, None, args, kwargs, cls, e)
        return self._inline_node(f, f.node, self_term, args, kwargs, cls, e)

    def _inline_node(self, f, node, self_term, args, kwargs, cls, e, parent=None):
        self.inlined.add(f.qual)
        fr = Frame(f, f.cls, parent)
        fr.site = self._site(e)
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = fr.env
        if self_term is not None and f.cls is not None:
            fr.self_term = self_term
            if pos:
                env[pos[0]] = self_term
                pos = pos[1:]
        elif parent is not None:
            g = parent
            while g is not None and g.self_term is None:
                g = g.parent
            if g is not None:
                fr.self_term = g.self_term
                fr.cls = g.cls
        args = list(args)
        kwargs = dict(kwargs)
        star_kw = kwargs.pop("**", None)
        # positional
        rest = []
        star = None
        for k, v in enumerate(args):
            if v.op == "star":
                star = v.a[0]
                rest = args[k + 1:]
                args = args[:k]
                break
        used = []
        for n in pos:
            if args:
                env[n] = args.pop(0)
                used.append(n)
            elif star is not None and n not in kwargs:
                env[n] = sub(star, const(len([u for u in pos if u in env and u not in used])))
            elif n in kwargs:
                env[n] = kwargs.pop(n)
            else:
                env[n] = None
        # defaults
        defaults = a.defaults
        dpos = (a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(defaults):]
        for x, d in zip(dpos, defaults):
            if env.get(x.arg) is None and x.arg in pos:
                env[x.arg] = self._default(d, f, parent)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif star_kw is not None:
                base = mk("mcall", "get", star_kw, (const(x.arg),), ())
                env[x.arg] = base
                if d is not None:
                    env[x.arg] = mk("kwget", star_kw, x.arg, self.freeze(self._default(d, f, parent)))
            elif d is not None:
                env[x.arg] = self._default(d, f, parent)
            else:
                env[x.arg] = mk("missing", x.arg)
        for n in pos:
            if env.get(n) is None:
                env[n] = mk("kwget", star_kw, n, NONE) if star_kw is not None else mk("missing", n)
        if a.vararg:
            items = list(args)
            if star is not None:
                items.append(mk("star", star))
                items.extend(rest)
            if star is not None and len(items) == 1 and not pos:
                env[a.vararg.arg] = star if star.op in ("tuple",) or star.op == "param" else \
                    mk("tuple", *items)
            else:
                env[a.vararg.arg] = mk("tuple", *items)
        if a.kwarg:
            items = [mk("tuple", const(k), self.freeze(v)) for k, v in sorted(kwargs.items())]
            if star_kw is not None:
                if not items:
                    env[a.kwarg.arg] = star_kw
                else:
                    env[a.kwarg.arg] = mk("dict", *(items + [mk("tuple", const("**"), star_kw)]))
            else:
                env[a.kwarg.arg] = mk("dict", *items)
        self.frames.append(fr)
        fr.guard_base = len(self.guards)
        old_exits = self._loop_exits
        self._loop_exits = 0
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body)
            fr.returns.append(((), v, self._snapshot()))
            status = TERM
        else:
            status = self.exec_block(node.body)
        ret = self._finish_frame(fr, status, node)
        self._loop_exits = old_exits
        self.frames.pop()
        if ret is None:
            return mk("noreturn", f.qual)
        return ret

    def _default(self, d, f, parent):
        if isinstance(d, ast.Constant):
            return const(d.value)
        fr = Frame(f, f.cls, parent)
        self.frames.append(fr)
        try:
            return self.ev(d)
        finally:
            self.frames.pop()


# ------------------------------------------------------------------ utilities
def build(program, clsname, method, policy=None, args=(), kwargs=None, **kw):
    cls = program.get_class(clsname)
    f = program.find_method(cls, method)
    if f is None:
        raise AnalysisError("anchor method %s.%s not found" % (clsname, method))
    b = Builder(program, policy)
    b.self_cls = cls
    r = b.run(f, cls, args, kwargs, **kw)
    b.ret = r
    return b

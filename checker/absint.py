"""Abstract interpreter: constants x indexed tensors.

Interprets the functions of the analysed program over the abstract domain
    python constants, containers, program objects  x  tensor.Arr / tensor.Num
Program code is never imported or executed: every construct is given its abstract
meaning here, arrays are index expressions with symbolic axis lengths and symbolic
elements (tensor.py).  A condition that the abstraction does not determine makes the
instance undecided, except guards whose only effect is to raise: those express
preconditions and the analysis assumes valid input.
"""
import ast
import builtins
import functools
import itertools
from fractions import Fraction

import tensor as tn
from tensor import Arr, Num, Body, Unsupported, ShapeError


class IRaise(Exception):
    """An exception of the analysed program."""

    def __init__(self, value, where=""):
        Exception.__init__(self, describe_exc(value))
        self.value = value
        self.where = where


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class UBool:
    """A truth value the abstraction does not determine."""

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "UBool(%s)" % self.why


class Ext:
    """A name outside the program (numpy etc.)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("Ext", self.name))


class Opaque:
    """A value without any known structure."""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Opaque(%s)" % self.why


class IMod:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "IMod(%s)" % self.name


class ICls:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.mro = c3(self)

    def lookup(self, name, after=None):
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if isinstance(c, ICls) and name in c.ns:
                return c.ns[name], c
        return None, None

    def issub(self, other):
        if isinstance(other, ICls):
            return other in self.mro
        return other in [m for m in self.mro if not isinstance(m, ICls)] \
            or other is object

    def __repr__(self):
        return "ICls(%s)" % self.name


def c3(cls):
    seqs = []
    for b in cls.bases:
        seqs.append(list(b.mro) if isinstance(b, ICls) else [b])
    seqs.append(list(cls.bases))
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            h = seqs[0][0]
        out.append(h)
        for s in seqs:
            if s and s[0] is h or (s and s[0] == h):
                del s[0]


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return "<%s>" % self.cls.name


class IFunc:
    def __init__(self, node, env, module, defaults, kwdefaults, owner=None):
        self.node, self.env, self.module = node, env, module
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.owner = owner
        self.name = getattr(node, "name", "<lambda>")
        self.is_gen = False
        self.attrs = {}

    def __repr__(self):
        return "<func %s>" % self.name


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Wrap:
    """staticmethod / classmethod / property objects in a class namespace."""

    def __init__(self, kind, func, setter=None):
        self.kind, self.func, self.setter = kind, func, setter


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Env:
    def __init__(self, vars=None, parent=None, func=None):
        self.vars = {} if vars is None else vars
        self.parent = parent
        self.func = func
        self.nonlocals = set()
        self.globals = set()

    def find(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
        return None


def describe_exc(v):
    if isinstance(v, BaseException):
        return "%s: %s" % (type(v).__name__, v)
    if isinstance(v, Obj):
        return "%s%s" % (v.cls.name, tuple(v.attrs.get("args", ())))
    return repr(v)


MISSING = object()
MAX_STEPS = 400000


class Interp:
    def __init__(self, program, overrides=None, bases=None):
        import npdomain
        self.p = program
        self.modules = {}
        self.loading = set()
        self.overrides = dict(npdomain.OVERRIDES)
        if overrides:
            self.overrides.update(overrides)
        self.np = npdomain
        self.steps = 0
        self.depth = 0
        self.mutations = []
        self.frozen = {}        # id(list/dict) -> (object, label)
        self.functions = set()
        self.assumed = []       # guards assumed not to fire
        self.stack = []
        self.node = None
        self.hooks = {}

    # ------------------------------------------------------------- modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        m = self.p.modules.get(name)
        if m is None:
            return None
        env = Env({"__name__": name, "__file__": m.path}, None)
        env.module = m
        self.modules[name] = env
        for st in m.tree.body:
            try:
                self.exec(st, env, env)
            except (Unsupported, IRaise, ShapeError, RecursionError) as err:
                # the names it would bind are opaque
                for t in bound_names(st):
                    env.vars.setdefault(t, Opaque("module level: %s" % err))
        return env

    def load_source(self, name, src):
        """Interpret a piece of driver source next to the program (not part of it)."""
        tree = ast.parse(src)
        env = Env({"__name__": name}, None)
        env.module = _Driver(name, tree)
        self.modules[name] = env
        for st in tree.body:
            self.exec(st, env, env)
        return env

    def cls(self, dotted):
        mod, _, name = dotted.rpartition(".")
        env = self.module(mod)
        if env is None:
            raise Unsupported("no module %s" % mod)
        v = self.load_global(env, name)
        if v is MISSING:
            raise Unsupported("no %s" % dotted)
        return v

    def get_class(self, name):
        c = self.p.get_class(name)
        v = self.cls(c.module.name + "." + name)
        if not isinstance(v, ICls):
            raise Unsupported("%s is not a class" % name)
        return v

    def load_global(self, env, name):
        if name in env.vars:
            return env.vars[name]
        return MISSING

    def import_(self, dotted):
        """Value of a dotted import path."""
        if dotted in self.p.modules:
            self.module(dotted)
            return IMod(dotted)
        mod, _, name = dotted.rpartition(".")
        if mod in self.p.modules:
            env = self.module(mod)
            if name in env.vars:
                return env.vars[name]
            return Opaque("import %s" % dotted)
        return Ext(dotted)

    # ---------------------------------------------------------- statements
    def exec_block(self, stmts, env, g):
        for st in stmts:
            self.exec(st, env, g)

    def tick(self, node):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Unsupported("analysis budget exceeded")
        if hasattr(node, "lineno"):
            self.node = node

    def where(self):
        fn = self.stack[-1] if self.stack else None
        m = fn.module if fn else None
        rel = self.p.modules[m].rel if m in self.p.modules else "?"
        return "%s:%s %s" % (rel, getattr(self.node, "lineno", "?"), fn.name if fn else "")

    def exec(self, st, env, g):
        self.tick(st)
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        return m(st, env, g)

    def x_Expr(self, st, env, g):
        if isinstance(st.value, (ast.Yield,)):
            self.gen_yield(st.value, env, g)
            return
        self.eval(st.value, env, g)

    def gen_yield(self, n, env, g):
        v = self.eval(n.value, env, g) if n.value else None
        e = env
        while e is not None and not hasattr(e, "yields"):
            e = e.parent
        if e is None:
            raise Unsupported("yield")
        e.yields.append(v)

    def x_Pass(self, st, env, g):
        pass

    def x_Global(self, st, env, g):
        env.globals.update(st.names)

    def x_Nonlocal(self, st, env, g):
        env.nonlocals.update(st.names)

    def x_Import(self, st, env, g):
        for a in st.names:
            if a.asname:
                env.vars[a.asname] = self.import_(a.name)
            else:
                top = a.name.split(".")[0]
                env.vars[top] = self.import_(top)

    def x_ImportFrom(self, st, env, g):
        m = g.module
        pkg = m.name if m.path.endswith("__init__.py") else m.name.rpartition(".")[0]
        base = st.module or ""
        if st.level:
            parts = pkg.split(".")
            parts = parts[:len(parts) - (st.level - 1)]
            base = ".".join(parts + ([st.module] if st.module else []))
        for a in st.names:
            if a.name == "*":
                sub = self.module(base)
                if sub is not None:
                    for k, v in list(sub.vars.items()):
                        if not k.startswith("_"):
                            env.vars[k] = v
                continue
            env.vars[a.asname or a.name] = self.import_(base + "." + a.name)

    def x_FunctionDef(self, st, env, g):
        f = self.make_func(st, env, g)
        for d in reversed(st.decorator_list):
            f = self.decorate(d, f, env, g)
        env.vars[st.name] = f

    def decorate(self, d, f, env, g):
        if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"):
            return Wrap({"staticmethod": "static", "classmethod": "class",
                         "property": "property"}[d.id], f)
        if isinstance(d, ast.Attribute) and d.attr == "setter":
            old = self.eval(d.value, env, g)
            return Wrap("property", old.func, f)
        dec = self.eval(d, env, g)
        if isinstance(dec, Ext):
            if dec.name.startswith("functools.wraps"):
                return f
            raise Unsupported("decorator %s" % dec.name)
        return self.call(dec, [f], {})

    def make_func(self, st, env, g):
        a = st.args
        defaults = [self.eval(x, env, g) for x in a.defaults]
        kwd = [self.eval(x, env, g) if x is not None else MISSING for x in a.kw_defaults]
        f = IFunc(st, env, g, defaults, kwd)
        f.module = g.module.name
        f.genv = g
        if not isinstance(st, ast.Lambda):
            f.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                           for n in walk_own(st))
        # the class whose body this function is defined in
        f.owner = getattr(env, "class_cell", None)
        return f

    def x_ClassDef(self, st, env, g):
        bases = []
        for b in st.bases:
            v = self.eval(b, env, g)
            if isinstance(v, Ext):
                v = EXC.get(v.name.rsplit(".", 1)[-1], v)
            bases.append(v)
        if not bases:
            bases = [object]
        cenv = Env({}, env)
        cell = []
        cenv.class_cell = cell
        cenv.is_class = True
        cenv.vars["__module__"] = g.module.name
        self.exec_block(st.body, cenv, g)
        c = ICls(st.name, bases, cenv.vars, g.module.name)
        cell.append(c)
        v = c
        env.vars[st.name] = v

    def x_Return(self, st, env, g):
        raise Ret(self.eval(st.value, env, g) if st.value is not None else None)

    def x_Break(self, st, env, g):
        raise Brk()

    def x_Continue(self, st, env, g):
        raise Cont()

    def x_Delete(self, st, env, g):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, env, g)
                k = self.eval(t.slice, env, g)
                self.mutating(o)
                try:
                    del o[k]
                except (KeyError, IndexError, TypeError) as err:
                    raise IRaise(err)
            elif isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env, g)
                if isinstance(o, Obj) and t.attr in o.attrs:
                    del o.attrs[t.attr]
                else:
                    raise IRaise(AttributeError(t.attr))
            else:
                raise Unsupported("del")

    def x_Assign(self, st, env, g):
        v = self.eval(st.value, env, g)
        for t in st.targets:
            self.assign(t, v, env, g)

    def x_AnnAssign(self, st, env, g):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env, g), env, g)

    def x_AugAssign(self, st, env, g):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.Name(id=t.id, ctx=ast.Load()), env, g)
            val = self.eval(st.value, env, g)
            self.assign(t, self.inplace(st.op, cur, val), env, g)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env, g)
            cur = self.getattr(o, t.attr)
            val = self.eval(st.value, env, g)
            self.setattr(o, t.attr, self.inplace(st.op, cur, val))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env, g)
            k = self.index(t.slice, env, g)
            cur = self.getitem(o, k)
            val = self.eval(st.value, env, g)
            if isinstance(o, Arr) and isinstance(cur, Arr):
                # a view is modified in place: the same as assigning the result
                new = self.np.binop(self, st.op, cur, val)
                if not isinstance(new, Arr):
                    new = tn.lift(new)
                if not same_shape(new, cur):
                    raise IRaise(ValueError("non-broadcastable output operand"), self.where())
                self.setitem(o, k, new)
            else:
                self.setitem(o, k, self.inplace(st.op, cur, val))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, cur, val):
        if isinstance(cur, Arr) and cur.ndim > 0:
            new = self.np.binop(self, op, cur, val)
            if not isinstance(new, Arr) or not same_shape(new, cur):
                raise IRaise(ValueError("non-broadcastable output operand"))
            self.mutating(cur)
            if cur.root is not None:
                raise Unsupported("in-place operation on a view")
            cur.set_from(new)
            return cur
        if isinstance(cur, list) and isinstance(op, ast.Add):
            self.mutating(cur)
            cur.extend(self.iterate(val))
            return cur
        if isinstance(cur, (set, dict)) and isinstance(op, ast.BitOr):
            cur.update(val)
            return cur
        return self.binop(op, cur, val)

    def mutating(self, o):
        lab = None
        if isinstance(o, Arr):
            lab = o.is_frozen()
        elif id(o) in self.frozen:
            lab = self.frozen[id(o)][1]
        if lab:
            self.mutations.append((lab, self.where()))

    def assign(self, t, v, env, g):
        if isinstance(t, ast.Name):
            if t.id in env.globals:
                g.vars[t.id] = v
            elif t.id in env.nonlocals:
                e = env.parent.find(t.id) if env.parent else None
                (e or env).vars[t.id] = v
            else:
                env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts) - 1
                if len(vs) < n:
                    raise IRaise(ValueError("not enough values to unpack"))
                after = len(t.elts) - i - 1
                parts = vs[:i] + [vs[i:len(vs) - after]] + vs[len(vs) - after:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env, g)
                return
            if len(vs) != len(t.elts):
                raise IRaise(ValueError("unpacking %d values into %d" % (len(vs), len(t.elts))))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, env, g)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env, g), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env, g)
            self.setitem(o, self.index(t.slice, env, g), v)
        else:
            raise Unsupported("assignment target")

    def x_If(self, st, env, g):
        c = self.truth(self.eval(st.test, env, g))
        if isinstance(c, UBool):
            if ends_in_raise(st.body) and not st.orelse:
                self.assumed.append((self.where(), c.why))
                return
            if only_warns(st.body) and not st.orelse:
                return
            if ends_in_raise(st.body):
                self.exec_block(st.orelse, env, g)
                return
            if st.orelse and ends_in_raise(st.orelse):
                self.exec_block(st.body, env, g)
                return
            raise Unsupported("undetermined condition (%s) at %s" % (c.why, self.where()))
        self.exec_block(st.body if c else st.orelse, env, g)

    def x_For(self, st, env, g):
        seq = self.eval(st.iter, env, g)
        broke = False
        for v in self.live(seq):
            self.tick(st)
            self.assign(st.target, v, env, g)
            try:
                self.exec_block(st.body, env, g)
            except Brk:
                broke = True
                break
            except Cont:
                continue
        if not broke:
            self.exec_block(st.orelse, env, g)

    def live(self, seq):
        """Iterate as Python does when the loop changes the container."""
        if isinstance(seq, list):
            k = 0
            while k < len(seq):
                yield seq[k]
                k += 1
            return
        sized = isinstance(seq, (set, dict))
        n = len(seq) if sized else 0
        for v in self.iterate(seq):
            yield v
            if sized and len(seq) != n:
                raise IRaise(RuntimeError("container changed size during iteration"), self.where())

    while_limit = None

    def x_While(self, st, env, g):
        n = 0
        while True:
            c = self.truth(self.eval(st.test, env, g))
            if isinstance(c, UBool):
                # an iteration towards convergence, cut after the given number of steps
                if self.while_limit is None:
                    raise Unsupported("undetermined loop condition")
                c = n < self.while_limit
            if not c:
                break
            n += 1
            if n > 2000:
                raise Unsupported("loop bound")
            try:
                self.exec_block(st.body, env, g)
            except Brk:
                return
            except Cont:
                continue
        self.exec_block(st.orelse, env, g)

    def x_Raise(self, st, env, g):
        if st.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise IRaise(cur, self.where())
        v = self.eval(st.exc, env, g)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = v()
        if isinstance(v, ICls):
            v = self.call(v, [], {})
        raise IRaise(v, self.where())

    def x_Assert(self, st, env, g):
        pass

    def x_Try(self, st, env, g):
        try:
            try:
                self.exec_block(st.body, env, g)
            except ShapeError as err:
                raise IRaise(ValueError(str(err)), self.where())
            except (IndexError, KeyError) as err:
                raise IRaise(err, self.where())
        except IRaise as err:
            for h in st.handlers:
                if self.exc_matches(err.value, h.type, env, g):
                    if h.name:
                        env.vars[h.name] = err.value
                    old = getattr(self, "cur_exc", None)
                    self.cur_exc = err.value
                    try:
                        self.exec_block(h.body, env, g)
                    finally:
                        self.cur_exc = old
                    break
            else:
                self.exec_block(st.finalbody, env, g)
                raise
        else:
            self.exec_block(st.orelse, env, g)
        self.exec_block(st.finalbody, env, g)

    def exc_matches(self, v, tnode, env, g):
        if tnode is None:
            return True
        t = self.eval(tnode, env, g)
        ts = t if isinstance(t, tuple) else (t,)
        for t in ts:
            if isinstance(t, Ext):
                t = EXC.get(t.name.rsplit(".", 1)[-1], t)
            if isinstance(t, ICls):
                if isinstance(v, Obj) and v.cls.issub(t):
                    return True
            elif isinstance(t, type):
                if isinstance(v, t):
                    return True
                if isinstance(v, Obj) and any(isinstance(b, type) and issubclass(b, t)
                                              for b in v.cls.mro if not isinstance(b, ICls)):
                    return True
        return False

    def x_With(self, st, env, g):
        for it in st.items:
            v = self.eval(it.context_expr, env, g)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, g)
        self.exec_block(st.body, env, g)

    # --------------------------------------------------------- expressions
    def eval(self, n, env, g):
        self.tick(n)
        return getattr(self, "e_" + type(n).__name__, self.e_unknown)(n, env, g)

    def e_unknown(self, n, env, g):
        raise Unsupported("expression %s" % type(n).__name__)

    def e_Constant(self, n, env, g):
        v = n.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return v
            return Fraction(repr(v))
        return v

    def e_Name(self, n, env, g):
        e = env
        first = True
        while e is not None:
            if n.id in e.vars and (first or not getattr(e, "is_class", False)):
                return e.vars[n.id]
            first = False
            e = e.parent
        if n.id in g.vars:
            return g.vars[n.id]
        if n.id in BUILTINS or hasattr(builtins, n.id):
            if n.id in EXC:
                return EXC[n.id]
            if n.id == "object":
                return object
            if n.id in ("NotImplemented", "Ellipsis"):
                return getattr(builtins, n.id)
            return Ext("builtins." + n.id)
        raise IRaise(NameError("name '%s' is not defined" % n.id), self.where())

    def e_Attribute(self, n, env, g):
        return self.getattr(self.eval(n.value, env, g), n.attr)

    def e_Tuple(self, n, env, g):
        return tuple(self.elements(n.elts, env, g))

    def e_List(self, n, env, g):
        return list(self.elements(n.elts, env, g))

    def e_Set(self, n, env, g):
        return set(self.elements(n.elts, env, g))

    def elements(self, elts, env, g):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, env, g)))
            else:
                out.append(self.eval(e, env, g))
        return out

    def e_Dict(self, n, env, g):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.eval(v, env, g))
            else:
                d[self.eval(k, env, g)] = self.eval(v, env, g)
        return d

    def e_JoinedStr(self, n, env, g):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            x = self.eval(v.value, env, g)
            if v.format_spec is not None or v.conversion not in (-1, 115) or \
                    not (isinstance(x, (str, int)) and self.np.plain(x)):
                return self.np.TEXT
            parts.append(str(x))
        return "".join(parts)

    def e_BinOp(self, n, env, g):
        return self.binop(n.op, self.eval(n.left, env, g), self.eval(n.right, env, g))

    def e_UnaryOp(self, n, env, g):
        v = self.eval(n.operand, env, g)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return UBool("not") if isinstance(t, UBool) else not t
        if isinstance(n.op, ast.USub):
            if isinstance(v, Arr):
                return tn.neg(v)
            if isinstance(v, Num):
                return tn.simplify_num(-v.b)
            return -v
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return self.np.logical_not(self, v)
        raise Unsupported("unary operator")

    def e_BoolOp(self, n, env, g):
        is_and = isinstance(n.op, ast.And)
        unknown = None
        v = None
        for x in n.values:
            v = self.eval(x, env, g)
            t = self.truth(v)
            if isinstance(t, UBool):
                unknown = t
                continue
            if is_and and not t:
                return v
            if not is_and and t:
                return v
        if unknown is not None:
            return unknown
        return v

    def e_Compare(self, n, env, g):
        left = self.eval(n.left, env, g)
        res = True
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, env, g)
            r = self.compare(op, left, right)
            if len(n.ops) == 1:
                return r
            t = self.truth(r)
            if isinstance(t, UBool):
                res = t
            elif not t:
                return False
            left = right
        return res

    def e_IfExp(self, n, env, g):
        c = self.truth(self.eval(n.test, env, g))
        if isinstance(c, UBool):
            a = self.eval(n.body, env, g)
            b = self.eval(n.orelse, env, g)
            if a is b:
                return a
            raise Unsupported("undetermined condition (%s) at %s" % (c.why, self.where()))
        return self.eval(n.body if c else n.orelse, env, g)

    def e_Lambda(self, n, env, g):
        return self.make_func(n, env, g)

    def e_Subscript(self, n, env, g):
        o = self.eval(n.value, env, g)
        return self.getitem(o, self.index(n.slice, env, g))

    def index(self, n, env, g):
        return self.eval(n, env, g)

    def e_Slice(self, n, env, g):
        f = lambda x: None if x is None else self.intval(self.eval(x, env, g))
        return slice(f(n.lower), f(n.upper), f(n.step))

    def intval(self, v):
        if isinstance(v, Arr) and v.ndim == 0:
            return tn.num_of(v.data[()], "i")
        return v

    def e_Starred(self, n, env, g):
        raise Unsupported("starred")

    def comp(self, gens, env, g, emit):
        def rec(i, e):
            if i == len(gens):
                emit(e)
                return
            gen = gens[i]
            for v in self.iterate(self.eval(gen.iter, e, g)):
                e2 = Env({}, e)
                self.assign(gen.target, v, e2, g)
                ok = True
                for c in gen.ifs:
                    t = self.truth(self.eval(c, e2, g))
                    if isinstance(t, UBool):
                        raise Unsupported("undetermined filter")
                    if not t:
                        ok = False
                        break
                if ok:
                    rec(i + 1, e2)
        rec(0, Env({}, env))

    def e_ListComp(self, n, env, g):
        out = []
        self.comp(n.generators, env, g, lambda e: out.append(self.eval(n.elt, e, g)))
        return out

    def e_GeneratorExp(self, n, env, g):
        return self.e_ListComp(n, env, g)

    def e_SetComp(self, n, env, g):
        return set(self.e_ListComp(n, env, g))

    def e_DictComp(self, n, env, g):
        out = {}

        def emit(e):
            out[self.eval(n.key, e, g)] = self.eval(n.value, e, g)
        self.comp(n.generators, env, g, emit)
        return out

    def e_Call(self, n, env, g):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            while e is not None and e.func is None:
                e = e.parent
            while e is not None and (e.func is None or not e.func.owner):
                e = e.parent
            if e is None:
                raise Unsupported("super() outside a method")
            f = e.func
            return Super(f.owner[0], e.vars[first_arg(f.node)])
        f = self.eval(n.func, env, g)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env, g)))
            else:
                args.append(self.eval(a, env, g))
        for k in n.keywords:
            if k.arg is None:
                kwargs.update(self.eval(k.value, env, g))
            else:
                kwargs[k.arg] = self.eval(k.value, env, g)
        self.node = n
        return self.call(f, args, kwargs)

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, IFunc):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ICls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.np.call(self, f.name, args, kwargs)
        if isinstance(f, NativeMethod):
            return f(self, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*[a if isinstance(a, str) else repr(a) for a in args])
        if f is object:
            return Opaque("object()")
        if isinstance(f, Obj):
            m = self.find_method(f, "__call__")
            if m is not None:
                return self.call(m, args, kwargs)
            raise IRaise(TypeError("not callable"))
        if isinstance(f, Wrap) and f.kind in ("static", "class"):
            return self.call(f.func, args, kwargs)
        if callable(f):
            return f(*args, **kwargs)
        if f is None or isinstance(f, (int, str, list, tuple, Arr)):
            raise IRaise(TypeError("%r is not callable" % (f,)))
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, c, args, kwargs):
        if any(isinstance(b, type) and issubclass(b, BaseException) for b in c.mro
               if not isinstance(b, ICls)):
            o = Obj(c)
            o.attrs["args"] = tuple(args)
            init, _ = c.lookup("__init__")
            if init is not None:
                self.call(init, [o] + list(args), kwargs)
            return o
        hook = self.hooks.get(("new", c.name))
        if hook:
            return hook(self, c, args, kwargs)
        o = Obj(c)
        init, _ = c.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        elif args or kwargs:
            pass
        return o

    def call_func(self, f, args, kwargs):
        key = self.override_key(f)
        if key in self.overrides:
            r = self.overrides[key](self, args, kwargs)
            if r is not NotImplemented:
                return r
        if self.depth > 80:
            raise Unsupported("call depth")
        env = Env({}, f.env, f)
        self.bind(f, args, kwargs, env)
        self.depth += 1
        self.stack.append(f)
        self.functions.add("%s:%s" % (self.p.modules[f.module].rel
                                      if f.module in self.p.modules else f.module,
                                      (f.owner[0].name + "." if f.owner else "") + f.name))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env, f.genv)
            if f.is_gen:
                env.yields = []
                try:
                    self.exec_block(f.node.body, env, f.genv)
                except Ret:
                    pass
                return env.yields
            try:
                self.exec_block(f.node.body, env, f.genv)
            except Ret as r:
                return r.v
            except (Unsupported, ShapeError, IndexError) as err:
                if not hasattr(err, "trace"):
                    err.trace = self.where() + " < " + " < ".join(
                        x.name for x in reversed(self.stack[:-1]))
                raise
            return None
        finally:
            self.depth -= 1
            self.stack.pop()

    def override_key(self, f):
        return f.module + "." + (f.owner[0].name + "." if f.owner else "") + f.name

    def bind(self, f, args, kwargs, env):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        vals = env.vars
        if len(args) > len(pos) and not a.vararg:
            raise IRaise(TypeError("%s() takes %d positional arguments but %d were given"
                                   % (f.name, len(pos), len(args))), self.where())
        for k, v in zip(pos, args):
            vals[k] = v
        if a.vararg:
            vals[a.vararg.arg] = tuple(args[len(pos):])
        for k in pos[len(args):]:
            if k in kwargs:
                vals[k] = kwargs.pop(k)
        nd = len(f.defaults)
        for i, k in enumerate(pos):
            if k not in vals:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise IRaise(TypeError("%s() missing argument %r" % (f.name, k)), self.where())
                vals[k] = f.defaults[j]
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kwargs:
                vals[x.arg] = kwargs.pop(x.arg)
            elif d is MISSING:
                raise IRaise(TypeError("%s() missing keyword %r" % (f.name, x.arg)))
            else:
                vals[x.arg] = d
        for k in list(kwargs):
            if k in pos and k in vals and k in [p for p in pos[:len(args)]]:
                raise IRaise(TypeError("%s() got multiple values for %r" % (f.name, k)))
        if a.kwarg:
            vals[a.kwarg.arg] = kwargs
        elif kwargs:
            raise IRaise(TypeError("%s() got unexpected keyword %s" % (f.name, sorted(kwargs))),
                         self.where())

    # ------------------------------------------------------------ attributes
    def find_method(self, o, name):
        v, c = o.cls.lookup(name)
        if v is None:
            return None
        return self.bind_attr(v, o, o.cls)

    def bind_attr(self, v, obj, cls):
        if isinstance(v, IFunc):
            return Bound(v, obj) if obj is not None else v
        if isinstance(v, Wrap):
            if v.kind == "static":
                return v.func
            if v.kind == "class":
                return Bound(v.func, cls)
            if v.kind == "property":
                if obj is None:
                    return v
                return self.call(v.func, [obj], {})
        return v

    def getattr(self, o, name, default=MISSING):
        if isinstance(o, Obj):
            cv, _ = o.cls.lookup(name)
            if isinstance(cv, Wrap) and cv.kind == "property":
                return self.bind_attr(cv, o, o.cls)
            if name in o.attrs:
                return o.attrs[name]
            if cv is not None or any(isinstance(c, ICls) and name in c.ns for c in o.cls.mro):
                return self.bind_attr(cv, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            if default is not MISSING:
                return default
            raise IRaise(AttributeError("%s has no attribute %s" % (o.cls.name, name)),
                         self.where())
        if isinstance(o, ICls):
            v, _ = o.lookup(name)
            if v is not None or any(isinstance(c, ICls) and name in c.ns for c in o.mro):
                return self.bind_attr(v, None, o)
            if name == "__name__":
                return o.name
            if name == "__bases__":
                return tuple(o.bases) or (object,)
            if default is not MISSING:
                return default
            raise IRaise(AttributeError("%s has no attribute %s" % (o.name, name)), self.where())
        if isinstance(o, Super):
            obj = o.obj
            cls = obj.cls if isinstance(obj, Obj) else obj
            v, _ = cls.lookup(name, after=o.cls)
            if v is None:
                if name == "__init__":
                    return NativeMethod(lambda it, a, k: None)
                raise IRaise(AttributeError("super has no %s" % name), self.where())
            if isinstance(obj, Obj):
                return self.bind_attr(v, obj, cls)
            return self.bind_attr(v, None, cls) if isinstance(v, Wrap) else v
        if isinstance(o, IMod):
            env = self.module(o.name)
            if name in env.vars:
                return env.vars[name]
            sub = o.name + "." + name
            if sub in self.p.modules:
                self.module(sub)
                return IMod(sub)
            raise IRaise(AttributeError("module %s has no %s" % (o.name, name)))
        if isinstance(o, Ext):
            return self.np.ext_attr(self, o.name + "." + name)
        if isinstance(o, IFunc):
            if name == "__name__":
                return o.name
            if name == "__doc__":
                return None
            if name in o.attrs:
                return o.attrs[name]
            raise IRaise(AttributeError(name))
        if isinstance(o, type) and name == "__bases__":
            return o.__bases__
        if isinstance(o, Bound) and name == "__func__":
            return o.func
        if isinstance(o, Wrap) and o.kind == "property" and name == "setter":
            return NativeMethod(lambda it, a, k: Wrap("property", o.func, a[0]))
        if isinstance(o, Opaque):
            raise Unsupported("attribute %s of %s" % (name, o.why))
        v = self.np.value_attr(self, o, name)
        if v is MISSING:
            if default is not MISSING:
                return default
            raise IRaise(AttributeError("%s has no attribute %s" % (type(o).__name__, name)),
                         self.where())
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            cv, _ = o.cls.lookup(name)
            if isinstance(cv, Wrap) and cv.kind == "property":
                if cv.setter is None:
                    raise IRaise(AttributeError("can't set %s" % name))
                self.call(cv.setter, [o, v], {})
                return
            o.attrs[name] = v
            return
        if isinstance(o, ICls):
            o.ns[name] = v
            return
        if isinstance(o, IFunc):
            o.attrs[name] = v
            return
        raise Unsupported("attribute store on %s" % type(o).__name__)

    # ------------------------------------------------------------ containers
    def getitem(self, o, k):
        k = self.plain_index(k)
        if isinstance(o, Arr):
            try:
                r = tn.getitem(o, k)
            except IndexError as err:
                raise IRaise(err, self.where())
            except ShapeError as err:
                raise IRaise(ValueError(str(err)), self.where())
            r = Arr(r.axes, r.data, r.dtype)
            r.root = o.root if o.root is not None else o
            return r
        if isinstance(o, Obj):
            m = self.find_method(o, "__getitem__")
            if m is None:
                raise IRaise(TypeError("not subscriptable"))
            return self.call(m, [k], {})
        if isinstance(o, (list, tuple, dict, str, range)):
            if isinstance(k, Num) or (isinstance(k, slice) and any(
                    isinstance(x, Num) for x in (k.start, k.stop, k.step))):
                raise Unsupported("symbolic index into a %s" % type(o).__name__)
            try:
                return o[k]
            except (IndexError, KeyError, TypeError) as err:
                raise IRaise(err, self.where())
        if isinstance(o, (int, Fraction)) or o is None:
            if isinstance(o, (int, Fraction)):
                return self.getitem(tn.lift(o), k)
            raise IRaise(TypeError("not subscriptable"), self.where())
        if isinstance(o, Ext) and o.name.startswith("numpy."):
            return self.np.ext_item(self, o.name, k)
        raise Unsupported("subscript of %s" % type(o).__name__)

    def plain_index(self, k):
        if isinstance(k, Arr) and k.ndim == 0 and k.dtype == "i":
            return tn.num_of(k.data[()], "i")
        if isinstance(k, Fraction) and k.denominator == 1:
            return int(k)
        if isinstance(k, tuple):
            return tuple(self.plain_index(x) for x in k)
        return k

    def setitem(self, o, k, v):
        k = self.plain_index(k)
        if isinstance(o, Arr):
            self.mutating(o)
            if o.root is not None:
                raise Unsupported("assignment into a view")
            if isinstance(k, Arr) and k.dtype == "b":
                new = self.np.where(self, k, v, o)
                if not same_shape(new, o):
                    raise Unsupported("masked assignment changes the shape")
                o.set_from(new)
                return
            try:
                new = tn.setitem(o, k, tn.lift(v))
            except IndexError as err:
                raise IRaise(err, self.where())
            except ShapeError as err:
                raise IRaise(ValueError(str(err)), self.where())
            o.set_from(new)
            return
        if isinstance(o, Obj):
            m = self.find_method(o, "__setitem__")
            if m is not None:
                self.call(m, [k, v], {})
                return
        if isinstance(o, (list, dict)):
            self.mutating(o)
            try:
                o[k] = v
            except (IndexError, TypeError) as err:
                raise IRaise(err, self.where())
            return
        if isinstance(o, tuple):
            raise IRaise(TypeError("'tuple' object does not support item assignment"),
                         self.where())
        raise Unsupported("item assignment on %s" % type(o).__name__)

    def iterate(self, v):
        if isinstance(v, (list, tuple, range, set, str)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (zip, map, filter, enumerate, reversed, itertools.product)):
            return list(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise IRaise(TypeError("iteration over a 0-d array"), self.where())
            n = v.axes[0]
            if tn.is_idx(n):
                raise Unsupported("iteration over a symbolic axis")
            return [self.unbox(self.getitem(v, i)) for i in range(1 if n is None else n)]
        if isinstance(v, self.np.Iter):
            rest, v.items = v.items, []
            return rest
        if v is None or isinstance(v, (int, Fraction, Num)):
            raise IRaise(TypeError("'%s' object is not iterable" % type(v).__name__),
                         self.where())
        if isinstance(v, Obj):
            m = self.find_method(v, "__iter__")
            if m is not None:
                return self.iterate(self.call(m, [], {}))
            m = self.find_method(v, "__len__")
        raise Unsupported("iteration over %s" % type(v).__name__)

    def unbox(self, v):
        """0-d integer arrays behave like numpy integers."""
        return v

    # ---------------------------------------------------------------- values
    def truth(self, v):
        if isinstance(v, UBool):
            return v
        if isinstance(v, Arr):
            if v.ndim == 0 or (all(a is None for a in v.axes)):
                c = v.data[()].constant()
                if c is not None:
                    return c != 0
                if v.dtype == "b":
                    return UBool("array value")
                return UBool("array value")
            raise IRaise(ValueError("truth value of an array is ambiguous"), self.where())
        if isinstance(v, Num):
            return True
        if isinstance(v, (bool, int, Fraction, float, str, list, tuple, dict, set, range)) \
                or v is None:
            return bool(v)
        if isinstance(v, Obj):
            m = self.find_method(v, "__bool__") or self.find_method(v, "__len__")
            if m is not None:
                return self.truth(self.call(m, [], {}))
            return True
        if isinstance(v, (ICls, IFunc, Bound, Ext, IMod, type, BaseException, slice)):
            return True
        if v is Ellipsis:
            return True
        raise Unsupported("truth of %s" % type(v).__name__)

    def binop(self, op, a, b):
        try:
            return self.np.binop(self, op, a, b)
        except ShapeError as err:
            raise IRaise(ValueError(str(err)), self.where())

    def compare(self, op, a, b):
        return self.np.compare(self, op, a, b)


class _Driver:
    def __init__(self, name, tree):
        self.name, self.tree = name, tree
        self.rel = self.path = "driver"


class NativeMethod:
    def __init__(self, f):
        self.f = f

    def __call__(self, interp, args, kwargs):
        return self.f(interp, args, kwargs)


def same_shape(a, b):
    return [tn.axis_len(x) for x in a.axes] == [tn.axis_len(x) for x in b.axes]


def first_arg(node):
    a = node.args
    return (a.posonlyargs + a.args)[0].arg


def ends_in_raise(body):
    return bool(body) and isinstance(body[-1], ast.Raise)


def only_warns(body):
    for st in body:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            f = st.value.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if nm in ("warn", "print"):
                continue
        return False
    return True


def bound_names(st):
    out = []
    for n in ast.walk(st):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.append(n.name)
            break
        elif isinstance(n, ast.alias):
            out.append((n.asname or n.name).split(".")[0])
    return out


def walk_own(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


EXC = {n: getattr(builtins, n) for n in dir(builtins)
       if isinstance(getattr(builtins, n), type)
       and issubclass(getattr(builtins, n), BaseException)}
EXC["LinAlgError"] = type("LinAlgError", (Exception,), {})

BUILTINS = {n for n in dir(builtins)}

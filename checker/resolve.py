"""Name, attribute and call resolution over the source of the analysed program.

Everything here answers "may this reference denote something?" from the syntax
trees alone.  An answer is False only when no binding of the name exists that the
reference could reach; whatever cannot be resolved is answered None.
"""
import ast
import builtins
import functools
import json
import os
import string
import symtable

from program import ClassInfo, FuncInfo, ModuleInfo

HERE = os.path.dirname(os.path.abspath(__file__))
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__",
                                 "__package__", "__spec__", "__class__"}
# modules of the package its own import graph never reaches
ROOTS = ("bayespy", "bayespy.nodes", "bayespy.inference", "bayespy.plot",
         "bayespy.inference.vmp.transformations", "bayespy.inference.vmp.vmp",
         "bayespy.utils.misc", "bayespy.utils.linalg", "bayespy.utils.random",
         "bayespy.utils.optimize")


def external():
    with open(os.path.join(HERE, "external.json")) as f:
        d = json.load(f)
    return d["modules"], set(d["attributes"])


EXITS = {"sys.exit", "exit", "quit", "os._exit", "os.abort"}


def leaves(st):
    """Does control never pass to the next statement?"""
    if isinstance(st, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
        return True
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
        return ast.unparse(st.value.func) in EXITS
    if isinstance(st, ast.If) and st.orelse:
        return leaves(st.body[-1]) and leaves(st.orelse[-1])
    return False


def prune(tree):
    """Drop statements no control flow reaches (after return/raise, `if False`)."""
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if not isinstance(b, list):
                continue
            out = []
            for st in b:
                if isinstance(st, ast.If) and isinstance(st.test, ast.Constant):
                    live = st.body if st.test.value else st.orelse
                    out.extend(live)
                    if live and leaves(live[-1]):
                        break
                    continue
                out.append(st)
                if leaves(st):
                    break
            if b and not out:
                out = [ast.copy_location(ast.Pass(), b[0])]
            if len(out) != len(b) or any(x is not y for x, y in zip(out, b)):
                setattr(n, f, out)
    return tree


def stored_names(node, own_scope=True):
    """Names a module/class body binds (not descending into functions)."""
    out = set()

    def target(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(ch.name)
                continue
            if isinstance(ch, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                               ast.GeneratorExp)):
                continue
            if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)):
                out.add(ch.id)
            elif isinstance(ch, ast.Import):
                for a in ch.names:
                    out.add(a.asname or a.name.split(".")[0])
            elif isinstance(ch, ast.ImportFrom):
                for a in ch.names:
                    if a.name != "*":
                        out.add(a.asname or a.name)
            elif isinstance(ch, ast.ExceptHandler) and ch.name:
                out.add(ch.name)
            walk(ch)

    walk(node)
    return out


class Names:
    def __init__(self, program):
        self.p = program
        self.ext, self.attr_universe = external()
        self._globals = {}
        self.live = self._closure()
        self._attr = {}
        self._collect()

    # ---------------------------------------------------------------- modules
    def _closure(self):
        seen, todo = set(), [r for r in ROOTS if r in self.p.modules]
        while todo:
            n = todo.pop()
            if n in seen or n not in self.p.modules:
                continue
            seen.add(n)
            m = self.p.modules[n]
            parts = n.split(".")
            for i in range(1, len(parts)):
                todo.append(".".join(parts[:i]))
            for t in list(m.imports.values()) + list(m.star_imports):
                while t:
                    if t in self.p.modules:
                        todo.append(t)
                        break
                    t = t.rpartition(".")[0]
        return seen

    def modules(self):
        return [self.p.modules[n] for n in sorted(self.live)]

    def globals_of(self, modname, seen=None):
        """Names bound at module level; None when it cannot be enumerated."""
        if modname in self._globals:
            return self._globals[modname]
        seen = seen or set()
        if modname in seen:
            return set()
        seen.add(modname)
        m = self.p.modules.get(modname)
        if m is None:
            t = self.ext.get(modname)
            return None if t is None else set(t)
        out = stored_names(m.tree)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                out |= set(n.names)
        for s in m.star_imports:
            g = self.globals_of(s, seen)
            if g is None:
                if s in self.p.modules or s.split(".")[0] == "bayespy":
                    continue
                return None
            out |= g
        for other in self.p.modules:
            if other.startswith(modname + ".") and "." not in other[len(modname) + 1:]:
                out.add(other[len(modname) + 1:])
        if os.path.isdir(os.path.dirname(m.path)) and m.path.endswith("__init__.py"):
            for fn in os.listdir(os.path.dirname(m.path)):
                if fn.endswith(".py"):
                    out.add(fn[:-3])
                elif os.path.isdir(os.path.join(os.path.dirname(m.path), fn)):
                    out.add(fn)
        self._globals[modname] = out
        return out

    def entity(self, m, expr):
        """Resolve a Name/Attribute chain at module level to an entity:
        ModuleInfo, ClassInfo, FuncInfo, ("ext", dotted), or None."""
        if isinstance(expr, ast.Name):
            g = m.imports.get(expr.id)
            r = self.p.resolve_name(m, expr.id)
            if r is not None:
                return r
            if g is not None:
                return self._ext(g)
            for s in m.star_imports:
                if s in self.ext and expr.id in self.ext[s]:
                    return ("ext", s + "." + expr.id)
            have = self.globals_of(m.name)
            if have is not None and expr.id not in have and expr.id in BUILTINS:
                return ("ext", "builtins." + expr.id)
            return None
        if isinstance(expr, ast.Attribute):
            b = self.entity(m, expr.value)
            if isinstance(b, ModuleInfo):
                r = self.p._lookup_in_module(b.name, expr.attr, set())
                if r is not None:
                    return r
                t = b.imports.get(expr.attr)
                return self._ext(t) if t else None
            if isinstance(b, tuple) and b[0] == "ext":
                return self._ext(b[1] + "." + expr.attr)
        return None

    def _ext(self, dotted):
        if dotted is None or dotted.split(".")[0] == "bayespy":
            return None
        head, _, last = dotted.rpartition(".")
        if head in self.ext:
            v = self.ext[head].get(last)
            if isinstance(v, str) and v.startswith("module:"):
                return ("ext", v[len("module:"):])
        return ("ext", dotted)

    def module_has(self, b, attr):
        if isinstance(b, ModuleInfo):
            g = self.globals_of(b.name)
            return None if g is None else attr in g
        if isinstance(b, tuple) and b[0] == "ext":
            t = self.ext.get(b[1])
            if t is None:
                return None
            return attr in t
        return None

    # ------------------------------------------------------------- attributes
    def _collect(self):
        """Attributes each class binds, and attributes stored from outside."""
        self.outside = set()
        self.dynamic = set()
        for m in self.p.modules.values():
            for c in m.all_classes:
                self._attr[c] = self._class_attrs(c)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                        and n.func.id == "setattr":
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        self.outside.add(n.args[1].value)
            self._outside(m)

    def _first_arg(self, fn):
        a = fn.args.posonlyargs + fn.args.args
        return a[0].arg if a else None

    def _class_attrs(self, c):
        out = stored_names(c.node)
        for st in c.node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                me = self._first_arg(st)
                for n in ast.walk(st):
                    if isinstance(n, ast.Attribute) \
                            and isinstance(n.ctx, (ast.Store, ast.Del)) \
                            and isinstance(n.value, ast.Name) and n.value.id == me:
                        out.add(n.attr)
        # a class assigned attributes by name from outside: C.x = ...
        return out

    # attributes of arrays: assigning one says nothing about other objects
    ARRAYS = {"shape", "dtype", "flat", "T", "real", "imag", "strides", "data"}

    def _outside(self, m):
        owner = {}
        for c in m.all_classes:
            for st in c.node.body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for n in ast.walk(st):
                        owner[n] = self._first_arg(st)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                if n.attr in self.ARRAYS:
                    continue
                if not (isinstance(n.value, ast.Name) and n.value.id == owner.get(n)):
                    self.outside.add(n.attr)

    @functools.lru_cache(maxsize=None)
    def open_class(self, c):
        """A base the program does not contain, or a dynamic attribute hook."""
        for k in self.p.mro(c):
            for b in k.bases:
                if not isinstance(b, ClassInfo) and b not in ("object",):
                    return True
            if k.methods.keys() & {"__getattr__", "__getattribute__"}:
                return True
            for f in list(k.methods.values()):
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                            and n.func.id == "setattr" and len(n.args) > 1 \
                            and not isinstance(n.args[1], ast.Constant):
                        return True
                    if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                        return True
        return False

    @functools.lru_cache(maxsize=None)
    def attrs_of(self, c):
        out = set()
        for k in self.p.mro(c):
            out |= self._attr.get(k, set())
        return out

    @functools.lru_cache(maxsize=None)
    def descendants(self, c):
        out = []
        for m in self.p.modules.values():
            for d in m.all_classes:
                if c in self.p.mro(d):
                    out.append(d)
        return out

    @functools.lru_cache(maxsize=None)
    def has_attr(self, c, attr):
        """May an object seen as `self` in a method of class c have the attribute?"""
        if attr in self.outside or (attr.startswith("__") and attr.endswith("__")):
            return True
        if attr in dir(object):
            return True
        for d in self.descendants(c):
            if self.open_class(d) or attr in self.attrs_of(d):
                return True
        return False

    def known_anywhere(self, attr):
        if not hasattr(self, "_all"):
            self._all = set(self.outside) | self.attr_universe
            for s in self._attr.values():
                self._all |= s
            for m in self.p.modules.values():
                self._all |= self.globals_of(m.name) or set()
            for t in self.ext.values():
                self._all |= set(t)
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    # attributes of nested functions / named tuples given as text
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) \
                            and n.value.isidentifier():
                        self._all.add(n.value)
        return attr in self._all


# ------------------------------------------------------------------ signatures
class Sig:
    """Parameters a callable takes: (name, kind, has default)."""

    def __init__(self, params):
        self.params = params

    @classmethod
    def of(cls, fn, drop_first):
        a = fn.args
        pos = [(x.arg, "p") for x in a.posonlyargs] + [(x.arg, "a") for x in a.args]
        nd = len(a.defaults)
        out = []
        for i, (n, k) in enumerate(pos):
            out.append((n, k, 1 if i >= len(pos) - nd else 0))
        if drop_first:
            if out:
                out = out[1:]
            elif not a.vararg:
                return None
        if a.vararg:
            out.append((a.vararg.arg, "*", 1))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            out.append((x.arg, "k", 0 if d is None else 1))
        if a.kwarg:
            out.append((a.kwarg.arg, "**", 1))
        return cls(out)

    def accepts(self, call):
        """None when undetermined, "" when accepted, else why not."""
        npos = 0
        star = False
        for x in call.args:
            if isinstance(x, ast.Starred):
                star = True
            else:
                npos += 1
        kws = [k.arg for k in call.keywords if k.arg is not None]
        dstar = any(k.arg is None for k in call.keywords)
        names = [p for p in self.params if p[1] in "pa"]
        vararg = any(p[1] == "*" for p in self.params)
        kwarg = any(p[1] == "**" for p in self.params)
        if npos > len(names) and not vararg:
            return "%d positional arguments given, at most %d taken" % (npos, len(names))
        for k in kws:
            if not kwarg and k not in [p[0] for p in self.params if p[1] in ("a", "k")]:
                return "no parameter %r" % k
            if k in [p[0] for p in names[:npos] if p[1] == "a"]:
                return "parameter %r given twice" % k
        if not star and not dstar:
            missing = [p[0] for i, p in enumerate(names)
                       if i >= npos and not p[2] and p[0] not in kws]
            missing += [p[0] for p in self.params
                        if p[1] == "k" and not p[2] and p[0] not in kws]
            if missing:
                return "no argument for parameter %s" % ", ".join(map(repr, missing))
        return ""


PLAIN = {"staticmethod", "classmethod", "property", "abstractmethod", "setter",
         "ensureparents"}


def keeps_signature(node):
    """No decorator, or only ones that leave the parameters as written."""
    from program import decorator_name
    return all(decorator_name(d) in PLAIN for d in node.decorator_list)


# -------------------------------------------------------- definite assignment
class Unassigned:
    """Path-sensitive search for a read of a local on a path that never bound it.

    State: (bound names, known truth of conditions).  Conditions are compared as
    text, with the usual boolean structure; an assignment forgets the conditions
    it may change.  A loop is taken to run its body at least once.
    """
    CAP = 400

    def __init__(self, fn, names, facts=True):
        self.fn = fn
        self.keep = None              # condition texts worth remembering
        if not facts:
            self.keep = set()
        elif len(names) == 1:
            self.keep = self.relevant(next(iter(names)))
        self.names = names            # locals to follow
        self.found = {}               # (name, line) -> facts
        self.over = False
        self._vars = {}
        self.chain = {}               # name -> condition texts that guard its stores

    def relevant(self, name):
        """Conditions that decide whether the name is bound or read: those of the
        statements around its uses and of those that leave, and the conditions on the
        same variables."""
        out = set()
        for n in ast.walk(self.fn):
            if isinstance(n, (ast.If, ast.While, ast.Assert)):
                inside = list(ast.walk(n))
                if any(isinstance(x, ast.Name) and x.id == name for x in inside) \
                        or isinstance(n, ast.Assert) \
                        or any(isinstance(x, (ast.Return, ast.Raise, ast.Break,
                                              ast.Continue)) for x in inside):
                    out |= self.texts(n.test)
        return out

    # facts: dict text->bool stored as frozenset of items
    def run(self):
        args = self.fn.args
        bound = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs}
        if args.vararg:
            bound.add(args.vararg.arg)
        if args.kwarg:
            bound.add(args.kwarg.arg)
        self.loops = []
        self.exits = set()
        self.exits |= self.block(self.fn.body, {(frozenset(bound & self.names), frozenset())})
        return self.found

    def block(self, stmts, states):
        for st in stmts:
            if not states:
                return states
            if len(states) > self.CAP:
                self.over = True
                return set()
            states = self.stmt(st, states)
        return states

    def reads(self, node, states):
        """Record unbound reads of an expression, apply walrus stores."""
        if node is None:
            return states
        for n in self.walk_expr(node):
            if isinstance(n, ast.Name) and n.id in self.names \
                    and isinstance(n.ctx, ast.Load):
                for b, f in states:
                    if n.id not in b:
                        self.found.setdefault((n.id, n.lineno), []).append(dict(f))
            if isinstance(n, ast.NamedExpr):
                states = self.store(n.target, states)
        return states

    def walk_expr(self, node):
        todo = [node]
        while todo:
            n = todo.pop(0)
            if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # own scope: the first iterable is evaluated outside; reads of names
                # that are not comprehension targets are outer reads
                own = set()
                for g in n.generators:
                    for t in ast.walk(g.target):
                        if isinstance(t, ast.Name):
                            own.add(t.id)
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and x.id not in own:
                        yield x
                continue
            if isinstance(n, (ast.BoolOp, ast.IfExp)):
                # only the first operand is certain to be evaluated
                todo.insert(0, n.values[0] if isinstance(n, ast.BoolOp) else n.test)
                continue
            yield n
            todo = list(ast.iter_child_nodes(n)) + todo

    def store(self, t, states):
        names = {x.id for x in ast.walk(t)
                 if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        roots = written(t)
        out = set()
        for b, f in states:
            nf = frozenset(i for i in f if not clash(self.vars(i[0]), roots))
            out.add((b | (names & self.names), nf))
        return out

    def vars(self, text):
        """Variables a condition depends on, as attribute chains."""
        if text not in self._vars:
            try:
                self._vars[text] = chains(ast.parse(text, mode="eval"))
            except SyntaxError:
                self._vars[text] = frozenset()
        return self._vars[text]

    # -- conditions
    def assume(self, test, truth, state):
        """States refined by the test being true/false; [] when impossible."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, not truth, state)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And) == truth
            if conj:
                sts = [state]
                for v in test.values:
                    sts = [s2 for s in sts for s2 in self.assume(v, truth, s)]
                return sts
            out = []
            pre = [state]
            for v in test.values:
                for s in pre:
                    out += self.assume(v, truth, s)
                pre = [s2 for s in pre for s2 in self.assume(v, not truth, s)]
            return out
        if isinstance(test, ast.Constant):
            return [state] if bool(test.value) == truth else []
        text, t = self.norm(test, truth)
        b, f = state
        d = dict(f)
        if text in d:
            return [state] if d[text] == t else []
        known = self.constant(d, text)
        if known is not None:
            return [state] if known == t else []
        if t and " == " in text:
            left, _, right = text.partition(" == ")
            for k, v in d.items():
                if v and k.startswith(left + " == ") and k != text:
                    if self.const(right) and self.const(k[len(left) + 4:]):
                        return []
        if self.keep is not None and text not in self.keep:
            return [state]
        return [(b, f | {(text, t)})]

    def constant(self, d, text):
        """Truth of a condition on a name whose constant value is known."""
        for name in self.vars(text):
            for k, v in d.items():
                if not v:
                    continue
                if k == name + " is None":
                    val = None
                elif k.startswith(name + " == ") and self.const(k[len(name) + 4:]):
                    val = ast.literal_eval(k[len(name) + 4:])
                else:
                    continue
                if text == name:
                    return bool(val)
                for op, fn in ((" == ", lambda a, b: a == b), (" is ", lambda a, b: a is b)):
                    if text.startswith(name + op) and self.const(text[len(name + op):]):
                        try:
                            return bool(fn(val, ast.literal_eval(text[len(name + op):])))
                        except Exception:
                            return None
        return None

    @staticmethod
    def const(text):
        try:
            ast.literal_eval(text)
            return True
        except Exception:
            return False

    def norm(self, test, truth):
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, r = ast.unparse(test.left), ast.unparse(test.comparators[0])
            op = test.ops[0]
            flip = {ast.NotEq: "==", ast.IsNot: "is", ast.NotIn: "in",
                    ast.GtE: "<", ast.Gt: "<="}
            same = {ast.Eq: "==", ast.Is: "is", ast.In: "in", ast.Lt: "<", ast.LtE: "<="}
            if type(op) in flip:
                return "%s %s %s" % (l, flip[type(op)], r), not truth
            if type(op) in same:
                return "%s %s %s" % (l, same[type(op)], r), truth
        return ast.unparse(test), truth

    # -- statements
    def stmt(self, st, states):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            for d in st.decorator_list:
                states = self.reads(d, states)
            return {(b | ({st.name} & self.names), f) for b, f in states}
        if isinstance(st, ast.Assign):
            states = self.reads(st.value, states)
            for t in st.targets:
                states = self.reads_target(t, states)
                states = self.store(t, states)
                if isinstance(t, ast.Name) and isinstance(st.value, ast.Constant):
                    op = "is" if st.value.value is None else "=="
                    fact = ("%s %s %r" % (t.id, op, st.value.value), True)
                    if self.keep is None or any(clash({t.id}, self.vars(k))
                                                for k in self.keep):
                        states = {(b, f | {fact}) for b, f in states}
            return states
        if isinstance(st, ast.AugAssign):
            states = self.reads(st.value, states)
            if isinstance(st.target, ast.Name):
                load = ast.copy_location(ast.Name(st.target.id, ast.Load()), st.target)
                states = self.reads(load, states)
            else:
                states = self.reads_target(st.target, states)
            return self.store(st.target, states)
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                states = self.reads(st.value, states)
                states = self.store(st.target, states)
            return states
        if isinstance(st, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(st):
                states = self.reads(e, states)
            if isinstance(st, ast.Return):
                self.exits |= states
            return set()
        if isinstance(st, ast.Expr):
            states = self.reads(st.value, states)
            return set() if leaves(st) else states
        if isinstance(st, ast.Assert):
            states = self.reads(st.test, states)
            out = set()
            for s in states:
                out |= set(self.assume(st.test, True, s))
            return out
        if isinstance(st, ast.If):
            states = self.reads(st.test, states)
            yes, no = set(), set()
            for s in states:
                yes |= set(self.assume(st.test, True, s))
                no |= set(self.assume(st.test, False, s))
            for sub in ast.walk(st):
                for nm in self.names:
                    if isinstance(sub, ast.Name) and sub.id == nm \
                            and isinstance(sub.ctx, ast.Store):
                        self.chain.setdefault(nm, set()).update(self.texts(st.test))
            return self.block(st.body, yes) | self.block(st.orelse, no)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            states = self.reads(st.iter, states)
            return self.loop(st, states, lambda x: self.store(st.target, x), lambda x: x)
        if isinstance(st, ast.While):
            def enter(x):
                x = self.reads(st.test, x)
                return {r for q in x for r in self.assume(st.test, True, q)}

            def leave(x):
                return {r for q in x for r in self.assume(st.test, False, q)}
            return self.loop(st, states, enter, leave)
        if isinstance(st, ast.Break):
            if self.loops:
                self.loops[-1][0].update(states)
            return set()
        if isinstance(st, ast.Continue):
            if self.loops:
                self.loops[-1][1].update(states)
            return set()
        if isinstance(st, ast.With):
            for i in st.items:
                states = self.reads(i.context_expr, states)
                if i.optional_vars is not None:
                    states = self.store(i.optional_vars, states)
            return self.block(st.body, states)
        if isinstance(st, ast.Try):
            body = self.block(st.body, states)
            # any statement of the body may raise: handlers see what was bound before
            # the body, or after any prefix of it
            out = self.block(st.orelse, body)
            entry = set(states)
            cur = set(states)
            for sub in st.body[:-1]:
                mark = dict((k, list(v)) for k, v in self.found.items())
                cur = self.stmt(sub, cur)
                self.found = mark
                entry |= cur
            for h in st.handlers:
                hs = entry
                if h.name:
                    hs = {(b | ({h.name} & self.names), f) for b, f in hs}
                out |= self.block(h.body, hs)
            if st.finalbody:
                out = self.block(st.finalbody, out)
            return out
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            names = {a.asname or a.name.split(".")[0] for a in st.names} & self.names
            return {(b | names, f) for b, f in states}
        if isinstance(st, ast.Delete):
            return states
        if isinstance(st, ast.Match):
            self.over = True
            return set()
        return states

    def loop(self, st, states, enter, leave):
        """First iteration in the states at entry, then one in the states the first
        leaves (with what the loop changes forgotten)."""
        out, brk = set(), set()
        for _ in range(2):
            self.loops.append([set(), set()])
            body = self.block(st.body, enter(states))
            b, cont = self.loops.pop()
            brk |= b
            body |= cont
            out |= leave(body)
            states = self.forget(st, body)
            if len(states) > self.CAP:
                self.over = True
                return set()
        out |= leave(states)
        return (self.block(st.orelse, out) if st.orelse else out) | brk

    def texts(self, test):
        if isinstance(test, ast.BoolOp):
            return set().union(*[self.texts(v) for v in test.values])
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.texts(test.operand)
        return {self.norm(test, True)[0]}

    def reads_target(self, t, states):
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                states = self.reads_target(e, states)
        elif isinstance(t, (ast.Attribute,)):
            states = self.reads(t.value, states)
        elif isinstance(t, ast.Subscript):
            states = self.reads(t.value, states)
            states = self.reads(t.slice, states)
        return states

    def forget(self, loop, states):
        """Facts about variables the loop may change do not survive it."""
        roots = written(loop)
        return {(b, frozenset(i for i in f if not clash(self.vars(i[0]), roots)))
                for b, f in states}


def chain_text(x):
    """`a.b.c` of a name or attribute chain (through subscripts), else None."""
    parts = []
    while isinstance(x, (ast.Attribute, ast.Subscript)):
        if isinstance(x, ast.Attribute):
            parts.append(x.attr)
        else:
            parts = []
        x = x.value
    if not isinstance(x, ast.Name):
        return None
    return ".".join([x.id] + parts[::-1])


def chains(tree):
    """Maximal attribute chains an expression reads."""
    out, inner = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Name, ast.Attribute)) and n not in inner:
            t = chain_text(n)
            if t is not None:
                out.add(t)
                x = n
                while isinstance(x, ast.Attribute):
                    x = x.value
                    inner.add(x)
    return frozenset(out)


def written(tree):
    """Attribute chains a statement or target assigns."""
    out = set()
    for x in ast.walk(tree):
        if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)) \
                and isinstance(getattr(x, "ctx", None), (ast.Store, ast.Del)):
            t = chain_text(x)
            if t is not None:
                out.add(t)
    return out


def clash(reads, writes):
    for r in reads:
        for w in writes:
            if r == w or r.startswith(w + ".") or w.startswith(r + "."):
                return True
    return False


@functools.lru_cache(maxsize=None)
def local_names(fn):
    """Local variables of a function: assigned in it and not global/nonlocal."""
    out = stored_names(fn)
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out -= set(n.names)
    return frozenset(out)


# -------------------------------------------------------------- format strings
def format_need(fmt):
    """(number of positional fields, names) of a str.format template, or None."""
    try:
        fields = list(string.Formatter().parse(fmt))
    except ValueError:
        return None
    n, auto, names = 0, 0, set()
    for _, name, spec, _ in fields:
        if name is None:
            continue
        if spec and "{" in spec:
            return None
        head = name.split(".")[0].split("[")[0]
        if head == "":
            auto += 1
        elif head.isdigit():
            n = max(n, int(head) + 1)
        else:
            names.add(head)
    return max(n, auto), names


def percent_need(fmt):
    """Number of values a %-template takes, or None (mapping or star)."""
    import re
    n = 0
    for mt in re.finditer(r"%(\(\w+\))?[#0\- +]*(\*|\d+)?(\.(\*|\d+))?[hlL]?(.)", fmt):
        if mt.group(1) or mt.group(2) == "*" or mt.group(4) == "*":
            return None
        if mt.group(5) == "%":
            continue
        n += 1
    return n

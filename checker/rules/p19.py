"""P19: what the code refers to exists.

Resolution of every reference in the modules the package's import graph reaches:
 names       every name read is bound in its function, an enclosing scope, the
             module, a star import or the builtins;
 assigned    no path reads a local before any statement bound it;
 attributes  every attribute read from the receiver of a method is bound by some
             class that receiver can have; every attribute of any other object is
             one that something in the program or its libraries has;
 modules     every attribute of an imported module, and every imported name,
             exists in that module;
 calls       the arguments of every call whose callee the source determines fit
             the parameters of the callee, and results are unpacked into as many
             names as are returned;
 messages    every error is raised (not built and dropped) and every message is
             built from as many values as its template asks for.
"""
import ast
import symtable

from program import ClassInfo, FuncInfo, ModuleInfo, decorator_name
from resolve import (Names, Sig, Unassigned, keeps_signature, local_names, BUILTINS,
                     format_need, percent_need, prune)


def run(ctx):
    ctx.rule("names", "every name read is bound in a scope that reaches it", 200)
    ctx.rule("assigned", "no path reads a local variable before a statement binds it", 200)
    ctx.rule("attributes", "every attribute read is bound by a class the object can have", 150)
    ctx.rule("modules", "every attribute of an imported module and every imported name exists", 30)
    ctx.rule("calls", "arguments and unpacking of every resolved call fit its callee", 200)
    ctx.rule("messages", "errors are raised and message templates get the values they ask for", 50)
    names = Names(ctx.p)
    skipped = sorted(set(ctx.p.modules) - names.live)
    ctx.assumptions.append(
        "modules outside the package's import graph are not part of the program: "
        + ", ".join(skipped))
    for m in names.modules():
        prune(m.tree)
    for m in names.modules():
        Module(ctx, names, m).run()
    concrete(ctx, names)
    initialised(ctx, names)
    roles(ctx, names)
    documented(ctx, names)
    overrides(ctx, names)


def concrete(ctx, n):
    """Every class that is instantiated has what the methods it inherits ask of it."""
    ctx.rule("inherited", "every class that is instantiated binds what the methods it "
             "inherits read from their receiver", 60)
    made = set()
    for m in n.modules():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)):
                e = n.entity(m, x.func)
                if isinstance(e, ClassInfo):
                    made.add(e)
    exported = n.globals_of("bayespy.nodes") or set()
    for m in n.modules():
        for c in m.all_classes:
            leaf = n.descendants(c) == [c]
            if not (c in made or c.name in exported or leaf) or n.open_class(c):
                continue
            have = n.attrs_of(c)
            mro = n.p.mro(c)
            linked = any(k.name in ("Stochastic", "Deterministic") for k in mro)
            seen, missing = set(), []
            for k in mro:
                for name, f in k.methods.items():
                    if name in seen:
                        continue
                    seen.add(name)
                    if k is c or f.kind == "static":
                        continue
                    me = n._first_arg(f.node)
                    if me is None or rebound(f.node, me, f.node):
                        continue
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) \
                                and isinstance(x.value, ast.Name) and x.value.id == me \
                                and x.attr not in have and n.has_attr(k, x.attr) \
                                and x.attr not in n.outside and not x.attr.startswith("__"):
                            # what only a link to parents uses is idle without parents
                            holds = False if linked or name != "_message_to_parent" else None
                            missing.append(("%s of %s" % (x.attr, f.qual), holds,
                                            "%s has no %r, which %s reads (line %d)"
                                            % (c.name, x.attr, f.qual, x.lineno)))
            construct = "%s:%s" % (m.rel.replace("bayespy/", "", 1), c.name)
            where = "%s:%d" % (m.rel, c.node.lineno)
            missing = dedup(missing)
            if not missing:
                ctx.ok("inherited", construct, "", where)
            for key, holds, detail in missing:
                ctx.verdict("inherited", "%s: %s" % (construct, key), holds, detail, where)


# extension points whose parameters are the class's own: the caller passes what
# get_instance_conversion_kwargs of the same class returns, or the arrays a value of the
# class consists of
OWN_PARAMETERS = {"from_values", "get_instance_converter"}


def overrides(ctx, n):
    """A method takes every call the method it overrides takes."""
    ctx.rule("overrides", "an overriding method takes every call the overridden one takes", 150)
    for m in n.modules():
        for c in m.all_classes:
            for name, f in sorted(c.methods.items()):
                if name.startswith("__") or name == "_constructor" \
                        or f.kind in ("property", "setter") or not keeps_signature(f.node):
                    continue
                base = next((k.methods[name] for k in n.p.mro(c)[1:] if name in k.methods),
                            None)
                if base is None or base.kind in ("property", "setter") \
                        or not keeps_signature(base.node):
                    continue
                a = Sig.of(f.node, f.kind != "static")
                b = Sig.of(base.node, base.kind != "static")
                if a is None or b is None:
                    continue
                why = None
                req = [q for q in b.params if q[1] in "pa" and not q[2]]
                opt = [q[0] for q in b.params if q[1] in ("a", "k") and q[2]]
                calls = []
                if not any(q[1] == "*" for q in b.params):
                    head = ["x"] * len(req)
                    calls = ["f(%s)" % ", ".join(head)]
                    calls += ["f(%s)" % ", ".join(head + [o + "=x"]) for o in opt]
                for t in calls:
                    why = why or a.accepts(ast.parse(t).body[0].value)
                construct = "%s:%s" % (m.rel.replace("bayespy/", "", 1), f.qual)
                where = "%s:%d" % (m.rel, f.node.lineno)
                own = name in OWN_PARAMETERS or name.startswith("compute_fixed_moments") \
                    and any(q[0] == "Lambda" for q in a.params)
                if not why:
                    ctx.ok("overrides", construct, "", where)
                elif not own:
                    ctx.bad("overrides", construct, "unlike %s: %s" % (base.qual, why), where)
            # what the class hands out for conversion is what its converter takes
            give, take = c.methods.get("get_instance_conversion_kwargs"), None
            for k in n.p.mro(c):
                take = take or k.methods.get("get_instance_converter")
            if give is None or take is None:
                continue
            keys = returned_keys(give.node)
            if keys is None:
                continue
            sig = Sig.of(take.node, True)
            why = sig.accepts(ast.parse("f(%s)" % ", ".join(
                k + "=x" for k in sorted(keys))).body[0].value)
            ctx.verdict("overrides", "%s:%s conversion" % (m.rel.replace("bayespy/", "", 1),
                                                            c.name), not why,
                        "%s gives %s; %s: %s" % (give.qual, sorted(keys), take.qual, why),
                        "%s:%d" % (m.rel, give.node.lineno))


def returned_keys(fn):
    """Keys of the dict(...) display every return gives, or None."""
    out = None
    for x in own_nodes(fn):
        if isinstance(x, ast.Return):
            v = x.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
                    and v.func.id == "dict" and not v.args \
                    and all(k.arg for k in v.keywords):
                ks = {k.arg for k in v.keywords}
            elif isinstance(v, ast.Dict) and all(isinstance(k, ast.Constant) for k in v.keys):
                ks = {k.value for k in v.keys}
            else:
                return None
            if out is not None and out != ks:
                return None
            out = ks
    return out


def documented(ctx, n):
    """Every object the documentation lists exists under the name it lists, and so does
    every name the package takes from itself for its users."""
    import glob
    import os
    import re
    ctx.rule("documented", "every object the documentation lists exists under that name", 40)
    seen = set()
    texts = sorted(glob.glob(os.path.join(n.p.repo, "doc", "source", "**", "*.rst"),
                             recursive=True))
    docs = []
    for path in texts:
        with open(path, encoding="utf-8") as f:
            docs.append((os.path.relpath(path, n.p.repo), f.read()))
    for m in n.modules():
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Module, ast.ClassDef)):
                d = ast.get_docstring(x)
                if d and "autosummary" in d:
                    docs.append((m.rel, d))
    for rel, text in docs:
        cur, inside, indent = "", False, 0
        for line in text.splitlines():
            mt = re.match(r"\s*\.\. (currentmodule|module|automodule):: (\S+)", line)
            if mt:
                cur, inside = mt.group(2), False
                continue
            mt = re.match(r"(\s*)\.\. autosummary::", line)
            if mt:
                inside, indent = True, len(mt.group(1))
                continue
            if not inside or not line.strip():
                continue
            if len(line) - len(line.lstrip()) <= indent:
                inside = False
                continue
            name = line.strip().lstrip("~").split()[0]
            if name.startswith(":") or not re.fullmatch(r"[\w.]+", name):
                continue
            full = name if name.startswith("bayespy") or not cur else cur + "." + name
            if full in seen or not full.startswith("bayespy"):
                continue
            seen.add(full)
            holds = exists(n, full)
            ctx.verdict("documented", full, holds, "%s lists %s, which does not exist"
                        % (rel, full), rel)


def exists(n, dotted):
    parts = dotted.split(".")
    for i in range(len(parts), 0, -1):
        mod = n.p.modules.get(".".join(parts[:i]))
        if mod is None:
            continue
        rest = parts[i:]
        if not rest:
            return True
        have = n.globals_of(mod.name)
        if have is None:
            return None
        if rest[0] not in have:
            return False
        r = n.p._lookup_in_module(mod.name, rest[0], set())
        if isinstance(r, ClassInfo) and len(rest) == 2:
            return rest[1] in n.attrs_of(r) or rest[1] in dir(object) or n.open_class(r)
        return True if len(rest) == 1 else None
    return None


def made_classes(ctx, n, m, fn, base):
    """Classes below `base` the function makes an object of."""
    out = []
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)):
            e = n.entity(m, x.func)
            if isinstance(e, ClassInfo) and any(k.name == base for k in n.p.mro(e)) \
                    and e not in out:
                out.append(e)
    return out


def asked(n, fn):
    """Attribute names the function asks of self.parents / self.children elements,
    of self._distribution and of self._moments."""
    me = n._first_arg(fn)
    tested = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name)
                 and x.func.id in ("hasattr", "isinstance", "getattr", "callable")
                 for x in ast.walk(fn))
    out = {"parents": {}, "children": {}, "_distribution": {}, "_moments": {}}
    if tested or me is None:
        return out
    elems = {}

    def role(e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) \
                and e.func.id in ("enumerate", "reversed", "list", "tuple", "iter") and e.args:
            r = role(e.args[0])
            return (r[0], r[1] + (1 if e.func.id == "enumerate" else 0)) if r else None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) \
                and e.value.id == me and e.attr in ("parents", "children"):
            return (e.attr, 0)
        return None

    def bind(t, r):
        if r is None:
            return
        if r[1] and isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 2:
            t = t.elts[1]
        elif r[1]:
            return
        if r[0] == "children" and isinstance(t, (ast.Tuple, ast.List)):
            t = t.elts[0]
        if isinstance(t, ast.Name):
            elems.setdefault(t.id, set()).add(r[0])

    stores = {}
    for x in ast.walk(fn):
        if isinstance(x, (ast.For, ast.comprehension)):
            bind(x.target, role(x.iter))
            for y in ast.walk(x.target):
                if isinstance(y, ast.Name):
                    stores[y.id] = stores.get(y.id, 0)
        elif isinstance(x, ast.Assign):
            for y in x.targets:
                for z in ast.walk(y):
                    if isinstance(z, ast.Name):
                        stores[z.id] = 1
    calls = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Call):
            calls[x.func] = x

    def note(r, x):
        e = out[r].setdefault(x.attr, (x.lineno, []))
        if x in calls:
            e[1].append(calls[x])

    for x in ast.walk(fn):
        if not (isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)):
            continue
        v = x.value
        if isinstance(v, ast.Name) and len(elems.get(v.id, ())) == 1 \
                and not stores.get(v.id):
            note(next(iter(elems[v.id])), x)
        if isinstance(v, ast.Subscript) and role(v.value) == ("parents", 0) \
                and not isinstance(v.slice, ast.Slice):
            note("parents", x)
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) \
                and v.value.id == me and v.attr in ("_distribution", "_moments"):
            note(v.attr, x)
    return out


def lacks(n, c, attr, uses):
    """Why class c does not answer what is asked of attribute attr, or ""."""
    if attr.startswith("__") or attr in n.outside:
        return ""
    if attr not in n.attrs_of(c):
        return "%s has none" % c.name
    for k in n.p.mro(c):
        if attr in k.methods:
            f = k.methods[attr]
            if not keeps_signature(f.node) or f.kind in ("property", "setter"):
                return ""
            sig = Sig.of(f.node, f.kind != "static")
            for call in uses:
                why = sig.accepts(call) if sig else ""
                if why:
                    return "%s does not take these arguments: %s" % (f.qual, why)
            return ""
        if attr in n._attr.get(k, ()):
            return ""
    return ""


def roles(ctx, n):
    """Nodes have what their parents and children ask of them; the distribution and the
    moments a node is built with have what the node asks of them."""
    ctx.rule("roles", "parents, children, distribution and moments of a node have what the "
             "node asks of them", 40)
    node = n.p.classes.get("Node")
    if node is None:
        return
    leaves_ = []
    for m in n.modules():
        for c in m.all_classes:
            mro = n.p.mro(c)
            if node in mro and n.descendants(c) == [c] and not n.open_class(c):
                leaves_.append((m, c))
    cache = {}

    def ask(f):
        if f.node not in cache:
            cache[f.node] = asked(n, f.node)
        return cache[f.node]

    # what every node is asked by its neighbours, by methods every node has
    for role in ("children", "parents"):
        need = {}
        for k in n.p.mro(node):
            for f in k.methods.values():
                for a, use in ask(f)[role].items():
                    need.setdefault(a, []).append((f, use))
        other = {"children": ("Stochastic", "Deterministic"), "parents": ("Node",)}[role]
        for m, c in leaves_:
            if not any(k.name in other for k in n.p.mro(c)):
                continue
            for a, uses in sorted(need.items()):
                answer(ctx, n, "%s as one of %s: %s" % (c.name, role, a), c, a, uses, role)
    # what a node class asks of its own distribution and moments
    for m, c in leaves_:
        for role, base, makers in (("_distribution", "Distribution", ("_constructor",)),
                                   ("_moments", "Moments", ("_constructor", "__init__"))):
            made = []
            for k in n.p.mro(c):
                got = [k.methods[x] for x in makers if x in k.methods]
                for f in got:
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Assign) and any(
                                chain(t).endswith(role) or chain(t) == role[1:]
                                for t in x.targets):
                            made += made_classes(ctx, n, f.module, x.value, base)
                if got:
                    break
            need, seen = {}, set()
            for k in n.p.mro(c):
                for name, f in k.methods.items():
                    if name not in seen:
                        seen.add(name)
                        for a, use in ask(f)[role].items():
                            need.setdefault(a, []).append((f, use))
            for d in made:
                if n.open_class(d):
                    continue
                for a, uses in sorted(need.items()):
                    answer(ctx, n, "%s of %s: %s" % (d.name, c.name, a), d, a, uses, role)


def answer(ctx, n, construct, c, attr, uses, role):
    for f, (line, calls) in uses:
        why = lacks(n, c, attr, calls)
        if why:
            ctx.bad("roles", construct, "%s asks its %s for %r: %s"
                    % (f.qual, role, attr, why), "%s:%d" % (f.module.rel, line))
            return
    ctx.ok("roles", construct, "", uses[0][0].module.rel)


def chain(t):
    from resolve import chain_text
    return chain_text(t) or ""


class _Flat(ast.NodeTransformer):
    """self.x as a variable of its own."""

    def __init__(self, me):
        self.me = me

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Name) and n.value.id == self.me:
            return ast.copy_location(ast.Name(self.me + "." + n.attr, n.ctx), n)
        return n


def initialised(ctx, n):
    """An attribute only the constructor binds, and a method reads whatever the state,
    is bound on every path through the constructor."""
    import copy
    ctx.rule("initialised", "what only the constructor binds and a method always reads is "
             "bound on every path through the constructor", 20)
    for m in n.modules():
        for c in m.all_classes:
            f = c.methods.get("__init__")
            if f is None or n.open_class(c):
                continue
            me = n._first_arg(f.node)
            mine, elsewhere = set(), set(n.outside) | set(c.attrs) | set(c.methods)
            for k in set(n.descendants(c)) | set(n.p.mro(c)):
                if k is not c:
                    elsewhere |= n._attr[k]
            for g in c.methods.values():
                bound = {x.attr for x in ast.walk(g.node)
                         if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
                         and isinstance(x.value, ast.Name)
                         and x.value.id == n._first_arg(g.node)}
                if g is f:
                    mine |= bound
                else:
                    elsewhere |= bound
            construct = "%s:%s" % (m.rel.replace("bayespy/", "", 1), c.name)
            where = "%s:%d" % (m.rel, f.node.lineno)
            bad = []
            for a in sorted(mine - elsewhere):
                readers = [g for g in c.methods.values() if g is not f
                           and always_reads(g.node, n._first_arg(g.node), a)]
                if not readers:
                    continue
                flat = _Flat(me).visit(copy.deepcopy(f.node))
                u = Unassigned(flat, {me + "." + a})
                u.run()
                if u.over:
                    bad.append((a, None, "too many paths to follow"))
                    continue
                loose = [st for st in u.exits if me + "." + a not in st[0]]
                if loose:
                    bad.append((a, False, "%s leaves %r unbound on a path; %s reads it"
                                % (f.qual, a, readers[0].qual)))
            if not bad:
                ctx.ok("initialised", construct, "", where)
            for key, holds, detail in bad:
                ctx.verdict("initialised", "%s: %s" % (construct, key), holds, detail, where)


def always_reads(fn, me, attr):
    """Does the method read the attribute whatever the state of its object?  Loops are
    taken to run; a branch counts only by its test, and an early exit whose test looks at
    the object ends the search."""
    if me is None:
        return False

    def eager(e):
        lazy = set()
        for x in ast.walk(e):
            if isinstance(x, ast.BoolOp):
                for v in x.values[1:]:
                    lazy |= set(ast.walk(v))
            if isinstance(x, ast.IfExp):
                lazy |= set(ast.walk(x.body)) | set(ast.walk(x.orelse))
            if isinstance(x, (ast.Lambda, ast.FunctionDef)):
                lazy |= set(ast.walk(x))
        return [x for x in ast.walk(e) if x not in lazy]

    def hit(e):
        return any(isinstance(x, ast.Attribute) and x.attr == attr
                   and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name)
                   and x.value.id == me for x in eager(e))

    def block(stmts):
        """True: read; None: the search ends; False: go on."""
        for st in stmts:
            if isinstance(st, ast.If):
                if hit(st.test):
                    return True
                if any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue))
                       for x in ast.walk(st)) \
                        and any(isinstance(x, ast.Name) and x.id == me
                                for x in ast.walk(st.test)):
                    return None
            elif isinstance(st, (ast.For, ast.While)):
                if hit(st.iter if isinstance(st, ast.For) else st.test):
                    return True
                r = block(st.body)
                if r is not False:
                    return r
            elif isinstance(st, ast.With):
                if any(hit(i.context_expr) for i in st.items):
                    return True
                r = block(st.body)
                if r is not False:
                    return r
            elif isinstance(st, (ast.Try, ast.FunctionDef, ast.ClassDef)):
                continue
            elif hit(st):
                return True
            elif isinstance(st, (ast.Return, ast.Raise)):
                return None
        return False

    return block(fn.body) is True


def functions(m):
    """(qualified name, class or None, method FunctionDef, function node) of every
    function in the module; nested functions come with their method."""
    out = []

    def walk(body, qual, cls, meth):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = qual + [st.name]
                mm = meth if meth is not None else st
                out.append((".".join(q), cls, mm, st))
                walk(st.body, q, cls, mm)
            elif isinstance(st, ast.ClassDef):
                c = next((k for k in m.all_classes if k.node is st), None)
                walk(st.body, qual + [st.name], c, None)
            else:
                for f in ("body", "orelse", "finalbody"):
                    walk(getattr(st, f, []) or [], qual, cls, meth)
                for h in getattr(st, "handlers", []) or []:
                    walk(h.body, qual, cls, meth)

    walk(m.tree.body, [], None, None)
    return out


def own_nodes(fn):
    """Nodes of a function without those of functions and classes nested in it."""
    todo = list(fn.body) + fn.args.defaults + [d for d in fn.args.kw_defaults if d]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        yield n
        todo.extend(ast.iter_child_nodes(n))


class Module:
    def __init__(self, ctx, names, m):
        self.ctx, self.n, self.m = ctx, names, m

    def where(self, node):
        return "%s:%d" % (self.m.rel, getattr(node, "lineno", 0))

    def report(self, rule, qual, problems, where):
        """One obligation per function and rule; one per distinct problem if any."""
        construct = "%s:%s" % (self.m.rel.replace("bayespy/", "", 1), qual)
        if not problems:
            self.ctx.ok(rule, construct, "", where)
        for key, holds, detail in problems:
            self.ctx.verdict(rule, "%s: %s" % (construct, key), holds, detail, where)

    def run(self):
        self.imports()
        self.scopes()
        fns = functions(self.m)
        for qual, cls, meth, fn in fns:
            self.ctx.functions.add("%s:%s" % (self.m.rel, qual))
            where = self.where(fn)
            self.report("assigned", qual, self.assigned(fn), where)
            nodes = list(own_nodes(fn))
            self.report("attributes", qual, self.attributes(cls, meth, fn, nodes), where)
            self.report("calls", qual, self.calls(cls, meth, fn, nodes), where)
            self.report("messages", qual, self.messages(nodes), where)

    # ---------------------------------------------------------------- imports
    def imports(self):
        bad = []
        pkg = self.m.name if self.m.path.endswith("__init__.py") \
            else self.m.name.rpartition(".")[0]
        guarded = set()
        for n in ast.walk(self.m.tree):
            if isinstance(n, ast.Try):
                for s in n.body:
                    guarded |= set(ast.walk(s))
        for n in ast.walk(self.m.tree):
            if n in guarded or not isinstance(n, ast.ImportFrom):
                continue
            base = n.module or ""
            if n.level:
                parts = pkg.split(".")
                parts = parts[:len(parts) - (n.level - 1)]
                base = ".".join(parts + ([n.module] if n.module else []))
            have = self.n.globals_of(base)
            if have is None:
                continue
            for a in n.names:
                if a.name != "*" and a.name not in have:
                    bad.append((a.name, False, "%s has no %s" % (base, a.name)))
        # attribute chains on modules
        for n in ast.walk(self.m.tree):
            if isinstance(n, ast.Attribute) and n not in guarded \
                    and isinstance(n.ctx, ast.Load):
                root = n.value
                while isinstance(root, ast.Attribute):
                    root = root.value
                if not isinstance(root, ast.Name) or self.shadowed(root):
                    continue
                b = self.n.entity(self.m, n.value)
                if self.n.module_has(b, n.attr) is False:
                    name = b.name if isinstance(b, ModuleInfo) else b[1]
                    bad.append(("%s.%s" % (name, n.attr), False,
                                "module %s has no %s (line %d)" % (name, n.attr, n.lineno)))
        self.report("modules", "imports", dedup(bad), self.m.rel + ":1")

    def shadowed(self, name):
        """Is the name bound locally around this use?"""
        if not hasattr(self, "_local"):
            self._local = {}
            for qual, cls, meth, fn in functions(self.m):
                loc = local_names(fn) | {a.arg for a in ast.walk(fn.args)
                                         if isinstance(a, ast.arg)}
                for x in ast.walk(fn):
                    if isinstance(x, ast.Name):
                        self._local.setdefault(x, set()).update(loc)
                        for y in ast.walk(fn):
                            break
            for x in ast.walk(self.m.tree):
                if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                                  ast.GeneratorExp)):
                    loc = {a.arg for a in ast.walk(x) if isinstance(a, ast.arg)}
                    loc |= {a.id for a in ast.walk(x) if isinstance(a, ast.Name)
                            and isinstance(a.ctx, ast.Store)}
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name):
                            self._local.setdefault(y, set()).update(loc)
        # an import inside a function is a local that denotes the module anyway
        return name.id in self._local.get(name, ()) and name.id not in self.m.imports

    # ------------------------------------------------------------------ names
    def scopes(self):
        have = self.n.globals_of(self.m.name)
        try:
            top = symtable.symtable(ast.unparse(self.m.tree), self.m.path, "exec")
        except SyntaxError:
            return

        lines = {q: self.where(f) for q, _, _, f in functions(self.m)}

        def visit(t, qual):
            bad = []
            for s in t.get_symbols():
                if not s.is_referenced() or s.is_assigned() or s.is_parameter() \
                        or s.is_imported() or s.is_free():
                    continue
                if s.is_global() or t.get_type() == "module" or not s.is_local():
                    nm = s.get_name()
                    if have is None:
                        continue
                    if nm not in have and nm not in BUILTINS:
                        bad.append((nm, False, "nothing binds the name %r" % nm))
            self.report("names", ".".join(qual) or "module", bad,
                        lines.get(".".join(qual), self.m.rel + ":1"))
            for ch in t.get_children():
                if ch.get_type() == "annotation":
                    continue
                visit(ch, qual + [ch.get_name()])

        visit(top, [])

    # --------------------------------------------------------------- assigned
    def assigned(self, fn):
        names = local_names(fn) - {a.arg for a in fn.args.args}
        if not names:
            return []
        first = Unassigned(fn, names, facts=False)
        first.run()
        if first.over:
            return [("paths", None, "too many paths to follow")]
        out = []
        for name in sorted({k[0] for k in first.found}):
            u = Unassigned(fn, {name})
            found = u.run()
            if u.over:
                out.append((name, None, "too many paths to follow"))
                continue
            chain = u.chain.get(name, set())
            cv = set()
            for t in chain:
                cv |= u.vars(t)
            for (_, line), facts in sorted(found.items()):
                sure = any(not any(u.vars(t) & cv for t in f if t not in chain)
                           for f in facts)
                out.append((name, False if sure else None,
                            "%r may be read at line %d before it is bound" % (name, line)))
        return dedup(out)

    # ------------------------------------------------------------- attributes
    def attributes(self, cls, meth, fn, nodes):
        bad = []
        me = self.receiver(cls, meth)
        for n in nodes:
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
                continue
            if me and isinstance(n.value, ast.Name) and n.value.id == me \
                    and not rebound(fn, me, meth):
                if not self.n.has_attr(cls, n.attr):
                    bad.append(("%s.%s" % (me, n.attr), False,
                                "no class of %s binds %r (line %d)"
                                % (cls.name, n.attr, n.lineno)))
            elif is_super(n.value) and cls is not None:
                if self.super_lookup(cls, n.attr) == []:
                    bad.append(("super().%s" % n.attr, False,
                                "nothing after %s in the resolution order has %r (line %d)"
                                % (cls.name, n.attr, n.lineno)))
            else:
                ent = self.n.entity(self.m, n.value) if not self.rooted_local(n) else None
                if isinstance(ent, ClassInfo) and not self.n.open_class(ent):
                    if not self.n.has_attr(ent, n.attr):
                        bad.append(("%s.%s" % (ent.name, n.attr), False,
                                    "class %s has no %r (line %d)"
                                    % (ent.name, n.attr, n.lineno)))
                        continue
                if not self.n.known_anywhere(n.attr) and self.root_bound(n):
                    bad.append((ast.unparse(n)[:60], False,
                                "no object of the program has an attribute %r (line %d)"
                                % (n.attr, n.lineno)))
        return dedup(bad)

    def root_bound(self, n):
        """The name at the root of the chain exists (else rule names reports it), and
        is not a library module the table does not cover."""
        r = n.value
        while isinstance(r, (ast.Attribute, ast.Subscript, ast.Call)):
            r = r.func if isinstance(r, ast.Call) else r.value
        if not isinstance(r, ast.Name) or self.shadowed(r):
            return True
        t = self.m.imports.get(r.id)
        if t is not None:
            return t.split(".")[0] == "bayespy" or t in self.n.ext
        have = self.n.globals_of(self.m.name)
        return have is None or r.id in have or r.id in BUILTINS or self.is_local(r)

    def is_local(self, name):
        self.shadowed(name)
        return name.id in self._local.get(name, ())

    def rooted_local(self, n):
        r = n
        while isinstance(r, ast.Attribute):
            r = r.value
        return not isinstance(r, ast.Name) or self.shadowed(r)

    def receiver(self, cls, meth):
        if cls is None or meth is None:
            return None
        if any(decorator_name(d) == "staticmethod" for d in meth.decorator_list):
            return None
        a = meth.args.posonlyargs + meth.args.args
        return a[0].arg if a else None

    def super_lookup(self, cls, name):
        """Methods `super().name` may denote; None when a base is not known."""
        out = []
        for d in self.n.descendants(cls):
            if self.n.open_class(d):
                return None
            mro = self.n.p.mro(d)
            for k in mro[mro.index(cls) + 1:]:
                if name in k.methods:
                    if k.methods[name] not in out:
                        out.append(k.methods[name])
                    break
                if name in k.attrs:
                    return None
        if not out and name in dir(object):
            return None
        return out

    # ------------------------------------------------------------------ calls
    def calls(self, cls, meth, fn, nodes):
        out = []
        for n in nodes:
            if isinstance(n, ast.Call):
                for who, why in self.call(cls, meth, fn, n):
                    out.append(("%s: %s" % (who, why), False,
                                "call at line %d: %s" % (n.lineno, why)))
            if isinstance(n, ast.Assign) and len(n.targets) == 1 \
                    and isinstance(n.targets[0], (ast.Tuple, ast.List)) \
                    and isinstance(n.value, ast.Call):
                t = n.targets[0]
                if any(isinstance(e, ast.Starred) for e in t.elts):
                    continue
                for f in self.targets(cls, meth, fn, n.value) or []:
                    k = returned(f)
                    if k is not None and len(t.elts) not in k:
                        out.append(("%s: unpacked" % ast.unparse(n.value.func), False,
                                    "%s returns %s values, %d are taken (line %d)"
                                    % (f.qual, sorted(k), len(t.elts), n.lineno)))
        return dedup(out)

    def targets(self, cls, meth, fn, call):
        """Functions of the program the call may reach; None if not determined."""
        f = call.func
        if isinstance(f, ast.Name):
            if f.id in local_names(fn) or self.shadowed(f):
                return None
            r = self.n.entity(self.m, f)
            return [r] if isinstance(r, FuncInfo) else None
        if isinstance(f, ast.Attribute):
            me = self.receiver(cls, meth)
            if is_super(f.value) and cls is not None:
                return self.super_lookup(cls, f.attr)
            if me and isinstance(f.value, ast.Name) and f.value.id == me \
                    and not rebound(fn, me, meth):
                return self.methods(cls, f.attr)
            if self.rooted_local(f):
                return None
            r = self.n.entity(self.m, f)
            if isinstance(r, FuncInfo):
                return [r]
        return None

    def methods(self, cls, name):
        if name in self.n.outside:
            return None
        out = []
        for d in self.n.descendants(cls):
            if self.n.open_class(d):
                return None
            for k in self.n.p.mro(d):
                if name in k.methods:
                    # an instance attribute of the same name hides the method
                    if k.methods[name] not in out:
                        out.append(k.methods[name])
                    break
                if name in self.n._attr.get(k, ()):
                    return None
        return out

    def call(self, cls, meth, fn, n):
        """[(callee, why)] for arguments that do not fit."""
        f = n.func
        out = []
        for t in self.targets(cls, meth, fn, n) or []:
            if t.kind in ("property", "setter") or not keeps_signature(t.node):
                continue
            drop = t.cls is not None and t.kind != "static"
            sig = Sig.of(t.node, drop)
            why = sig.accepts(n) if sig else ""
            if why:
                out.append((t.qual, why))
        # constructors
        ent = None
        if isinstance(f, (ast.Name, ast.Attribute)) and not self.rooted_local(f) \
                and not (isinstance(f, ast.Name) and f.id in local_names(fn)):
            ent = self.n.entity(self.m, f)
        if isinstance(ent, ClassInfo):
            out += self.construct(ent, n)
        elif isinstance(ent, tuple):
            head, _, last = ent[1].rpartition(".")
            s = self.n.ext.get(head, {}).get(last)
            if isinstance(s, list):
                why = Sig([tuple(p) for p in s]).accepts(n) or self.einsum(ent[1], n)
                if why:
                    out.append((ent[1], why))
            else:
                why = self.einsum(ent[1], n)
                if why:
                    out.append((ent[1], why))
        elif isinstance(f, ast.Attribute) and self.targets(cls, meth, fn, n) is None \
                and ent is None:
            why = self.duck(f, n)
            if why:
                out.append((f.attr, why))
        return out

    @staticmethod
    def einsum(name, n):
        """As many operands as the subscripts name."""
        if name != "numpy.einsum" or not n.args \
                or not isinstance(n.args[0], ast.Constant) \
                or not isinstance(n.args[0].value, str) \
                or any(isinstance(a, ast.Starred) for a in n.args):
            return ""
        left = n.args[0].value.partition("->")[0]
        k = left.count(",") + 1
        if k != len(n.args) - 1:
            return "%d subscript groups for %d operands" % (k, len(n.args) - 1)
        return ""

    def construct(self, c, n):
        if self.n.open_class(c):
            return []
        for k in self.n.p.mro(c):
            if "__new__" in k.methods:
                return []
            if "__init__" in k.methods:
                t = k.methods["__init__"]
                if not keeps_signature(t.node):
                    return []
                sig = Sig.of(t.node, True)
                why = sig.accepts(n) if sig else ""
                return [(c.name, why)] if why else []
        if n.args or n.keywords:
            if not any(isinstance(a, ast.Starred) for a in n.args) \
                    and not any(k.arg is None for k in n.keywords):
                return [(c.name, "takes no arguments")]
        return []

    def duck(self, f, n):
        """A method called on an object of unknown class: some method of that name
        has to take these arguments."""
        name = f.attr
        if name in self.n.attr_universe or name in self.n.outside:
            return ""
        cands = []
        for m in self.n.p.modules.values():
            if name in (self.n.globals_of(m.name) or ()):
                return ""
            for c in m.all_classes:
                if name in c.methods:
                    cands.append(c.methods[name])
                elif name in self.n._attr.get(c, ()):
                    return ""
        if not cands:
            return ""
        why = ""
        for t in cands:
            if not keeps_signature(t.node) or t.kind in ("property", "setter"):
                return ""
            for drop in ((False,) if t.kind == "static" else (True, False)):
                sig = Sig.of(t.node, drop)
                why = sig.accepts(n) if sig else ""
                if not why:
                    return ""
        return "no method %s takes these arguments: %s" % (name, why)

    # --------------------------------------------------------------- messages
    def messages(self, nodes):
        out = []
        for n in nodes:
            if isinstance(n, ast.Expr) and self.is_error(n.value) \
                    or isinstance(n, ast.Return) and self.is_error(n.value) \
                    and not self.makes_errors(nodes):
                out.append(("error dropped", False,
                            "%s is built but not raised (line %d)"
                            % (ast.unparse(n.value.func), n.lineno)))
            if isinstance(n, ast.Raise) and isinstance(n.exc, (ast.Name, ast.Call)):
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                if isinstance(e, ast.Name) and e.id in ("NotImplemented", "None", "True",
                                                        "False", "str", "print"):
                    out.append(("raise %s" % e.id, False,
                                "%s is not an exception (line %d)" % (e.id, n.lineno)))
            if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Constant):
                out.append(("raise constant", False,
                            "a constant is not an exception (line %d)" % n.lineno))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) \
                    and isinstance(n.func.value.value, str):
                need = format_need(n.func.value.value)
                if need is None or any(isinstance(a, ast.Starred) for a in n.args) \
                        or any(k.arg is None for k in n.keywords):
                    continue
                if need[0] > len(n.args):
                    out.append(("format: %s" % n.func.value.value[:40], False,
                                "the template takes %d values, %d are given (line %d)"
                                % (need[0], len(n.args), n.lineno)))
                miss = need[1] - {k.arg for k in n.keywords}
                if miss:
                    out.append(("format: %s" % n.func.value.value[:40], False,
                                "no value for %s (line %d)" % (sorted(miss), n.lineno)))
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) \
                    and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) \
                    and isinstance(n.right, ast.Tuple):
                k = percent_need(n.left.value)
                if k is not None and k != len(n.right.elts) \
                        and not any(isinstance(e, ast.Starred) for e in n.right.elts):
                    out.append(("%%: %s" % n.left.value[:40], False,
                                "the template takes %d values, %d are given (line %d)"
                                % (k, len(n.right.elts), n.lineno)))
        return dedup(out)

    def is_error(self, e):
        if not isinstance(e, ast.Call):
            return False
        f = e.func
        if isinstance(f, ast.Name):
            import builtins
            v = getattr(builtins, f.id, None)
            if isinstance(v, type) and issubclass(v, BaseException) \
                    and not issubclass(v, Warning):
                return True
            r = self.n.entity(self.m, f)
            if isinstance(r, ClassInfo):
                return any(b in ("Exception", "ValueError", "TypeError", "RuntimeError")
                           for k in self.n.p.mro(r) for b in k.bases
                           if isinstance(b, str))
        return False

    def makes_errors(self, nodes):
        """A helper whose every return is an error object: its caller raises it."""
        rets = [n for n in nodes if isinstance(n, ast.Return) and n.value is not None]
        return bool(rets) and all(self.is_error(r.value) for r in rets) and \
            len(rets) == len([n for n in nodes if isinstance(n, ast.Return)])


def is_super(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "super"


def rebound(fn, me, meth):
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id == me and isinstance(n.ctx, ast.Store):
            return True
        if isinstance(n, ast.arg) and n.arg == me and fn is not meth:
            return True
    return False


def returned(f):
    """Set of tuple lengths a function returns, if every return is a tuple display."""
    if f.node.decorator_list and not keeps_signature(f.node):
        return None
    out = set()
    for n in own_nodes(f.node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return None
        if isinstance(n, ast.Return):
            v = n.value
            if not isinstance(v, ast.Tuple) or any(isinstance(e, ast.Starred)
                                                   for e in v.elts):
                return None
            out.add(len(v.elts))
    return out or None


def dedup(items):
    seen, out = set(), []
    for it in items:
        if it[0] not in seen:
            seen.add(it[0])
            out.append(it)
        elif it[1] is False:
            for i, o in enumerate(out):
                if o[0] == it[0] and o[1] is None:
                    out[i] = it
    return out

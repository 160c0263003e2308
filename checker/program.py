"""Source model of the analysed program.

Parses every module of bayespy from the *current* working tree and builds the
symbol tables the analyses resolve names against: modules, imports, classes
with their C3 linearisation, functions and methods.  Nothing of the analysed
program is imported or executed.
"""
import ast
import os
import hashlib
import warnings

warnings.simplefilter("ignore", SyntaxWarning)

REPO = os.environ.get("BAYESPY_REPO", "/repo")

# Directories that are not part of the analysed program.
SKIP_DIRS = {"tests", "demos", "__pycache__"}
SKIP_FILES = {"_version.py", "testing.py"}


class AnalysisError(Exception):
    """The analysis cannot give an answer (e.g. the source does not parse)."""


class FuncInfo:
    __slots__ = ("module", "cls", "name", "node", "kind", "outer", "qual")

    def __init__(self, module, cls, name, node, kind="plain", outer=None):
        self.module = module
        self.cls = cls
        self.name = name
        self.node = node
        self.kind = kind          # plain | static | class | property | setter
        self.outer = outer
        if cls is not None:
            self.qual = "%s.%s" % (cls.name, name)
        else:
            self.qual = "%s" % name

    @property
    def where(self):
        return "%s:%s" % (self.module.rel, self.qual)

    def __repr__(self):
        return "<Func %s>" % self.where


class ClassInfo:
    __slots__ = ("module", "name", "node", "base_exprs", "methods", "setters",
                 "attrs", "_mro", "bases", "outer")

    def __init__(self, module, node, outer=None):
        self.module = module
        self.name = node.name
        self.node = node
        self.base_exprs = node.bases
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self._mro = None
        self.bases = []
        self.outer = outer

    def __repr__(self):
        return "<Class %s>" % self.name


class ModuleInfo:
    __slots__ = ("name", "path", "rel", "tree", "source", "imports", "funcs",
                 "classes", "consts", "star_imports", "all_classes")

    def __init__(self, name, path, rel, tree, source):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.source = source
        self.imports = {}       # local name -> dotted target
        self.star_imports = []
        self.funcs = {}
        self.classes = {}
        self.consts = {}
        self.all_classes = []   # incl. nested in functions


def decorator_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return ""


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self._load()
        self._link()

    # ------------------------------------------------------------------ load
    def _load(self):
        root = os.path.join(self.repo, "bayespy")
        if not os.path.isdir(root):
            raise AnalysisError("no bayespy package in %s" % self.repo)
        digest = hashlib.sha256()
        for dirpath, dirnames, filenames in sorted(os.walk(root)):
            dirnames[:] = sorted(d for d in dirnames if d not in SKIP_DIRS)
            for fn in sorted(filenames):
                if not fn.endswith(".py") or fn in SKIP_FILES:
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, self.repo)
                with open(path, encoding="utf-8") as f:
                    src = f.read()
                digest.update(rel.encode() + b"\0" + src.encode())
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as err:
                    raise AnalysisError("cannot parse %s: %s" % (rel, err))
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-len(".__init__")]
                self.modules[name] = ModuleInfo(name, path, rel, tree, src)
        self.digest = digest.hexdigest()

    def _link(self):
        for m in self.modules.values():
            self._scan_module(m)
        for m in self.modules.values():
            for c in m.all_classes:
                c.bases = [self.resolve_class_expr(m, b, c) for b in c.base_exprs]
        self.classes = {}
        for m in self.modules.values():
            for c in m.all_classes:
                # unique names are enough for this code base; the first wins,
                # nodes/ takes priority over obsolete modules
                if c.name in self.classes:
                    old = self.classes[c.name]
                    if self._rank(c.module) < self._rank(old.module):
                        self.classes[c.name] = c
                else:
                    self.classes[c.name] = c

    @staticmethod
    def _rank(m):
        obsolete = ("gp", "GaussianProcesses", "CovarianceFunctions",
                    "point_estimate", "logistic")
        last = m.name.rsplit(".", 1)[-1]
        return 1 if last in obsolete else 0

    def _scan_module(self, m):
        pkg = m.name if m.path.endswith("__init__.py") else m.name.rpartition(".")[0]

        def visit_import(n):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = pkg.split(".")
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == "*":
                        m.star_imports.append(base)
                    else:
                        m.imports[a.asname or a.name] = base + "." + a.name

        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                visit_import(n)

        def scan_class(node, outer):
            c = ClassInfo(m, node, outer)
            m.all_classes.append(c)
            self.scan_class_body(m, c, node)
            return c

        def scan(stmts, outer, top):
            for st in stmts:
                if isinstance(st, ast.ClassDef):
                    c = scan_class(st, outer)
                    if top:
                        m.classes[st.name] = c
                    for sub in st.body:
                        if isinstance(sub, (ast.FunctionDef,)):
                            scan(sub.body, sub, False)
                        elif isinstance(sub, ast.ClassDef):
                            scan_class(sub, st)
                elif isinstance(st, ast.FunctionDef):
                    if top:
                        m.funcs[st.name] = FuncInfo(m, None, st.name, st)
                    scan(st.body, st, False)
                elif isinstance(st, ast.Assign) and top:
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m.consts[t.id] = st.value
                elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for field in ("body", "orelse", "finalbody"):
                        scan(getattr(st, field, []) or [], outer, top)
                    for h in getattr(st, "handlers", []) or []:
                        scan(h.body, outer, top)

        scan(m.tree.body, None, True)

    def scan_class_body(self, m, c, node):
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                kind = "plain"
                for d in st.decorator_list:
                    dn = decorator_name(d)
                    if dn == "staticmethod":
                        kind = "static"
                    elif dn == "classmethod":
                        kind = "class"
                    elif dn == "property":
                        kind = "property"
                    elif dn == "setter":
                        kind = "setter"
                fi = FuncInfo(m, c, st.name, st, kind)
                if kind == "setter":
                    c.setters[st.name] = fi
                else:
                    c.methods[st.name] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = st.value
                        # alias of a method: name = other_method
                        if isinstance(st.value, ast.Name) and st.value.id in c.methods:
                            c.methods[t.id] = c.methods[st.value.id]

    # --------------------------------------------------------------- resolve
    def resolve_dotted(self, dotted):
        """Resolve a dotted path inside the program to Module/Class/Func."""
        if dotted in self.modules:
            return self.modules[dotted]
        head, _, last = dotted.rpartition(".")
        if not head:
            return None
        seen = set()
        return self._lookup_in_module(head, last, seen)

    def _lookup_in_module(self, modname, name, seen):
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return None
        if name in m.classes:
            return m.classes[name]
        if name in m.funcs:
            return m.funcs[name]
        if name in m.imports:
            tgt = m.imports[name]
            if tgt in self.modules:
                return self.modules[tgt]
            h, _, l = tgt.rpartition(".")
            return self._lookup_in_module(h, l, seen) if h else None
        for s in m.star_imports:
            r = self._lookup_in_module(s, name, seen)
            if r is not None:
                return r
        if modname + "." + name in self.modules:
            return self.modules[modname + "." + name]
        return None

    def resolve_name(self, m, name):
        """Resolve a module-level name seen in module m."""
        return self._lookup_in_module(m.name, name, set())

    def resolve_class_expr(self, m, expr, owner=None):
        if isinstance(expr, ast.Name):
            r = self.resolve_name(m, expr.id)
            if isinstance(r, ClassInfo):
                return r
            for c in m.all_classes:
                if c.name == expr.id and c is not owner:
                    return c
            return expr.id
        if isinstance(expr, ast.Attribute):
            parts = []
            e = expr
            while isinstance(e, ast.Attribute):
                parts.append(e.attr)
                e = e.value
            if isinstance(e, ast.Name):
                r = self.resolve_name(m, e.id)
                for p in reversed(parts):
                    if isinstance(r, ModuleInfo):
                        r = self._lookup_in_module(r.name, p, set())
                    else:
                        r = None
                if isinstance(r, ClassInfo):
                    return r
            return ast.unparse(expr)
        return ast.unparse(expr)

    def mro(self, c):
        if not isinstance(c, ClassInfo):
            return []
        if c._mro is None:
            seqs = []
            bases = [b for b in c.bases if isinstance(b, ClassInfo)]
            for b in bases:
                seqs.append(list(self.mro(b)))
            seqs.append(list(bases))
            out = [c]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    raise AnalysisError("inconsistent MRO for %s" % c.name)
                out.append(cand)
                seqs = [[x for x in s if x is not cand] for s in seqs]
                seqs = [s for s in seqs if s]
            c._mro = out
        return c._mro

    def find_method(self, cls, name, after=None):
        mro = self.mro(cls)
        if after is not None:
            if after in mro:
                mro = mro[mro.index(after) + 1:]
            else:
                mro = []
        for k in mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def find_setter(self, cls, name):
        for k in self.mro(cls):
            if name in k.setters:
                return k.setters[name]
            if name in k.methods:
                return None
        return None

    def find_class_attr(self, cls, name):
        for k in self.mro(cls):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def issub(self, cls, base):
        b = self.classes.get(base) if isinstance(base, str) else base
        return b is not None and b in self.mro(cls)

    def subclasses(self, base):
        b = self.classes[base] if isinstance(base, str) else base
        return [c for m in self.modules.values() for c in m.all_classes
                if b in self.mro(c)]

    def get_class(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisError("anchor class %s not found" % name)
        return c

    def get_method(self, clsname, name):
        f = self.find_method(self.get_class(clsname), name)
        if f is None:
            raise AnalysisError("anchor method %s.%s not found" % (clsname, name))
        return f

    def all_functions(self):
        """Every function/method incl. nested ones: (FuncInfo)."""
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.all_classes:
                for f in c.methods.values():
                    if f.cls is c:
                        yield f
                for f in c.setters.values():
                    yield f

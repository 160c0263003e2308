"""Facts about bayespy shared by the rules."""
from vg import *

SHAPE_FUNCS = {"misc." + n for n in (
    "add_trailing_axes", "add_leading_axes", "add_axes", "broadcasted_shape",
    "broadcasted_shape_from_arrays", "repeat_to_shape", "is_shape_subset",
    "broadcasting_multiplier", "sum_multiply", "sum_multiply_to_plates", "squeeze",
    "squeeze_to_dim", "moveaxis", "axes_to_collapse", "nans", "multiply_shapes",
    "sum_to_dim", "sum_to_shape", "sum_product", "multiply", "get_diag", "make_diag",
    "diag", "diagonal", "make_equal_shape", "make_equal_length", "atleast_nd",
    "nested_iterator", "write_to_hdf5", "identity", "isinteger", "is_string",
    "is_numeric", "normalized_exp", "logsumexp", "put_simple", "put", "invgamma",
    "invpsi", "gaussian_logpdf", "zipper_merge", "remove_whitespace", "safe_indices",
    "find_set_index", "chol", "chol_solve", "chol_inv", "chol_logdet", "logdet_chol",
    "logdet_cov", "logdet_tri", "m_outer", "m_dot", "m_chol", "m_solve_triangular",
    "m_chol_solve", "m_chol_inv", "m_chol_logdet", "m_digamma", "block_banded",
    "dist_haversine", "unique", "cholesky", "T", "vb_optimize", "parse_command_line_arguments")}
LINALG_FUNCS = {"linalg." + n for n in (
    "chol", "chol_solve", "chol_inv", "chol_logdet", "logdet_chol", "logdet_cov",
    "logdet_tri", "inner", "outer", "mvdot", "mmdot", "dot", "transpose", "tracedot",
    "inv", "logdet", "solve_triangular", "block_banded_solve", "inv_logdet",
    "m_dot", "_dot", "gaussian_logpdf", "symm", "diag", "trace", "cho_solve")}
RANDOM_FUNCS = {"random." + n for n in (
    "intervals", "mask", "wishart", "wishart_rand", "invwishart_rand", "covariance",
    "correlation", "gaussian_logpdf", "gaussian_entropy", "gamma_logpdf",
    "gamma_entropy", "orth", "svd", "sphere", "bernoulli", "categorical",
    "multinomial", "gamma", "dirichlet", "alpha_beta_recursion", "logodds_to_probability",
    "gaussian_gamma_to_t", "t_logpdf")}
OBSOLETE = {"bayespy.inference.vmp.nodes.gp",
            "bayespy.inference.vmp.nodes.GaussianProcesses",
            "bayespy.inference.vmp.nodes.CovarianceFunctions",
            "bayespy.inference.vmp.nodes.point_estimate",
            "bayespy.inference.vmp.nodes.logistic",
            "bayespy.discrete_example"}

UTIL = SHAPE_FUNCS | LINALG_FUNCS | RANDOM_FUNCS


def opaque_utils(program):
    """Names of all functions in bayespy.utils (canonical spelling)."""
    out = set(UTIL)
    for m in program.modules.values():
        if m.name.startswith("bayespy.utils."):
            last = m.name.rsplit(".", 1)[1]
            for f in m.funcs:
                out.add(last + "." + f)
    return out


def node_classes(p, root="Node", include_obsolete=False):
    base = p.get_class(root)
    out = [base] + list(p.subclasses(base))
    return [c for c in out if include_obsolete or c.module.name not in OBSOLETE]


SELF = None


def self_of(cls):
    return mk("self", cls.name if not isinstance(cls, str) else cls)


def called_class(p, module, node, root):
    """Classes constructed (by call) inside an AST node that derive from `root`."""
    import ast
    base = p.classes.get(root)
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            c = p.resolve_class_expr(module, n.func, None)
            if c is not None and base in p.mro(c) and c not in out:
                out.append(c)
    return out


def distribution_of(p, cls, root="Distribution"):
    """Class of the `_distribution` attribute of a node class, or None."""
    for k in p.mro(cls):
        a = k.attrs.get("_distribution")
        if a is not None:
            r = called_class(p, k.module, a, root)
            if r:
                return r[0]
        m = k.methods.get("_constructor")
        if m is not None:
            r = called_class(p, k.module, m.node, root)
            if r:
                return r[0]
    return None


def dist_types(p, cls):
    d = distribution_of(p, cls)
    return {"_distribution": d.name} if d is not None else {}


# ------------------------------------------------------------- effect queries
def method_calls(b, name, base=None):
    return [e for e in b.effects if e.kind == "call" and isinstance(e.target, T)
            and e.target.op == "bound" and e.target.a[1] == name
            and (base is None or e.target.a[0] is base)]


def stores(b, base, attr):
    return [e for e in b.effects if e.kind == "store" and e.extra == attr and e.target is base]


def loops_of(e):
    return [g for g in e.guards if g[0] == "loop"]


def conds_of(e):
    """Boolean guards (condition, polarity) of an effect."""
    return [g for g in e.guards if len(g) == 2 and isinstance(g[1], bool)]


def call_arg(e, k, name, default=None):
    """Positional-or-keyword argument of a call effect."""
    args, kw = e.extra[0], e.extra[1]
    if name in kw:
        return kw[name]
    if k is not None and k < len(args) and not any(
            isinstance(x, T) and x.op == "star" for x in args[:k + 1]):
        return args[k]
    return default


def mcall_arg(t, k, name, default=None):
    """Argument of an mcall/call term."""
    args = t.a[2] if t.op == "mcall" else t.a[1]
    kw = dict(t.a[3] if t.op == "mcall" else t.a[2])
    if name in kw:
        return kw[name]
    return args[k] if k is not None and k < len(args) else default


def nontrivial(c):
    """A filter `x is not None`."""
    if c.op == "un" and c.a[0] == "not":
        c = c.a[1]
        return c.op == "cmp" and c.a[0] in ("is", "==") and NONE in c.a
    return c.op == "cmp" and c.a[0] in ("is not", "!=") and NONE in c.a


def whole(domain, *seqs, depth=0):
    """Does iterating `domain` visit every element of one of the sequences?

    True: yes.  False: elements are provably left out (a slice, a filter, a shorter
    range).  None: not understood.  A loop left early (`until`) is None."""
    if depth > 25:
        return None
    W = lambda d: whole(d, *seqs, depth=depth + 1)
    if domain in seqs:
        return True
    if domain.op == "obj":
        return W(domain.a[0])
    if domain.op == "phi":
        a, b = W(domain.a[1]), W(domain.a[2])
        if domain.a[1] in seqs or domain.a[2] in seqs or a is False or b is False:
            return a if a == b else (False if False in (a, b) else None)
        return a if a == b else None
    if domain.op == "call" and domain.a[1]:
        n, a = domain.a[0], domain.a[1]
        if n in ("enumerate", "list", "tuple", "iter", "sorted", "reversed", "set", "frozenset",
                 "np.array", "np.asarray"):
            return W(a[0])
        if n in ("zip", "map"):
            rs = [W(x) for x in (a if n == "zip" else a[1:])]
            if False in rs:
                return False
            return True if True in rs else None
        if n in ("filter", "itertools.islice"):
            return False if any(W(x) is True for x in a) else None
        if n == "range":
            lo = const(0)
            hi = a[0]
            if len(a) >= 2:
                lo, hi = a[0], a[1]
            if len(a) == 3 and a[2] is not const(1):
                return None
            k = 0
            while hi.op == "bin" and hi.a[0] in ("-", "+") and is_const(hi.a[2]) and \
                    isinstance(hi.a[2].a[0], int):
                k += hi.a[2].a[0] if hi.a[0] == "+" else -hi.a[2].a[0]
                hi = hi.a[1]
            if hi.op == "call" and hi.a[0] == "len" and len(hi.a[1]) == 1 and is_const(lo):
                r = W(hi.a[1][0])
                if r is True:
                    return k >= 0 and lo.a[0] <= 0
                return r
            return None
    if domain.op == "sub" and domain.a[1].op == "slice":
        r = W(domain.a[0])
        lo, hi, st = domain.a[1].a
        if r is True:
            if lo in (NONE, const(0)) and hi is NONE and st in (NONE, const(1), const(-1)):
                return True
            if lo is NONE and hi is NONE:
                return False
            if is_const(lo) or is_const(hi):
                return False
            return None
        return r
    if domain.op == "mcall" and domain.a[0] in ("items", "keys", "values", "copy"):
        return W(domain.a[1])
    if domain.op in ("list", "tuple", "set") and len(domain.a) == 1:
        x = domain.a[0]
        if x.op == "star":
            return W(x.a[0])
        if x.op == "each":
            r = W(x.a[0])
            return r if x.a[2] is TRUE or r is not True or nontrivial(x.a[2]) else False
    if domain.op == "until":
        return False if W(domain.a[0]) is False else None
    return None


def each_loop_covers(domain, seq, extra=()):
    return whole(domain, seq, *extra)

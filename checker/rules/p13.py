"""P13: inference never writes into arrays it was given.

Every node class is interpreted between sources, children and user data whose arrays
and lists are marked as not to be written; the interpreter follows aliases (views,
slices, lists) and records each in-place write.  An operation is pure when it records
none.

Rules
 exchange  moments, messages, bounds, gradients and drawing leave the arrays of the
           parents, of the children and of the node itself as they are;
 update    an update leaves the arrays of the parents and of the children as they are;
 given     values, masks and parameters given by the user are not written, not by later
           operations either.
"""
import tensor as tn
import scen
import expscen
import famworld as fw
from absint import IRaise
from famworld import Fam, Any, DIMS
from rules import p08, p14, famp07
from tensor import Arr, Unsupported, ShapeError

OWN = '''
from bayespy.inference.vmp.nodes.node import Node

class Giver(Node):
    """Any stochastic node: gives its own moments and draws its own arrays."""
    _parent_moments = ()
    def __init__(self, moments, dims, plates, u, multiplier=None):
        self._moments = moments
        self.u = u
        super().__init__(dims=dims, plates=plates, plates_multiplier=multiplier)
    def _get_id_list(self):
        return [id(self)]
    def get_moments(self):
        return self.u
    def random(self):
        return self.u[0]

class Sender(Node):
    """Any child: sends its own message arrays."""
    def __init__(self, X, plates, message, mask, multiplier=None):
        self._parent_moments = (X._moments,)
        super().__init__(X, dims=(), plates=plates, plates_multiplier=multiplier)
        self.mask = mask
        self.message = message
    def _get_id_list(self):
        return [id(self)]
    def _get_message_and_mask_to_parent(self, index, u_parent=None):
        return (list(self.message), self.mask)
'''


def own_classes(w):
    env = w.it.load_source("owners", OWN)
    w.Source, w.Sink = env.vars["Giver"], env.vars["Sender"]
    return w


def freeze(w, x, label):
    if isinstance(x, Arr):
        (x.root if x.root is not None else x).frozen = label
    elif isinstance(x, (list, tuple, dict)):
        w.it.frozen[id(x)] = (x, label)
        for y in (x.values() if isinstance(x, dict) else x):
            freeze(w, y, label)
    return x


class Ops:
    """Named operations, each judged by the writes recorded while it runs."""

    def __init__(self, ctx, w, rule, name, where):
        self.ctx, self.w, self.rule, self.name, self.where = ctx, w, rule, name, where

    def run(self, what, f):
        it = self.w.it
        it.mutations = []
        lab = "%s, %s" % (self.name, what)
        err = None
        try:
            r = f()
        except (Unsupported, IRaise, ShapeError, IndexError) as e:
            r, err = None, e
        if it.mutations:
            who, where = it.mutations[0]
            self.ctx.bad(self.rule, lab, "writes into %s" % who, where)
        elif err is not None:
            self.ctx.und(self.rule, lab, "not analysed to the end: %s" % str(err)[:200])
        else:
            self.ctx.ok(self.rule, lab, self.where)
        return r


def stochastic(ctx, w, sc):
    where = ctx.class_where(sc.cls)
    with ctx.instance("exchange", sc.name):
        for masked in (False, True):
            w.reset()
            srcs, node = sc.build(w)
            for s in srcs:
                u = w.get(s.obj, "u")
                freeze(w, u, "the moments of parent %s" % s.name)
            u = sc.own(w, node)
            w.it.setattr(node, "u", u)
            phi = [w.arr("phi%d" % c, sc.plates + tuple(d)) for c, d in enumerate(sc.dims)]
            g = w.arr("g", sc.plates)
            f = w.arr("f", sc.plates)
            mask = w.arr("M", sc.plates, indicator=True) if masked else tn.lift(True)
            for nm, x in (("u", u), ("phi", phi), ("g", g), ("f", f), ("observed", mask)):
                w.it.setattr(node, nm, x)
                freeze(w, x, "its own %s" % nm)
            w.call(node, "_update_mask")
            o = Ops(ctx, w, "exchange", sc.name + (", masked" if masked else ""), where)
            us = o.run("moments of the parents", lambda: w.call(node, "_message_from_parents"))
            for j, s in enumerate(srcs):
                if j not in sc.skip:
                    o.run("message to %s" % s.name, lambda: w.call(s.obj, "_message_from_children"))
            if masked:
                continue
            o.run("lower bound", lambda: w.call(node, "lower_bound_contribution"))
            d = w.get(node, "_distribution")
            for x in us:
                freeze(w, x, "the moments of a parent")
            o.run("natural parameters", lambda: w.call(d, "compute_phi_from_parents", *us))
            o.run("log-normaliser", lambda: w.call(d, "compute_cgf_from_parents", *us))
            if getattr(sc, "dist", sc.cls) not in famp07.NO_DENSITY:
                x = freeze(w, famp07.value(w, sc, None), "the fixed value")
                o.run("fixed moments", lambda: w.call(d, "compute_fixed_moments_and_f", x))


def drawing(ctx, w, sc):
    with ctx.instance("exchange", sc.name + ", drawing"):
        w.reset()
        w.it.draws = []
        srcs, node = sc.build(w)
        phi = [w.arr("phi%d" % c, sc.plates + tuple(d)) for c, d in enumerate(sc.dims)]
        w.it.setattr(node, "phi", phi)
        freeze(w, phi, "its own phi")
        Ops(ctx, w, "exchange", sc.name, ctx.class_where(sc.cls)).run(
            "drawing", lambda: w.call(node, "random"))


def deterministic(ctx, w, sc):
    where = ctx.class_where(sc.cls)
    name = "%s: %s" % (sc.cls, sc.name)
    with ctx.instance("exchange", name):
        w.reset()
        srcs, node = p08.build(w, sc)
        for s in srcs:
            freeze(w, w.get(s.obj, "u"), "the moments of parent %s" % s.name)
        o = Ops(ctx, w, "exchange", name, where)
        u = o.run("moments", lambda: w.call(node, "get_moments"))
        dims = scen.node_dims(w, node)
        sp = w.get(node, "plates")
        axes = scen.axis_specs(w, sp)
        for pat in {axes, axes[1:], (1,) * len(axes)}:
            for masked in (False, True):
                w.reset()
                srcs, node = p08.build(w, sc)
                for s in srcs:
                    freeze(w, w.get(s.obj, "u"), "the moments of parent %s" % s.name)
                m = [w.arr("g%d" % c, tuple(pat) + scen.axis_specs(w, d), sym=sy)
                     for c, (d, sy) in enumerate(zip(dims, scen.sym_of(w, node)))]
                mask = w.arr("M", axes, indicator=True) if masked else tn.lift(True)
                freeze(w, m, "the message of the child")
                freeze(w, mask, "the mask of the child")
                w.sink(node, sp, m, mask)
                w.call(node, "_update_mask")
                o = Ops(ctx, w, "exchange", name + (", message[%s]" % ",".join(map(str, pat)))
                        + (", masked" if masked else ""), where)
                for j, s in enumerate(srcs):
                    if j not in sc.skip:
                        o.run("message to %s" % s.name,
                              lambda: w.call(s.obj, "_message_from_children"))


def given(ctx, w):
    """Sequences of operations of any exponential-family node."""
    where = ctx.class_where("Stochastic")
    seqs = [
        ("observed", [("observe", "x")]),
        ("partly observed", [("observe", "x", "mask")]),
        ("partly observed twice", [("observe", "x", "mask"), ("observe", "sample", "mask2")]),
        ("observed and withdrawn", [("observe", "x", "mask"), ("unobserve",)]),
        ("initialised from a value", [("initialize_from_value", "x")]),
        ("initialised from a draw", [("initialize_from_random",)]),
        ("initialised from the prior", [("initialize_from_prior",)]),
        ("initialised from parameters", [("initialize_from_parameters",)]),
        ("parameters set", [("set_parameters", "phi")]),
        ("only updated", [])]
    for mlab, m in fw.masks():
        if mlab not in ("elements", "columns", "rows"):
            continue
        for slab, seq in seqs:
            for pat in ({}, {n: (1,) * len(fw.P) for n in ("u_new", "phi_p", "g_p", "msg1")}):
                name = "%s, mask of %s%s%s" % (slab, mlab, ", broadcast" if pat else "", fw.label())
                with ctx.instance("given", name):
                    w.reset()
                    s = Any(w, pat, bias=True)
                    fixed = w.get(s.dist, "fixed")
                    fixed["sample"] = fixed["x"]
                    x = [w.arr("p%d" % c, fw.P + tuple(d)) for c, d in enumerate(DIMS)]
                    mask, mask2 = fw.cmask(fw.fit(m)), fw.cmask(fw.fit(fw.T))
                    for a, lab in ((s.u_fix, "the given value"), (s.f_new, "the given value"),
                                   (x, "the given parameters"), (mask, "the given mask"),
                                   (mask2, "the given mask"), (s.bias, "the given bias")):
                        freeze(w, a, lab)
                    for a, lab in ((s.g1, "a child's message"), (s.g2, "a child's message"),
                                   (s.m1, "a child's mask"), (s.m2, "a child's mask"),
                                   (s.phi_p, "parents' natural parameters"), (s.g_p, "g of parents")):
                        freeze(w, a, lab)
                    o = Ops(ctx, w, "given", name, where)
                    val = {"x": "x", "sample": "sample", "mask": mask, "mask2": mask2, "phi": x}
                    for op in seq:
                        args = [val[a] for a in op[1:]]
                        kw = {"mask": args.pop()} if op[0] == "observe" and len(args) == 2 else {}
                        o.run(op[0], lambda: w.call(s.node, op[0], *args, **kw))
                    for k, op in enumerate((("update",), ("get_riemannian_gradient",), ("update",),
                                            ("lower_bound_contribution",), ("random",),
                                            ("initialize_from_prior",), ("update",))):
                        o.rule = "update" if op[0] == "update" and not seq else "given"
                        o.run("then %s (%d)" % (op[0], k), lambda: w.call(s.node, *op))


def run(ctx):
    scen.prepare(ctx)
    ctx.rule("exchange", "moments, messages and bounds write into no array of another node or of "
             "the node's own state", floor=50)
    ctx.rule("update", "updates write into no array of parents or children", floor=10)
    ctx.rule("given", "values, masks and parameters given by the user are never written", floor=10)
    w = own_classes(scen.World(ctx))
    wd = own_classes(scen.World(ctx, sizes=p14.SIZES))
    wk = own_classes(scen.World(ctx, sizes=dict(p14.SIZES, D=3)))
    for sc in expscen.table():
        stochastic(ctx, w, sc)
        dist = getattr(sc, "dist", sc.cls)
        if dist not in p14.NO_DRAWS and sc.dims[0] != (2, 3):
            drawing(ctx, wd if dist.startswith("Gaussian") else wk, sc)
    for sc in p08.scenarios():
        deterministic(ctx, w, sc)
    f = own_classes(Fam(ctx))
    for p in fw.PLATES:
        fw.plates(p)
        given(ctx, f)
    fw.plates(fw.PLATES[0])
    ctx.functions.update(w.it.functions | f.it.functions)

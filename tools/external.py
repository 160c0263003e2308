"""Writes checker/external.json: the public surface of the libraries bayespy
imports, as tables of names and call signatures.  Run once with the interpreter
bayespy is installed in (/opt/venv/bin/python); the checks only read the table.
"""
import importlib
import inspect
import json
import os
import pkgutil
import sys

MODULES = """numpy numpy.linalg numpy.random numpy.testing numpy.lib
numpy.lib.stride_tricks numpy.core numpy.ma numpy.fft
scipy scipy.special scipy.linalg scipy.sparse scipy.sparse.linalg scipy.optimize
scipy.stats scipy.spatial scipy.spatial.distance scipy.linalg.lapack
scipy.linalg.blas scipy.linalg.decomp_cholesky
matplotlib matplotlib.pyplot matplotlib.animation matplotlib.patches
matplotlib.colors matplotlib.cm matplotlib.testing matplotlib.testing.decorators
mpl_toolkits.axes_grid1 mpl_toolkits.axes_grid1.inset_locator
h5py time datetime warnings itertools functools copy os os.path sys math operator
tempfile abc types collections inspect unittest logging string re random
importlib contextlib io struct pickle shutil platform six getopt pathlib enum
threading queue subprocess argparse textwrap traceback json csv glob fnmatch numbers
decimal fractions statistics heapq bisect array dataclasses typing weakref gc
numpy.typing numpy.exceptions numpy.polynomial concurrent.futures multiprocessing
h5py.version tqdm builtins pprint""".split()


MANUAL = {
    "zeros": "shape dtype= order= |device= like=", "empty": "shape dtype= order= |device= like=",
    "array": "object dtype= |copy= order= subok= ndmin= like=",
    "asarray": "a dtype= order= |device= copy= like=",
    "asanyarray": "a dtype= order= |device= copy= like=",
    "concatenate": "arrays axis= out= |dtype= casting=",
    "copyto": "dst src casting= where=", "dot": "a b out=", "inner": "a b",
    "where": "condition x= y=", "lexsort": "keys axis=",
}


def manual(text):
    pos, _, kw = text.partition("|")
    out = [[p.rstrip("="), "a", 1 if p.endswith("=") else 0] for p in pos.split()]
    return out + [[k.rstrip("="), "k", 1] for k in kw.split()]


def signature(f):
    import numpy as np
    if isinstance(f, np.ufunc):
        out = [["x%d" % i, "p", 0] for i in range(f.nin)]
        out += [["out", "a", 1]] + [["out%d" % i, "p", 1] for i in range(1, f.nout)]
        return out + [[k, "k", 1] for k in
                      ("where", "axes", "axis", "keepdims", "casting", "order", "dtype",
                       "subok", "signature", "extobj")]
    if getattr(np, getattr(f, "__name__", ""), None) is f and f.__name__ in MANUAL:
        return manual(MANUAL[f.__name__])
    try:
        s = inspect.signature(f)
    except (TypeError, ValueError):
        return None
    out = []
    for p in s.parameters.values():
        k = {p.POSITIONAL_ONLY: "p", p.POSITIONAL_OR_KEYWORD: "a",
             p.VAR_POSITIONAL: "*", p.KEYWORD_ONLY: "k", p.VAR_KEYWORD: "**"}[p.kind]
        out.append([p.name, k, 0 if p.default is p.empty else 1])
    return out


def main():
    table = {}
    objs = set()
    for name in MODULES:
        try:
            m = importlib.import_module(name)
        except Exception:
            continue
        names = {}
        for a in dir(m):
            try:
                v = getattr(m, a)
            except Exception:
                continue
            if inspect.ismodule(v):
                names[a] = "module:" + v.__name__
            elif inspect.isclass(v):
                names[a] = "class"
            elif callable(v):
                names[a] = signature(v)
            else:
                names[a] = "value"
        for sub in pkgutil.iter_modules(getattr(m, "__path__", []) or []):
            names.setdefault(sub.name, "module:%s.%s" % (name, sub.name))
        table[name] = names
    import numpy as np
    import scipy.sparse as sp
    types = [np.ndarray, np.dtype, np.generic, np.float64, np.ufunc, str, bytes, list,
             dict, set, frozenset, tuple, int, float, complex, bool, object, type,
             BaseException, OSError, np.random.RandomState, type(lambda: 0),
             type(abc_method), type(sys), type((i for i in [])), open(os.devnull).__class__,
             sp.csc_matrix, property, classmethod, staticmethod, range, slice]
    import h5py
    types += [h5py.File, h5py.Dataset, h5py.Group]
    import datetime
    types += [datetime.datetime, datetime.timedelta]
    import scipy.optimize
    try:
        import matplotlib.pyplot as plt
        import matplotlib.axes, matplotlib.figure, matplotlib.lines, matplotlib.animation
        import matplotlib.patches, matplotlib.image, matplotlib.collections, matplotlib.colors
        import matplotlib.axis, matplotlib.text, matplotlib.legend
        types += [matplotlib.axes.Axes, matplotlib.figure.Figure, matplotlib.lines.Line2D,
                  matplotlib.animation.FuncAnimation, matplotlib.animation.Animation,
                  matplotlib.patches.Rectangle, matplotlib.patches.Ellipse,
                  matplotlib.image.AxesImage, matplotlib.collections.QuadMesh,
                  matplotlib.collections.PathCollection, matplotlib.axis.XAxis,
                  matplotlib.text.Text, matplotlib.legend.Legend,
                  matplotlib.colors.Colormap]
    except Exception:
        pass
    for t in types:
        objs |= set(dir(t))
    # what any class of these libraries has
    for name in list(table):
        m = importlib.import_module(name)
        objs |= set(dir(m))
        for a in dir(m):
            try:
                v = getattr(m, a)
            except Exception:
                continue
            if inspect.isclass(v):
                objs |= {x for x in dir(v)}
    # matplotlib's objects, whether or not it is installed
    objs |= {"canvas", "solve_A", "savefig", "add_subplot", "add_axes", "colorbar", "draw", "flush_events",
             "set_xlim", "set_ylim", "set_xlabel", "set_ylabel", "set_title", "set_aspect",
             "set_xticks", "set_yticks", "set_xticklabels", "set_yticklabels", "imshow",
             "pcolormesh", "contour", "contourf", "fill_between", "errorbar", "get_xlim",
             "get_ylim", "get_axes", "set_data", "set_array", "tight_layout", "subplots_adjust"}
    objs |= {"x", "fun", "success", "message", "jac", "nit", "__dict__", "__name__",
             "__doc__", "__module__", "__qualname__", "__wrapped__", "__func__",
             "__self__", "real", "imag", "data", "indices", "indptr"}
    out = dict(modules=table, attributes=sorted(objs))
    dst = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       "checker", "external.json")
    with open(dst, "w") as f:
        json.dump(out, f, sort_keys=True, separators=(",", ":"))
    print(len(table), "modules", len(objs), "attributes", os.path.getsize(dst))


class _C:
    def m(self):
        pass


abc_method = _C().m
main()

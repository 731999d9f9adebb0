# -*- coding: utf-8 -*-
"""C10: copies are independent, functions do not modify their arguments."""
import copy
import itertools

import numpy as np

from mc.engine import Space, Named
from mc.labelled import hfarray, kind_of, dim_labels
from hftools.dataset import (DataBlock, DimSweep, DimRep, DimMatrix_i,
                             DimMatrix_j, DiagAxis, remove_rep,
                             make_same_dims, make_same_dims_list)
from hftools.dataset.dataset import (convert_matrices_to_elements,
                                     interpolate)
from hftools.file_formats.common import Comments
from hftools.networks.multiports import SArray, ZArray
import hftools.math as hm
import hftools.networks.spar_functions as sf

ASSUMPTIONS = ["blocks derived by view, filter, sort, squeeze share the "
               "comments by design", "views share their elements (not their structure) with the "
               "original by design"]


def fp_dim(d):
    return (kind_of(d), d.name, dim_labels(d), d.unit, d.outputformat)


def fp_array(a):
    raw = np.asarray(a)
    return dict(cls=type(a).__name__, shape=raw.shape, dtype=str(raw.dtype),
                data=raw.tolist(), dims=[fp_dim(d) for d in a.dims],
                unit=a.unit, fmt=a.outputformat, z0=getattr(a, "Z0", None))


def fp_value(v):
    if hasattr(v, "dims"):
        return fp_array(v)
    return repr(v)


def fp_comments(c):
    if c is None:
        return None
    return (list(c.fullcomments),
            sorted((k, fp_value(v)) for k, v in c.property.items()))


def fp_block(db):
    return dict(vars=[(k, fp_array(v)) for k, v in db.vardata.items()],
                ivars=[(k, fp_dim(d)) for k, d in db.ivardata.items()],
                blockname=db.blockname, xname=db.xname,
                comments=fp_comments(db.comments))


def fp(x):
    if isinstance(x, DataBlock):
        return fp_block(x)
    if isinstance(x, Comments):
        return fp_comments(x)
    return fp_array(x)


def array(which):
    f = DimSweep("f", [1., 2., 3.], unit="Hz")
    r = DimRep("r", [5, 7])
    ij = (DimMatrix_i("i", 2), DimMatrix_j("j", 2))
    if which == "vector":
        return hfarray([1., 2., 3.], dims=(f,), unit="V",
                       outputformat="%.2f")
    if which == "int":
        return hfarray([[1, 2], [3, 4], [5, 6]], dims=(f, r))
    if which == "transposed":
        return hfarray([[1., 2.], [3., 4.], [5., 6.]], dims=(f, r),
                       unit="A").transpose()
    if which == "sliced":
        return hfarray(np.arange(12.).reshape(6, 2), dims=(
            DimSweep("f", [1., 1.5, 2., 2.5, 3., 3.5]), r))[::2]
    if which == "scalar":
        return hfarray(3.5, dims=(), unit="K")
    m = hfarray(np.arange(12.).reshape(3, 2, 2) + 1j, dims=(f,) + ij)
    if which == "matrix":
        return m
    return SArray(m, Z0=75.)


ARRAYS = ["vector", "int", "transposed", "sliced", "scalar", "matrix", "S"]
COPIES = [Named("copy()", lambda a: a.copy()),
          Named("class(a)", lambda a: a.__class__(a)),
          Named("hfarray(a)", lambda a: hfarray(a)),
          Named("copy.copy", copy.copy),
          Named("copy.deepcopy", copy.deepcopy),
          Named("astype", lambda a: a.astype(complex)),
          Named("a + 0", lambda a: a + 0),
          Named("reorder copy", lambda a: a.copy().reorder_dimensions())]
VIEWS = [Named("view()", lambda a: a.view()),
         Named("hfarray(copy=False)", lambda a: hfarray(a, copy=False)),
         Named("a[...]", lambda a: a[...]),
         Named("transpose", lambda a: a.transpose())]


def _iadd(a):
    a += 1


def _imul(a):
    a *= 2


def _first(a):
    np.asarray(a)[...] = -77


def _elem(a):
    a[(0,) * a.ndim] = 55


def _dims(a):
    for d in a.dims:
        a.replace_dim(d, DiagAxis(d.name + "_new", data=d.data, unit="m"))


def _unit(a):
    a.unit = "changed"


def _fmt(a):
    a.outputformat = "%.9f"


def _slice(a):
    a[..., :1] = 9 if a.ndim else 9


DATA_MUT = [Named("+=", _iadd), Named("*=", _imul), Named("fill", _first),
            Named("a[0]=", _elem)]
STRUCT_MUT = [Named("replace_dim", _dims), Named("unit=", _unit),
              Named("outputformat=", _fmt)]


def arrays(ctx):
    which = ctx.choose("array", ARRAYS)
    how = ctx.choose("derived by", COPIES + VIEWS)
    a = array(which)
    view = how.__mc_name__ in [v.__mc_name__ for v in VIEWS]
    b = how(a)
    if not hasattr(b, "dims"):
        return
    objs = [a, b]
    if not view:
        ctx.check(not np.shares_memory(np.asarray(a), np.asarray(b)),
                  "%s shares memory" % how.__mc_name__)
    for k in range(2):
        side = ctx.choose("mutate", [0, 1])
        muts = STRUCT_MUT if view else DATA_MUT + STRUCT_MUT
        mut = ctx.choose("by", muts)
        before = fp(objs[1 - side])
        own = fp(objs[side])
        mut(objs[side])
        ctx.step()
        after = fp(objs[1 - side])
        ctx.check(after == before, lambda: "%s of the %s changed the other: "
                  "%r -> %r" % (mut.__mc_name__, ("original", "derived")[side],
                                before, after))
        ctx.state((which, how.__mc_name__, repr(fp(objs[side]))))
    ctx.observe([fp(o) for o in objs])


def shared(ctx):
    """views see changes of elements"""
    which = ctx.choose("array", [w for w in ARRAYS if w != "scalar"])
    how = ctx.choose("derived by", VIEWS)
    side = ctx.choose("mutate", [0, 1])
    a = array(which)
    b = how(a)
    objs = [a, b]
    np.asarray(objs[side])[...] = 7
    ctx.step()
    ctx.check(np.all(np.asarray(objs[1 - side]) == 7), "%s is not a view"
              % how.__mc_name__)
    ctx.state((which, how.__mc_name__, side))
    ctx.observe(side)


def block():
    f = DimSweep("f", [1., 2., 3.])
    r = DimRep("r", [5, 7])
    ij = (DimMatrix_i("i", 2), DimMatrix_j("j", 2))
    db = DataBlock()
    db.blockname = "blk"
    db.a = hfarray([1., 2., 3.], dims=(f,))
    db.Id = hfarray(np.arange(6.).reshape(2, 3), dims=(r, f),
                    outputformat="%.2f")
    db.S = hfarray(np.arange(12.).reshape(3, 2, 2) + 1j, dims=(f,) + ij)
    db.comments = Comments(["Vds = 2", "Name = abc"])
    db.comments.property["Id"] = hfarray(3.)
    return db


def m_prop(db):
    db.comments.property["Vds"] = hfarray(99.)


def m_prop_unit(db):
    db.comments.property["Vds"].unit = "kV"


def m_comment(db):
    db.comments.add_from_comments(["New = 4"])
    db.comments.extend(Comments(["Other = 5"]))


def m_values(db):
    db.values_from_property()


BLOCK_DATA = [
    Named("data of a", lambda db: _first(db.vardata["a"])
          if "a" in db.vardata else None),
    Named("data of S", lambda db: _iadd(db.vardata["S"])),
    Named("element of S", lambda db: setattr(db, "S12", hfarray(5.,
                                                                dims=())))]
BLOCK_STRUCT = [
    Named("new variable", lambda db: setattr(db, "n", hfarray(
        [1, 2], dims=(DimSweep("q", [1, 2]),)))),
    Named("overwrite a", lambda db: setattr(db, "a", hfarray(0., dims=()))),
    Named("del a", lambda db: db.__delattr__("a")),
    Named("rename a", lambda db: db.rename("a", "b")),
    Named("rename f", lambda db: db.rename("f", "freq")),
    Named("replace_dim r", lambda db: db.replace_dim("r", DimSweep)
          if "r" in db.ivardata else None),
    Named("new labels of r", lambda db: setattr(db, "r", db.r * 2)),
    Named("outputformat", lambda db: setattr(db, "outputformat", "%.7e")),
    Named("set_outputformat", lambda db: db.set_outputformat("S", "%.3f")),
    Named("guess_units", lambda db: db.guess_units()),
    Named("unit", lambda db: setattr(db.vardata["Id"], "unit", "mA")),
    Named("blockname", lambda db: setattr(db, "blockname", "other")),
    Named("xname", lambda db: setattr(db, "xname", "r")),
    Named("clear vardata", lambda db: db.vardata.clear())]
BLOCK_COMMENT = [Named("property", m_prop), Named("property unit",
                                                  m_prop_unit),
                 Named("comments", m_comment),
                 Named("values_from_property", m_values)]


def blocks(ctx):
    db = block()
    how = ctx.choose("derived by", [
        Named("copy", lambda d: d.copy()),
        Named("deepcopy", copy.deepcopy),
        Named("copy of copy", lambda d: d.copy().copy()),
        Named("copy of view", lambda d: d.view().copy()),
        Named("view", lambda d: d.view()),
        Named("filter", lambda d: d.filter(d.f < 10)),
        Named("sort", lambda d: d.sort(d.f)),
        Named("squeeze", lambda d: d.squeeze()),
        Named("keep_variables", lambda d: d.keep_variables(["a", "Id", "S"])),
        Named("interpolate", lambda d: d.interpolate(DimSweep("f", [1., 3.]))),
        Named("remove_rep", lambda d: d.remove_rep()),
        Named("elements", convert_matrices_to_elements)])
    n = how.__mc_name__
    real = n in ("copy", "deepcopy", "copy of copy", "copy of view")
    other = how(db)
    objs = [db, other]
    if n in ("copy", "deepcopy"):
        ctx.check(fp(db)["vars"] == fp(other)["vars"] and
                  fp(db)["ivars"] == fp(other)["ivars"] and
                  fp(db)["comments"] == fp(other)["comments"],
                  lambda: "%s differs from the original" % n)
    for k in range(2):
        side = ctx.choose("mutate", [0, 1])
        muts = list(BLOCK_STRUCT)
        if real:
            muts += BLOCK_DATA + BLOCK_COMMENT
        mut = ctx.choose("by", muts)
        before = fp(objs[1 - side])
        if not real:       # comments are shared by design
            before.pop("comments")
        try:
            mut(objs[side])
        except (AttributeError, KeyError, ValueError):
            pass           # e.g. a variable that is gone
        except Exception as exc:
            if type(exc).__name__ != "DataBlockError":
                raise
        ctx.step()
        after = fp(objs[1 - side])
        if not real:
            after.pop("comments")
        ctx.check(after == before, lambda: "%s of the %s block changed the "
                  "%s" % (mut.__mc_name__, ("original", n)[side],
                          [k for k in before if before[k] != after[k]]))
        ctx.state((n, side, mut.__mc_name__, k))
    ctx.observe(fp(objs[1]))


def comments(ctx):
    src = ["Vds = 2", "Name = abc", "Power1=10.00 dBm"]
    how = ctx.choose("construct", ["list", "tuple", "extend", "kw"])
    lines = list(src)
    if how == "list":
        c = Comments(lines)
    elif how == "tuple":
        c = Comments(tuple(lines))
    elif how == "extend":
        base = Comments(lines)
        c = Comments()
        c.extend(base)
    else:
        c = Comments(lines, extra=3)
    d = c.copy()
    ctx.check(fp(c) == fp(d), "copy of comments differs")
    mut = ctx.choose("mutation", [
        Named("extend", lambda x: x.extend(Comments(["Z = 1"]))),
        Named("add", lambda x: x.add_from_comments(["Y = 1"])),
        Named("append", lambda x: x.fullcomments.append("W = 2")),
        Named("property", lambda x: x.property.update(Vds=1)),
        Named("unit", lambda x: setattr(x.property["Vds"], "unit", "mV"))])
    side = ctx.choose("side", [0, 1])
    objs = [c, d]
    before = fp(objs[1 - side])
    mut(objs[side])
    ctx.step()
    ctx.check(fp(objs[1 - side]) == before, "%s of one changed the other"
              % mut.__mc_name__)
    ctx.check(lines == src, "the caller's list was modified")
    if how == "extend" and side == 0 and mut.__mc_name__ != "unit":
        ctx.check(fp(base) == fp(Comments(src)), "extended from was modified")
    ctx.state((how, mut.__mc_name__, side))
    ctx.observe(fp(objs[side]))


def calls():
    f = DimSweep("f", [1., 2., 3.], unit="Hz")
    g = DimSweep("f", [1., 2.])

    def v(a):
        return array("vector")
    vec = lambda: array("vector")
    cvec = lambda: hfarray([1 + 1j, 2j, -3.], dims=(f,), unit="V")
    mat = lambda: array("matrix")
    S = lambda: array("S")
    out = []

    def add(name, fn, *mk):
        out.append(Named(name, (fn, mk)))
    add("angle", hm.angle, cvec)
    add("angle branch", lambda x: hm.angle(x, True, 0), cvec)
    add("chop", hm.chop, cvec)
    add("dB", hm.dB, cvec)
    add("dBinv", hm.dBinv, vec)
    add("unwrap_phase", hm.unwrap_phase, cvec)
    add("continous_phase_sqrt", hm.continous_phase_sqrt, cvec)
    add("delay", hm.delay, vec, cvec)
    add("smooth", lambda x: hm.smooth(x, 3), vec)
    add("interpolate", hm.interpolate, vec, vec, vec)
    add("linear_extrapolate", hm.linear_extrapolate, vec, vec, vec)
    add("mag_angle", hm.mag_angle_to_complex, vec, vec)
    add("dB_angle", hm.dB_angle_to_complex, vec, vec)
    add("re_im", hm.re_im_to_complex, vec, vec)
    add("inv", lambda x: hm.inv(x + 5j), mat)
    add("inv transposed", lambda x: hm.inv(x.transpose() + 0), mat)
    add("det", hm.det, mat)
    add("matrix_multiply", hm.matrix_multiply, mat, mat)
    add("solve_Ab", hm.solve_Ab, mat, mat)
    add("lstsq", hm.lstsq, mat, mat)
    add("make_matrix", hm.make_matrix, vec, vec, cvec, vec)
    add("make_same_dims", make_same_dims, vec, mat)
    add("make_same_dims_list", lambda *a: make_same_dims_list(list(a)), vec,
        mat)
    add("remove_rep", remove_rep, lambda: array("int"))
    add("dataset.interpolate", lambda x: interpolate(
        DimSweep("f", [1., 3.]), x), vec)
    add("cascade", lambda a, b: a.cascade(b), S, S)
    add("deembed", lambda a, b: a.deembed(left=b), S, S)
    for k in ("cascadeS", "deembedleft", "deembedright", "switch_correct"):
        add(k, getattr(sf, k), S, S)
    for k in ("make_passive_svd", "make_passive_eig", "make_reciprocal",
              "check_passive"):
        add(k, getattr(sf, k), S)
    add("ZArray(S)", ZArray, S)
    for k in ("sum", "mean", "std", "cumsum", "squeeze", "copy"):
        add(k, lambda x, k=k: getattr(x, k)(), vec)
    for k in ("sort", "filter", "copy", "view", "squeeze", "remove_rep",
              "interpolate", "hyper", "elements", "keep_variables", "str"):
        def fn(db, k=k):
            if k == "sort":
                return db.sort(-db.f)
            if k == "filter":
                return db.filter(db.f > 1)
            if k == "interpolate":
                return db.interpolate(DimSweep("f", [3., 1.]))
            if k == "hyper":
                return db.hyper(["a"], "f")
            if k == "elements":
                return convert_matrices_to_elements(db)
            if k == "keep_variables":
                return db.keep_variables(["S"])
            if k == "str":
                return str(db)
            return getattr(db, k)()
        add("DataBlock.%s" % k, fn, block)
    return out


def pure(ctx):
    opt = ctx.choose("call", calls())
    fn, mk = opt.value
    args = [m() for m in mk]
    before = [fp(a) for a in args]
    keep = list(args)
    fn(*args)
    ctx.step()
    for k, (b, a) in enumerate(zip(before, keep)):
        ctx.check(fp(a) == b, lambda: "%s modified its argument %d"
                  % (opt.__mc_name__, k))
    ctx.state(opt.__mc_name__)
    ctx.observe(opt.__mc_name__)


def spaces(tier):
    return [Space("arrays", arrays, "arrays x ways to copy/view x sequences "
                  "of 2 mutations on either side"),
            Space("shared", shared, "views share elements"),
            Space("blocks", blocks, "blocks x ways to derive x sequences of "
                  "2 mutations on either side"),
            Space("comments", comments, "comments and their copies"),
            Space("pure", pure, "functions leave their arguments alone")]

# -*- coding: utf-8 -*-
"""Matrices of every size and name through a file format (C11, C13, C14)."""
import os

import numpy as np

from hftools.dataset import (DataBlock, hfarray, DimSweep, DimMatrix_i,
                             DimMatrix_j)

NAMES = ["S", "h2o", "S2", "x_", "_q", "M1a", "Zz"]
SIZES = [(1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (4, 4), (9, 9), (9, 10),
         (10, 9), (10, 10), (11, 11), (1, 10), (12, 2), (2, 101)]
DIMNAMES = [("i", "j"), ("m", "n"), ("j", "i")]


def space(save, read, name, squeezed=False):
    """squeezed: matrices with one row or column come back as vectors"""
    def run(ctx):
        var = ctx.choose("name", NAMES)
        rows, cols = ctx.choose("size", SIZES)
        inames = ctx.choose("matrix dims", DIMNAMES)
        kind = ctx.choose("values", ["complex", "real"])
        other = ctx.choose("other variable", [None, "P", "matrix T"])
        order = ctx.choose("order", [(0, 1, 2), (1, 2, 0)])
        f = DimSweep("freq", [1e9, 2e9], unit="Hz")
        dims = (f, DimMatrix_i(inames[0], rows), DimMatrix_j(inames[1], cols))
        n = 2 * rows * cols
        data = np.arange(n, dtype=float).reshape(2, rows, cols) + 1
        if kind == "complex":
            data = data * 1.0 + 0.5j * data[::-1]
        db = DataBlock()
        db[var] = hfarray(data, dims=dims).transpose(*order)
        if other == "P":
            db["P"] = hfarray([7., 8.], dims=(f,))
        elif other:
            db["T"] = hfarray(np.array([[[5., 6.], [7., 8.]]] * 2), dims=(
                f, DimMatrix_i("i", 2), DimMatrix_j("j", 2)))
        fn = os.path.join(ctx.tmp, name)
        for cycle in range(2):
            save(db, fn)
            db = read(fn)
            ctx.check(var in db.vardata, lambda: "%s of %dx%d came back as %r"
                      % (var, rows, cols, list(db.vardata)[:8]))
            got = db[var]
            if squeezed and 1 in (rows, cols):
                ctx.check(np.array_equal(np.asarray(got).reshape(data.shape),
                                         data), "values of %s" % var)
                ctx.step()
                break
            ctx.check([d.__class__ for d in got.dims] ==
                      [DimSweep, DimMatrix_i, DimMatrix_j],
                      lambda: "dims %r" % (got.dims,))
            ctx.check(np.array_equal(np.asarray(got), data),
                      lambda: "%s of %dx%d: %r, expected %r"
                      % (var, rows, cols, np.asarray(got), data))
            if other == "P":
                ctx.check(list(np.asarray(db["P"])) == [7., 8.], "P")
            elif other:
                ctx.check(np.array_equal(np.asarray(db["T"]), np.array(
                    [[[5., 6.], [7., 8.]]] * 2)), "T")
            ctx.step()
        ctx.state((var, rows, cols, kind, other))
        ctx.observe((var, rows, cols, kind, other))
    return run

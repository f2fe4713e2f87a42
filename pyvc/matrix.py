"""Two-dimensional arrays over symbolic values: an element function of (row, column)."""
from __future__ import annotations

import symnp
import z3
from engine import And, E, SBool, SNum, Unsupported, bt, ite, num, zint
from seq import Added, pick, same_n

BORN = None
FOLLOW = None  # what is to be checked of the columns of a matrix that is filled column by column


class Mat:
    __pyvc_matrix__ = True
    ndim = 2

    def __init__(self, rows, cols, f, kind="f8"):
        self.rows, self.cols, self.f, self.kind = rows, cols, f, kind

    @classmethod
    def of_rows(cls, rows, kind):
        if not rows:
            raise Unsupported("matrix without rows")
        return cls(len(rows), rows[0].n, lambda i, j: pick([r.at(j) for r in rows], i), kind)

    @classmethod
    def const(cls, shape, v, kind):
        return cls(shape[0], shape[1], lambda i, j: symnp.conv(v, kind), kind)

    @classmethod
    def fresh(cls, shape, kind):
        if FOLLOW is not None:
            return Ghost.start(shape, kind)
        raise Unsupported("uninitialised matrix")

    @property
    def shape(self):
        return (self.rows, self.cols)

    @property
    def dtype(self):
        return symnp.ndarray(0, lambda i: num(0), self.kind).dtype

    @property
    def T(self):
        return Mat(self.cols, self.rows, lambda i, j: self.f(j, i), self.kind)

    def __len__(self):
        raise Unsupported("native len of a matrix")

    def row(self, i):
        return symnp.ndarray(self.cols, lambda j: self.f(i, j), self.kind)

    def column(self, j):
        return symnp.ndarray(self.rows, lambda i: self.f(i, j), self.kind)

    def at(self, i):
        return self.row(i)

    @property
    def n(self):
        return self.rows

    def as_seq(self):
        return symnp.SList(self.rows, self.row, None)

    def map(self, g, kind):
        f = self.f
        return Mat(self.rows, self.cols, lambda i, j: g(f(i, j)), kind)

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2:
            a, b = i
            if isinstance(a, slice) and a == slice(None) and num(b) is not None:
                return self.column(symnp.check_index(num(b), self.cols))
            if num(a) is not None:
                r = self.row(symnp.check_index(num(a), self.rows))
                return r[b]
            raise Unsupported("indexing of a matrix")
        if num(i) is not None and not isinstance(i, SBool):
            return self.row(symnp.check_index(num(i), self.rows))
        raise Unsupported("indexing of a matrix")

    def __setitem__(self, i, v):
        raise Unsupported("assignment to a matrix")


class Ghost:
    """A matrix of which one column, standing for all, is followed; the others are arbitrary.

    Columns are only dropped, and changed one by one.  If the column is dropped
    it is still followed, as one past the end.
    """

    __pyvc_matrix__ = True
    ndim = 2

    def __init__(self, rows, cols, j, vec, dropped=False):
        self.rows, self.cols, self.j, self.vec, self.dropped = rows, cols, j, vec, dropped
        BORN(self)

    @classmethod
    def start(cls, shape, kind):
        if kind != "f8":
            raise Unsupported("uninitialised matrix")
        rows, cols = shape
        j = SNum.of_term(E.fresh("column", z3.IntSort()))
        dropped = not bool(num(cols) > 0)
        E.add((j == num(cols)).t if dropped else And((j >= 0).t, (j < num(cols)).t))
        return cls(rows, cols, j, symnp.empty(rows), dropped)

    @property
    def shape(self):
        return (self.rows, self.cols)

    def __len__(self):
        raise Unsupported("native len of a matrix")

    def by_column(self, truth):
        """One truth value per column: that of the column, arbitrary ones of the others."""
        g = E.fresh_fn("other", z3.IntSort(), z3.BoolSort())
        t, j = bt(truth), zint(self.j.term)

        def f(i):
            i = zint(num(i).term)
            return SBool(t if i.eq(j) else z3.If(i == j, t, g(i)))

        return symnp.ndarray(self.cols, f, "bool")

    def chosen(self, mask):
        if not (hasattr(mask, "__pyvc_array__") and mask.kind == "bool" and same_n(mask.n, self.cols)):
            raise Unsupported("indexing of the columns of a matrix")
        return bool(mask.at(self.j))

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], slice) and i[0] == slice(None):
            kept = self.chosen(i[1]) and not self.dropped
            cols, j = (SNum.of_term(E.fresh(nm, z3.IntSort())) for nm in ("columns", "column"))
            E.add(And((cols >= 0).t, (cols <= num(self.cols)).t, And((j >= 0).t, (j < cols).t) if kept else (j == cols).t))
            return Ghost(self.rows, cols, j, self.vec.copy(), not kept)
        if num(i) is not None and not isinstance(i, SBool):
            i = symnp.check_index(num(i), self.rows)
            g = E.fresh_fn("other", z3.IntSort(), z3.RealSort())
            x = self.vec.at(i)
            return symnp.ndarray(self.cols, lambda c: ite(num(c) == self.j, x, SNum.of_term(g(zint(num(c).term)))), "f8")
        raise Unsupported("indexing of a matrix")

    def __setitem__(self, i, v):
        if isinstance(i, symnp.Ix) and num(v) is not None:
            if self.chosen(i[1]):
                self.vec[i[0]] = v
            return
        if num(i) is not None and not isinstance(i, SBool) and hasattr(v, "__pyvc_array__"):
            if not same_n(v.n, self.cols):
                raise Unsupported("row of another length")
            self.vec[i] = v.at(self.j)
            return
        raise Unsupported("assignment to a matrix")

    @property
    def T(self):
        return Columns(self)


class Columns:
    """The columns of a matrix, as rows."""

    def __init__(self, m):
        self.m = m

    def __pyvc_comp__(self, kind, elt, conds):
        if kind != "list" or conds or FOLLOW is None:
            raise Unsupported("the columns of a matrix")
        if not self.m.dropped:
            FOLLOW(elt(self.m.vec))
        return Added(self.m.cols)

"""Two-dimensional numpy tables whose rows form symbolic families (the arrays built by meta())."""
import z3
from . import smt
from .values import *
from .npmodel import NpVec, NAN, NanT, NpFn
from .builtins_model import seg_map, collect_leaves
from .loops import subst_value, occurs, Phi


class Write:
    """rows where mask holds get value in column col"""

    def __init__(self, mask, col, value):
        self.mask, self.col, self.value = mask, col, value


class WLoop:
    """the writes of one iteration, for every var in [lo, hi) in increasing order"""

    def __init__(self, var, lo, hi, writes):
        self.var, self.lo, self.hi, self.writes = var, lo, hi, writes


class WPrefix:
    """whatever earlier iterations wrote"""


class Mask:
    """boolean vector over the rows: row[col] == rhs"""

    def __init__(self, column, rhs):
        self.column, self.rhs = column, rhs

    def subst_(self, pairs, memo):
        return Mask(self.column, subst_value(self.rhs, pairs))


class Column:
    def __init__(self, table, col):
        self.table, self.col = table, col

    def compare_(self, I, op, o, rev):
        if op != 'Eq' or not is_scalar(o):
            raise Unsupported('comparison of a table column')
        return Mask(self, o)

    def getattr_(self, I, name):
        raise Unsupported('attribute %s of a table column' % name)


class NpTable(Mut):
    mutable_ = True

    def __init__(self, segs, width, rows=None):
        super().__init__()
        self.segs, self.width = segs, width      # leaves: tuples of `width` values
        self.rows = rows or object()             # identity of the row index set
        self.log = []

    def snapshot(self):
        return list(self.log)

    def restore(self, s):
        self.log = list(s)

    def havoc_state(self, I, init, var):
        p = WPrefix()
        self.pre = p
        return list(init) + [p]

    def loop_commit(self, I, c, results, var, lo, hi):
        pre = list(c.init) + [c.placeholder[-1]]
        if len(results) != 1:
            raise Unsupported('conditional writes to a table in a loop')
        g, after, r = results[0]
        if not (len(after) >= len(pre) and all(x is y for x, y in zip(after, pre))):
            raise Unsupported('loop rewrites the history of a table')
        if r.guards:
            raise Unsupported('guarded writes to a table in a loop')
        new = list(after[len(pre):])
        self.log = list(c.init) + [WLoop(var, lo, hi, new)]

    def isinstance_(self, I, cls):
        return cls is I.natives['numpy'].attrs.get('ndarray')

    def getattr_(self, I, name):
        if name == 'shape':
            return (I.seg_count(self.segs, 0), self.width)
        if name == 'ndim':
            return 2
        if name == 'copy':
            return Native('copy', lambda I, a, k: self.dup())
        raise Unsupported('table attribute ' + name)

    def dup(self):
        t = NpTable(self.segs, self.width, self.rows)
        t.log = list(self.log)
        return t

    def len_(self, I):
        return I.seg_count(self.segs, 0)

    def binop_(self, I, op, o, rev):
        if isinstance(o, NanT) and op in ('Mult', 'Add', 'Sub', 'Div'):
            return NpTable(seg_map(self.segs, lambda r: (NAN,) * self.width), self.width, self.rows)
        raise Unsupported('arithmetic on a table')

    def col_index(self, I, c):
        k = c if isinstance(c, int) else I.try_concrete(c)
        if k is None:
            raise Unsupported('symbolic column')
        if not -self.width <= k < self.width:
            raise I.exc('IndexError', 'index out of bounds')
        return k % self.width

    def getitem_(self, I, i):
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], VSlice) and i[0].lo is None and i[0].hi is None and i[0].step is None:
            return Column(self.dup(), self.col_index(I, i[1]))
        raise Unsupported('subscript of a table')

    def setitem_(self, I, i, v):
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], Mask) and (is_scalar(v) or isinstance(v, NanT)):
            m = i[0]
            if m.column.table.rows is not self.rows:
                raise Unsupported('mask over other rows')
            I.touch(self)
            self.log.append(Write(m, self.col_index(I, i[1]), v))
            return
        raise Unsupported('write into a table')

    def subst_(self, pairs, memo):
        raise Unsupported('substitution in a table')

    # ---- reading
    def value(self, I, row, col, log=None):
        """value at column col of the row whose initial entries are `row`"""
        log = self.log if log is None else log
        for w in reversed(log):
            if isinstance(w, WPrefix):
                raise Unsupported('read of a table under construction')
            if isinstance(w, Write):
                if w.col == col and self.hits(I, w.mask, row):
                    return w.value
            else:
                ws = [x for x in w.writes if isinstance(x, Write)]
                if len(ws) != len(w.writes):
                    if any(self.touches(x, col) for x in w.writes):
                        raise Unsupported('nested loop writes')
                    continue
                ws = [x for x in ws if x.col == col]
                if not ws:
                    continue
                if len(ws) != 1:
                    raise Unsupported('several writes to one column per iteration')
                x = ws[0]
                if kind(x.mask.rhs) != 'int' or ints(x.mask.rhs).get_id() != w.var.get_id():
                    raise Unsupported('mask that does not select by the loop index')
                c = x.mask.column.table.value(I, self.base(row, x), x.mask.column.col)
                if isinstance(c, NanT):
                    continue
                if I.decide(z3.And(w.lo <= ints(c), ints(c) < w.hi)):
                    return subst_value(x.value, [(w.var, ints(c))])
        return row[col] if not isinstance(row, Row) else row.own(self)[col]

    def touches(self, x, col):
        return isinstance(x, WPrefix) or (isinstance(x, Write) and x.col == col) or (isinstance(x, WLoop) and any(self.touches(y, col) for y in x.writes))

    def base(self, row, x):
        return row

    def hits(self, I, mask, row):
        c = mask.column.table.value(I, row, mask.column.col)
        if isinstance(c, NanT):
            return False
        return I.truth(I.eq(c, mask.rhs))


class Row:
    """one row seen across aligned tables: own(table) are its initial entries there"""

    def __init__(self, by):
        self.by = by

    def own(self, table):
        return self.by(table)


def segs_path(segs, path):
    """leaf reached by following the same structural path"""
    for p in path[:-1]:
        x = segs[p[0]]
        segs = x.body if p[1] is None else x.alts[p[1]][1]
    return segs[path[-1][0]]


def leaf_paths(segs, pre=()):
    for i, x in enumerate(segs):
        if isinstance(x, For):
            yield from leaf_paths(x.body, pre + ((i, None),))
        elif isinstance(x, Cond):
            for a, (g, b) in enumerate(x.alts):
                yield from leaf_paths(b, pre + ((i, a),))
        else:
            yield pre + ((i, None),)


def read_rows(table, leaf_fn):
    """segments of the table with each leaf replaced by leaf_fn(Row)"""
    def go(segs, pre):
        out = []
        for i, x in enumerate(segs):
            if isinstance(x, For):
                out.append(For(x.var, x.lo, x.hi, go(x.body, pre + ((i, None),))))
            elif isinstance(x, Cond):
                out.append(Cond([(g, go(b, pre + ((i, a),))) for a, (g, b) in enumerate(x.alts)]))
            else:
                p = pre + ((i, None),)
                out.append(leaf_fn(Row(lambda t, p=p: segs_path(t.segs, p))))
        return out
    return go(table.segs, ())


class Cell:
    """lazily read table row, for comparison with the specification"""

    def __init__(self, table, row):
        self.table, self.row = table, row

    def __repr__(self):
        return 'row'

    def at(self, I, col):
        return self.table.value(I, self.row, col)

    def subst_(self, pairs, memo):
        row = self.row
        return Cell(self.table, Row(lambda t: tuple(subst_value(v, pairs) for v in row.own(t))))


def rows_of(table):
    return read_rows(table, lambda r: Cell(table, r))


def np_stack(I, a, k):
    seq = a[0]
    if (len(a) > 1 and a[1] != 0) or k.get('axis', 0) != 0:
        raise Unsupported('np.stack along another axis')
    items = I.domain(seq)
    ls = []
    collect_leaves(items, [], [], ls)
    w = {len(v.items) if isinstance(v, NpVec) else None for _, _, v in ls}
    if len(w) != 1 or None in w:
        if None not in w and len(w) > 1:
            # rows of different lengths: numpy raises unless the longer families are empty
            raise Unsupported('np.stack of vectors of different lengths')
        h = getattr(I, 'np_stack_hook', None)
        if h is not None:
            return h(I, a, k)
        raise Unsupported('np.stack of %r' % (seq,))
    return NpTable(seg_map(items, lambda v: tuple(v.items)), w.pop())


def np_append(I, a, k):
    def tup(v):
        if isinstance(v, NpVec):
            v = tuple(v.items)
        if isinstance(v, (tuple, VList)):
            items = I.domain(v)
        else:
            items = [v]
        if not is_concrete_items(items) or not all(is_scalar(x) or isinstance(x, NanT) for x in items):
            raise Unsupported('np.append of %r' % (v,))
        return list(items)
    if k or len(a) != 2:
        raise Unsupported('np.append with an axis')
    return NpVec(tup(a[0]) + tup(a[1]))


def counter(I, a, k):
    """collections.Counter of concrete values arranged in families: counts in order of first occurrence"""
    v = a[0] if a else ()
    items = v.items if isinstance(v, NpVec) else I.domain(v)
    ls = []
    collect_leaves(items, [], [], ls)
    if not isinstance(v, NpVec):
        from .libs import counter as plain
        return plain(I, a, k)
    vals = []
    for fors, guards, x in ls:
        if isinstance(x, Sym) or not is_scalar(x):
            x = I.try_concrete(x) if isinstance(x, Sym) else None
            if x is None:
                raise Unsupported('Counter of symbolic values')
        if x not in vals:
            vals.append(x)

    def only(segs, val):
        out = []
        for x in segs:
            if isinstance(x, For):
                b = only(x.body, val)
                if b:
                    out.append(For(x.var, x.lo, x.hi, b))
            elif isinstance(x, Cond):
                out.append(Cond([(g, only(b, val)) for g, b in x.alts]))
            elif x == val or (isinstance(x, Sym) and I.try_concrete(x) == val):
                out.append(x)
        return out
    d = VDict()
    for val in vals:
        n = I.seg_count(only(items, val), 0)
        if I.truth(I.compare('Gt', n, 0)):
            d.items[val] = n
    # values first met in a family that precedes another family of a smaller value keep that order; only increasing
    # concrete runs are accepted so that the order of first occurrence is the order of the leaves
    if vals != sorted(vals):
        raise Unsupported('Counter of interleaved families')
    order = [I.try_concrete(x) if isinstance(x, Sym) else x for _, _, x in ls]
    if order != sorted(order):
        raise Unsupported('Counter of interleaved families')
    return d


def install(I):
    A = I.natives['numpy'].attrs
    A['stack'] = NpFn('numpy.stack', np_stack)
    A['append'] = NpFn('numpy.append', np_append)
    I.natives['collections'].attrs['Counter'] = Native('Counter', counter)

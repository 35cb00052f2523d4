"""Plots."""
from symq.harness import harness
from props.common import *

BOUNDS = '1-3 rows and 2-5 classes, every table of prevalences, without order and in ascending and descending order of the first class, two plots in one session; box plots of 2-3 systems and every error table (thorough: 4 rows sorted, 6 x 6 unsorted)'
OUTSIDE = 'rows whose first values are equal or closer than 0.001 (their order is not specified); colours, limits and ticks; what matplotlib draws from the segments'


class Axes(Shared):
    """records what is drawn"""

    def __init__(self):
        self.drawn = []

    def add_collection(self, c, *a, **k):
        self.drawn.append(c)
        return c

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


def segments(e, ax):
    """((x0, y0), (x1, y1)) of every segment, in the order they are drawn"""
    out = []
    for c in ax.drawn:
        segs = c.segments if hasattr(c, 'segments') else c.get_segments()
        for s in segs:
            out.append([[s[0][0], s[0][1]], [s[1][0], s[1][1]]])
    return out


def plot(e, M, **kw):
    ax = Axes()
    e.mod('plot.qlplot').plot_line_prevalences(ax, M, **kw)
    return segments(e, ax)


def rank(e, M, order, i, m):
    """rows that come before row i when sorted by their first value"""
    return e.sum([e.ind(e.at(M, j, 0) < e.at(M, i, 0) if order == 'ascending' else e.at(M, j, 0) > e.at(M, i, 0)) for j in range(m) if j != i])


def check(e, segs, rows, label=''):
    m, n = len(rows), len(rows[0])
    e.true(label + 'one segment per class and row', len(segs) == m * n)
    if len(segs) != m * n:
        return
    segs = sorted(segs, key=lambda s: float(s[0][1])) if all(isinstance(s[0][1], (int, float, np.number)) for s in segs) else segs
    for k in range(m):
        x = 0
        for c in range(n):
            (x0, y0), (x1, y1) = segs[k * n + c]
            e.eq(label + 'height of row %d' % k, e.arr([y0, y1]), [k + 1, k + 1])
            e.eq(label + 'start of class %d row %d' % (c, k), x0, x)
            x = x + 100 * rows[k][c]
            e.eq(label + 'end of class %d row %d' % (c, k), x1, x)


def distinct(e, M, m):
    for i in range(m):
        for j in range(i):
            e.assume(e.abs(e.at(M, i, 0) - e.at(M, j, 0)) >= 0.001)


def ordered(e, M, order, m, n):
    rk = [rank(e, M, order, i, m) for i in range(m)]
    return [[e.sum([e.ind(rk[i] == k) * e.at(M, i, c) for i in range(m)]) for c in range(n)] for k in range(m)]


@harness('P39', [dict(m=1, n=2), dict(m=2, n=3), dict(m=3, n=2), dict(m=3, n=3), dict(m=3, n=4), dict(m=2, n=5)], more=[dict(m=6, n=6)])
def in_order(e, m, n):
    M = e.probs('p', m, n)
    s = e.snap(M)
    check(e, plot(e, M), [[e.at(M, i, c) for c in range(n)] for i in range(m)])
    e.unchanged('the matrix', M, s)


@harness('P39', [dict(m=m, n=n, order=o) for m, n in ((1, 2), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4)) for o in ('ascending', 'descending')], more=[dict(m=4, n=n, order=o) for n in (2, 3) for o in ('ascending', 'descending')], limit=60)
def sorted_rows(e, m, n, order):
    M = e.probs('p', m, n)
    distinct(e, M, m)
    s = e.snap(M)
    want = ordered(e, M, order, m, n)
    check(e, plot(e, M, order=order), want)
    e.unchanged('the matrix', M, s)


@harness('P39', [dict(order=[o, p], m=m) for o in ('ascending', 'descending') for p in ('ascending', 'descending') for m in (2, 3)], limit=60)
def two_plots(e, order, m, n=2):
    """sorting one matrix does not depend on the plots drawn before"""
    A, B = e.probs('p', m, n), e.probs('q', m, n)
    distinct(e, A, m)
    distinct(e, B, m)
    check(e, plot(e, A, order=order[0]), ordered(e, A, order[0], m, n), 'first: ')
    check(e, plot(e, B, order=order[1]), ordered(e, B, order[1], m, n), 'second: ')


class BoxAxes(Shared):
    def __init__(self):
        self.boxes = []

    def boxplot(self, x, *a, **k):
        self.boxes.append((x, k.get('labels', k.get('tick_labels'))))
        return {'boxes': [], 'medians': []}

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


@harness('P39', [dict(m=2, n=2), dict(m=3, n=3), dict(m=3, n=2, colors=['r', 'b'])])
def boxes(e, m, n, colors=None):
    """the boxes show the errors that were given, one box per system"""
    M = e.mat('err', m, n, lo=0)
    s = e.snap(M)
    ax = BoxAxes()
    names = ['s%d' % i for i in range(n)]
    e.mod('plot.qlplot').plot_boxes(ax, M, labels=names, colors=colors)
    e.true('one box plot', len(ax.boxes) == 1)
    if len(ax.boxes) != 1:
        return
    x, labels = ax.boxes[0]
    e.true('labels of the systems', list(labels) == names)
    e.true('shape of the errors', e.shape(x) == (m, n))
    if e.shape(x) == (m, n):
        e.eq('errors of the systems', x, s)
    e.unchanged('the errors', M, s)

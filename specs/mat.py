"""matrix vocabulary: matrices are lists of columns"""
from specs.common import *
def mulv(m, v): return [dot([c[r] for c in m], v) for r in range(len(m[0]))]
def mulm(a, b): return [mulv(a, c) for c in b]
def tr(m): return [[m[c][r] for c in range(len(m))] for r in range(len(m[0]))]
def ident(n): return [[R.of(1 if c == r else 0) for r in range(n)] for c in range(n)]
def meq(name, a, b): return [('%s[c%d r%d]' % (name, c, r), x.eq(y)) for c, (p, q) in enumerate(zip(a, b)) for r, (x, y) in enumerate(zip(p, q))]
def msame(name, a, b): return [('%s[c%d r%d]' % (name, c, r), fsame(x, y)) for c, (p, q) in enumerate(zip(a, b)) for r, (x, y) in enumerate(zip(p, q))]
def sub(m, n): return [c[:n] for c in m[:n]]
def det(m):
    n = len(m)
    if n == 1: return m[0][0]
    r = None
    for c in range(n):
        minor = [[x for k, x in enumerate(col) if k != 0] for j, col in enumerate(m) if j != c]
        t = m[c][0] * det(minor)
        if c % 2: t = -t
        r = t if r is None else r + t
    return r

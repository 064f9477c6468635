from hypothesis import strategies as st
from core import Check, Result
import spacemodel as sm


class C17(Check):
    ID = 'C17'
    RULE = ('Bounds of 1 to 3 dimensions with extents 1 to 9 (and larger) and up to 12 cells in them (corners, edges, inner), given '
            'to the six neighbourhood functions in both array orders; the result is compared with an enumeration of the adjacent '
            'cells in scan order. Non-trivial: a cell on the edge and one off it. Distinct by dimension, border, bounds and cells.')
    CASES = {'quick': 1500, 'thorough': 40000}
    PRELOAD = 'geom'
    ASSUMPTIONS = ['cells are within the given bounds',
                   'in a periodic dimension of extent 1 or 2 a wrapped cell may be listed once or repeatedly (compared as sets)']

    def strategy(self, tier):
        mins = st.one_of(st.just(0), st.integers(-12, 12), st.integers(-10**9, 10**9))
        ext = st.one_of(st.integers(3, 9), st.integers(1, 4), st.integers(1, 10**6))
        c = st.one_of(st.tuples(st.just(0), st.integers(0, 3)), st.tuples(st.just(1), st.integers(0, 10**6)))
        return st.tuples(st.integers(1, 3), st.booleans(), st.lists(mins, min_size=3, max_size=3),
                         st.lists(ext, min_size=3, max_size=3), st.lists(st.tuples(c, c, c), min_size=2, max_size=12))

    def run(self, case, pool):
        n, per, mins, exts, raw = case
        bounds = [v for k in range(3) for v in ((mins[k], exts[k]) if k < n else (0, 0))]

        def cell(c, lo, ext):
            if c[0] == 0:
                return [lo, lo + ext - 1, lo + min(1, ext - 1), lo + ext // 2][c[1]]
            return lo + c[1] % ext
        pts = [[cell(p[k], mins[k], exts[k]) if k < n else 0 for k in range(3)] for p in raw]
        out = pool.run('geom', {'do': 'nghs', 'n': n, 'bounds': bounds, 'periodic': per, 'pts': pts})[0]
        fails, edge = [], set()
        for p, (r, t, u, same) in zip(pts, out):
            exp = []
            offs = [(-1, 0, 1)] + [(-1, 0, 1) if n > k else (0,) for k in (1, 2)]
            for dz in offs[2]:
                for dy in offs[1]:
                    for dx in offs[0]:
                        q = [p[0] + dx, p[1] + dy, p[2] + dz][:n]
                        if per:
                            exp.append([mins[k] + (q[k] - mins[k]) % exts[k] for k in range(n)])
                        elif all(mins[k] <= q[k] < mins[k] + exts[k] for k in range(n)):
                            exp.append(q)
            got = [list(q) for q in zip(*r)]
            small = per and any(e < 3 for e in exts[:n])
            ok = sorted(set(map(tuple, got))) == sorted(set(map(tuple, exp))) if small else got == exp
            if not ok:
                fails.append('the neighbours of %s in %s are given as %s, expected %s' % (p[:n], bounds, got, exp))
            if t != r[::-1]:
                fails.append('in pytorch order %s gives %s, otherwise %s' % (p, t, r))
            if u != r:
                fails.append('with pytorch_order=False %s gives %s, without it %s' % (p, u, r))
            if not same:
                fails.append('the argument %s was changed' % p)
            edge.add(any(p[k] in (mins[k], mins[k] + exts[k] - 1) for k in range(n)))
        return Result(fails[:3], len(edge) == 2, ['periodic' if per else 'sticky', '%dd' % n])


CHECK = C17()

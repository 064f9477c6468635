from hypothesis import strategies as st
from core import Check, Result
import spacemodel as sm


class C16(Check):
    ID = 'C16'
    RULE = ('Bounds of 1 to 3 dimensions (origins and extents up to 10^6 in size) and up to 24 points inside, on the edges of, '
            'near and many extents beyond them, integer and real; transformed by the grid border objects and by moves in Grid, '
            'SharedGrid, ContinuousSpace and SharedCSpace, and once more from the result. Each coordinate is judged against '
            'clamping or shifting by whole extents. Non-trivial: a point inside and one outside. Distinct by bounds, border and points.')
    CASES = {'quick': 1500, 'thorough': 40000}
    PRELOAD = 'geom'
    ASSUMPTIONS = ['coordinates of unused dimensions are 0', 'an upper sticky bound is approached to within 1e-6 in continuous spaces',
                   'coordinates and bounds up to 10^6 in continuous spaces']

    def strategy(self, tier):
        def mk(t):
            n, ms, es = t
            out = []
            for k in range(3):
                out += [ms[k], es[k]] if k < n else [0, 0]
            return out
        mins = st.tuples(*[st.one_of(st.integers(-20, 20), st.just(0), st.integers(-10**6, 10**6)) for _ in range(3)])
        exts = st.tuples(*[st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 10**6)) for _ in range(3)])
        bounds = st.tuples(st.integers(1, 3), mins, exts).map(mk)
        c = st.one_of(st.tuples(st.integers(0, 3), st.integers(0, 60)),
                      st.tuples(st.just(4), st.integers(-10**9, 10**9)), st.tuples(st.just(5), st.integers(-40, 40)))
        return st.tuples(bounds, st.booleans(), st.lists(st.tuples(c, c, c), min_size=3, max_size=24))

    def run(self, case, pool):
        bounds, per, raw = case
        n = sm.dims(bounds)

        def coord(c, lo, ext, disc):
            if c[0] == 4:
                return c[1] if disc else c[1] / 1000.
            if c[0] == 5:      # whole extents away from an inner point
                x = lo + abs(c[1]) % ext + c[1] * ext
                return x if disc else (x + 0.25 if abs(x) < 1e6 else lo + 0.5)
            return sm.coord(c, lo, ext, disc)
        pts = [[coord(p[k], bounds[2 * k], bounds[2 * k + 1], True) if k < n else 0 for k in range(3)] for p in raw]
        cpts = [[float(coord(p[k], bounds[2 * k], bounds[2 * k + 1], False)) if k < n else 0. for k in range(3)] for p in raw]
        out = pool.run('geom', {'do': 'borders', 'bounds': bounds, 'periodic': per, 'pts': pts, 'cpts': cpts})[0]
        fails = []
        if out['src'] != pts:
            fails.append('a transform changes its argument')
        if out['border2'] != out['border']:
            fails.append('a transformed point is changed by transforming it again')
        for name in ('border', 'grid', 'sgrid'):
            for p, g in zip(pts, out[name]):
                if not sm.transform_ok(g, p, bounds, per, True):
                    fails.append('%s: %s goes to %s in %s' % (name, p, g, bounds))
                    break
        for name in ('cspace', 'scspace') if n > 1 else ():
            for p, g in zip(cpts, out[name]):
                if not sm.transform_ok(g, p, bounds, per, False):
                    fails.append('%s: %s goes to %s in %s' % (name, p, g, bounds))
                    break
        ins = [all(bounds[2 * k] <= p[k] < bounds[2 * k] + bounds[2 * k + 1] for k in range(n)) for p in pts]
        return Result(fails, any(ins) and not all(ins), ['periodic' if per else 'sticky', '%dd' % n])


CHECK = C16()

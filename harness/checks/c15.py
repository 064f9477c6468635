from hypothesis import strategies as st
from core import Check, Result
import spacemodel as sm


class C15(Check):
    ID = 'C15'
    POOL = 8
    SHARDS = 2
    RULE = ('Bounds of 1 to 3 dimensions, 1 to 8 ranks; the areas reported by topologies, grids, continuous spaces and value layers '
            'of both borders are compared with one another and checked to tile the bounds, and random local points to lie in '
            'them. Non-trivial: at least 2 ranks. Distinct by bounds and number of ranks.')
    CASES = {'quick': 450, 'thorough': 6000}
    PRELOAD = 'geom'
    MAX_CASES = 250
    ASSUMPTIONS = ['random points, spaces and layers: extents are at least the number of ranks in the dimension']

    def strategy(self, tier):
        mins = st.tuples(*[st.one_of(st.just(0), st.integers(-30, 30), st.integers(-10**6, 10**6)) for _ in range(3)])
        exts = st.tuples(*[st.one_of(st.integers(1, 40), st.integers(8, 30)) for _ in range(3)])
        return st.tuples(st.one_of(st.integers(1, 8), st.integers(3, 8)), st.integers(1, 3), mins, exts, st.integers(0, 1),
                         st.integers(0, 10**6))

    def run(self, case, pool):
        size, n, mins, exts, buffer, seed = case
        bounds = [v for k in range(3) for v in ((mins[k], exts[k]) if k < n else (0, 0))]
        small = any(e < size for e in exts[:n])
        res = pool.run('geom', {'do': 'areas', 'bounds': bounds, 'small': small, 'buffer': buffer, 'seed': seed, 'draws': 12}, size)
        fails = []
        lbs = []
        for r in res:
            lb = r['lb']['topo sticky']
            lbs.append(lb)
            for what, o in r['lb'].items():
                if o != lb:
                    fails.append('rank %d: the area of a %s is %s, of a topology %s' % (r['rank'], what, o, lb))
            if lb[2 * n:] != [0, 0] * (3 - n):
                fails.append('rank %d: local bounds %s of %s' % (r['rank'], lb, bounds))
            if r['ppd'] != res[0]['ppd'] or len(r['ppd']) != n or len(r['coords']) != n:
                fails.append('process grids %s %s' % (r['ppd'], r['coords']))
            for p in r['gpts'] + r['cpts']:
                if not all(lb[2 * k] <= p[k] < lb[2 * k] + lb[2 * k + 1] if k < n else p[k] == 0 for k in range(3)):
                    fails.append('rank %d: random point %s is not in %s' % (r['rank'], p, lb))
                    break
        prod = 1
        for v in res[0]['ppd']:
            prod *= v
        if prod != size:
            fails.append('%s processes per dimension for %d ranks' % (res[0]['ppd'], size))
        # the areas tile the bounds: inside, pairwise disjoint, same total size
        tot = 0
        for i, lb in enumerate(lbs):
            v = 1
            for k in range(n):
                v *= lb[2 * k + 1]
                if lb[2 * k + 1] < 0 or (lb[2 * k + 1] and not (bounds[2 * k] <= lb[2 * k] and lb[2 * k] + lb[2 * k + 1] <= bounds[2 * k] + bounds[2 * k + 1])):
                    fails.append('area %s of rank %d is not within %s' % (lb, i, bounds))
            tot += v
            for j in range(i):
                if all(max(lb[2 * k], lbs[j][2 * k]) < min(lb[2 * k] + lb[2 * k + 1], lbs[j][2 * k] + lbs[j][2 * k + 1]) for k in range(n)):
                    fails.append('areas %s of rank %d and %s of rank %d overlap' % (lb, i, lbs[j], j))
        vol = 1
        for k in range(n):
            vol *= bounds[2 * k + 1]
            e = [lb[2 * k + 1] for lb in lbs]
            if max(e) - min(e) > 1:
                fails.append('extents %s in dimension %d' % (e, k))
        if tot != vol:
            fails.append('the areas %s cover %d of the %d cells of %s' % (lbs, tot, vol, bounds))
        return Result(fails[:4], size > 1, ['%dd' % n, '%d ranks' % size] + (['small'] if small else []))


CHECK = C15()

from hypothesis import strategies as st
from core import Check, Result
import worldmodel as wm


def merge(outs, directed):
    """The global picture after each step; None where ranks disagree."""
    res, bad = [], []
    for k in range(len(outs[0])):
        g = {'agents': {}, 'edges': {}, 'layer': {}, 'sensed': {}}
        for r, o in enumerate(outs):
            for a in o[k]['snap']['agents']:
                if tuple(a[0]) in g['agents']:
                    bad.append('after step %d agent %s is local on several ranks' % (k, a[0]))
                g['agents'][tuple(a[0])] = a[1:]
            for u, v, d in o[k]['snap'].get('edges', ()):
                key = (tuple(u), tuple(v)) if directed else tuple(sorted((tuple(u), tuple(v))))
                if g['edges'].setdefault(key, d) != d:
                    bad.append('after step %d edge %s has attributes %s on one rank and %s on another' % (k, key, g['edges'][key], d))
            for c, v in o[k]['snap'].get('layer', ()):
                g['layer'][tuple(c)] = v
            for u, o_, v in o[k]['log']:
                g['sensed'][tuple(u)] = [o_, v]
        res.append(g)
    return res, bad


class C31(Check):
    ID = 'C31'
    POOLS = {'quick': [5, 5, 8], 'thorough': [5, 8, 8]}
    CASES = {'quick': 260, 'thorough': 6000}
    PRELOAD = 'indep'
    TIMEOUT = 30
    RULE = ('A model defined without reference to ranks (agents sense the agents and layer values within the buffer distance, change '
            'state, create, update and remove edges to agents they sense, add to the layer value of their cell, move by a table, '
            'give birth, die; all a function of what was sensed) is run on one rank and on 2 to 5 (thorough: 8) ranks; after every '
            'step the global agents, states, locations, edges and layer values, and before it everything sensed, must be the same. '
            'Non-trivial: on several ranks an agent changed rank or sensed an agent of another rank. Distinct by case.')
    ASSUMPTIONS = ['the buffer size is at most the smallest local extent in a buffered dimension',
                   'agents read before any agent acts; what several agents do to one cell commutes; edges are changed by their smaller end only',
                   'multiple occupancy; shared layers are 1 or 2 dimensional']

    def strategy(self, tier):
        @st.composite
        def prog(draw):
            n = draw(st.integers(2, self.POOL) if tier != 'quick' or self.POOL < 8 else st.sampled_from([8, 8, 6]))
            cs = draw(st.booleans())
            grid = draw(st.booleans()) or not cs
            nd = draw(st.integers(2 if cs else 1, 3))
            buf = draw(st.integers(1, 2))
            long = draw(st.integers(0, nd - 1))
            bounds = []
            for k in range(3):
                bounds += [draw(st.integers(-5, 5)), wm.PPD[nd][n][k] * buf + draw(st.integers(0, 6 if k == long else 2))] if k < nd else [0, 0]
            q = 4 if cs else 1

            def coord(k):
                if k >= nd:
                    return st.just(0)
                lo, e = bounds[2 * k], bounds[2 * k + 1]
                return st.integers(lo * q, (lo + e) * q - 1).map(lambda x: x / q)

            def disp(k):
                if k >= nd:
                    return st.just(0)
                e = bounds[2 * k + 1]
                return st.one_of(st.integers(-q, q), st.integers(-q, q), st.integers(-2 * e * q, 2 * e * q)).map(lambda x: x / q)
            pos = st.tuples(*[coord(k) for k in range(3)]).map(list)
            uids = draw(st.lists(st.tuples(st.integers(1, 15), st.integers(0, 2), st.integers(0, 1)), min_size=2, max_size=12, unique=True))
            return {'n': n, 'bounds': bounds, 'periodic': draw(st.booleans()), 'buf': buf, 'reach': draw(st.integers(1, buf)),
                    'grid': grid, 'cspace': cs, 'tree': draw(st.sampled_from([1, 3, 10])),
                    'net': draw(st.sampled_from([None, True, False])), 'order': draw(st.integers(0, 2)),
                    'layer': draw(st.integers(0, 2)) if nd < 3 else 0,
                    'agents': [[list(u), draw(st.integers(0, 30)), draw(pos)] for u in uids],
                    'ka': draw(st.integers(1, 5)), 'kb': draw(st.integers(0, 5)), 'kc': draw(st.integers(0, 5)), 'kd': draw(st.integers(0, 5)),
                    'km': draw(st.integers(2, 6)),
                    'moves': draw(st.lists(st.one_of(st.none(), st.tuples(*[disp(k) for k in range(3)]).map(list)), min_size=1, max_size=5)),
                    'birth': draw(st.sampled_from([0, 0, 7, 11])), 'death': draw(st.sampled_from([0, 0, 5, 9])),
                    'steps': draw(st.integers(2, 5 if tier == 'quick' else 9))}
        return prog()

    def run(self, case, pool):
        d = case['net']
        one, _ = merge(pool.run('indep', case, 1), d)
        outs = pool.run('indep', case, case['n'])
        many, bad = merge(outs, d)
        fails = bad[:3]
        for k, (a, b) in enumerate(zip(one, many)):
            for what in ('sensed', 'agents', 'edges', 'layer'):
                if a[what] != b[what]:
                    miss = {x: (v, b[what].get(x)) for x, v in a[what].items() if b[what].get(x) != v}
                    extra = {x: v for x, v in b[what].items() if x not in a[what]}
                    fails.append('step %d %s: on 1 rank and on %d ranks %s; on %d ranks only %s' % (
                        k, what, case['n'], list(miss.items())[:3], case['n'], list(extra.items())[:3]))
            if fails:
                break
        labels = set(['%d ranks' % case['n']])
        for k in range(1, len(outs[0])):
            home = {tuple(a[0]): r for r, o in enumerate(outs) for a in o[k - 1]['snap']['agents']}
            for r, o in enumerate(outs):
                for a in o[k - 1]['snap']['agents']:
                    if home.get(tuple(a[0])) != r:
                        labels.add('dup')
                for u, sensed, v in o[k]['log']:
                    if any(home.get(tuple(x[0])) not in (None, r) for lst in sensed for x in lst):
                        labels.add('sensed across')
        seen = {}
        for k in range(len(outs[0])):
            for r, o in enumerate(outs):
                for ag in o[k]['snap']['agents']:
                    u = tuple(ag[0])
                    if seen.get(u, r) != r:
                        labels.add('migrated')
                    seen[u] = r
        if case['net'] is not None and any(g['edges'] for g in many):
            labels.add('edges')
        if case['layer']:
            labels.add('layer')
        return Result(fails, bool(labels & {'migrated', 'sensed across'}), sorted(labels))


CHECK = C31()

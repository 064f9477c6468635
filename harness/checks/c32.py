import copy
import math
from hypothesis import strategies as st
from core import Check, Result, histories
import spacemodel as sm

INTS = [0, 0, 1, 2, 3, -1, 7, 2**31 - 1, -2**31, 2**31, 2**40, -2**53 - 1, 2**63 - 1, -2**63]
FLTS = [0.0, 1.0, 2.0, 0.5, 2.25, -1.0, 7.75, 1e300, -1e-300, 2.0**-1074, 5e8, 0.1]


class C32(Check):
    ID = 'C32'
    SHARDS = 3
    RULE = ('Points of both kinds are made, reset from tuples, coordinates and arrays (several data types, strided, reversed, '
            'column, unaligned, byte-swapped and read-only arrays), compared in all pairs and handed to a grid and a continuous '
            'space, as are the locations of other agents; after every operation all coordinates, comparisons and agents\' '
            'locations are compared with a model and with twin spaces that are only ever given new points. Non-trivial: at '
            'least one reset and one move. Distinct by case.')
    CASES = {'quick': 1500, 'thorough': 40000}
    PRELOAD = 'points'
    ASSUMPTIONS = ['tuples given to _reset have 3 numbers; coordinates fit the point\'s type and the array\'s data type',
                   'a point that was returned by the library is not reset by the user (as documented)']

    def strategy(self, tier):
        near = st.integers(-2, 7)
        ints = st.one_of(near, near, st.sampled_from(INTS))
        flts = st.one_of(near.map(float), near.map(lambda x: x / 2 + .25), st.sampled_from(FLTS))
        kind = st.sampled_from('dc')

        def vals(k, lo, hi):
            return st.lists(ints if k == 'd' else flts, min_size=lo, max_size=hi)

        def pt(k):
            return st.tuples(st.integers(0, 3), vals(k, 3, 3))

        def op(k):
            i = st.integers(0, 2)
            base = {'k': st.just(k), 'i': i}
            fx = st.fixed_dictionaries
            arr = fx(dict(base, o=st.just('array'), v=vals(k, 0, 5), dt=st.integers(0, 4), lay=st.integers(0, 7)))
            mv = fx(dict(base, o=st.just('move'), a=i, b=st.one_of(st.none(), st.none(), i)))
            return st.one_of(arr, arr, fx(dict(base, o=st.just('reset'), v=vals(k, 3, 3), n=st.integers(0, 3))),
                             mv, mv, fx(dict(base, o=st.just('bad'), b=st.integers(0, 6))))
        n = 14 if tier == 'quick' else 40
        return st.fixed_dictionaries({
            'pts': st.fixed_dictionaries({'d': st.lists(pt('d'), min_size=3, max_size=3), 'c': st.lists(pt('c'), min_size=3, max_size=3)}),
            'bounds': sm.bounds_st(2, 3), 'per': st.booleans(), 'single': st.booleans(),
            'ops': histories(kind.flatmap(op), n)})

    def run(self, case, pool):
        prog = copy.deepcopy(case)
        for op in prog['ops']:
            if op['o'] == 'array':
                if op['k'] == 'd' and op['dt'] in (2, 4):
                    op['v'] = [max(-2**31, min(2**31 - 1, x)) for x in op['v']]
                elif op['k'] == 'c' and op['dt'] in (1, 4):
                    op['v'] = [x if abs(x) < 1e30 else math.copysign(3.0, x) for x in op['v']]
        fails = pool.run('points', prog)[0]
        os = [o['o'] for o in prog['ops']]
        return Result(fails, ('array' in os or 'reset' in os) and 'move' in os, sorted(set(os)))


CHECK = C32()

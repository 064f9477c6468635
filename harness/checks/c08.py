from hypothesis import strategies as st
from core import Check, Result, histories


class C08(Check):
    ID = 'C08'
    RULE = ('A history of adding, removing and re-adding agents (ids that share two components) and projections (grids, '
            'continuous spaces, networks of both kinds, added before and after agents), moves, synchronizations and queries '
            '(type, count, shuffle under a seed). After every operation iteration, sizes, types, lookups and every projection '
            'are compared with a list. Non-trivial: at least 5 additions, a removal, a projection and a query. Distinct by case.')
    CASES = {'quick': 900, 'thorough': 20000}
    PRELOAD = 'misc'
    ASSUMPTIONS = ['an agent is not added while it is in the context, nor removed while it is not',
                   'a type that was never added may raise KeyError instead of giving nothing']

    def strategy(self, tier):
        op = st.one_of(
            st.tuples(st.just('add'), st.integers(0, 40)), st.tuples(st.just('add'), st.integers(0, 40)),
            st.tuples(st.just('add'), st.integers(0, 40)),
            st.tuples(st.just('remove'), st.integers(0, 40)), st.tuples(st.just('proj'), st.integers(0, 3)),
            st.tuples(st.just('dup'), st.integers(0, 9)), st.tuples(st.just('sync')), st.tuples(st.just('unknown')),
            st.tuples(st.just('move'), st.integers(0, 40), st.integers(0, 7), st.integers(0, 7)),
            st.tuples(st.just('query'), st.one_of(st.none(), st.integers(0, 3)), st.one_of(st.none(), st.integers(0, 12)),
                      st.booleans(), st.integers(0, 2**32)))
        uid = st.tuples(st.integers(0, 3), st.integers(0, 3), st.integers(0, 3))
        return st.fixed_dictionaries({
            'seed': st.integers(0, 99), 'uids': st.lists(uid, min_size=3, max_size=16, unique_by=tuple),
            'ops': histories(op, 30 if tier == 'quick' else 70)})

    def run(self, case, pool):
        prog = dict(case)
        prog['do'] = 'ctx'
        fails = pool.run('misc', prog)[0]
        k = [o[0] for o in case['ops']]
        return Result(fails, k.count('add') >= 5 and 'remove' in k and 'proj' in k and 'query' in k, sorted(set(k)))


CHECK = C08()

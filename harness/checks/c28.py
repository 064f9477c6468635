from hypothesis import strategies as st
from core import Check, Result, histories


class C28(Check):
    ID = 'C28'
    POOL = 2
    RULE = ('A sequence of uses of randomness (generator draws of several kinds, torch draws, shuffles with type and count, random '
            'local points, random value layers, random-priority events, network partitions) on 1 or 2 ranks, run twice after '
            'initializing with one seed from different pasts, and once with another seed. All uses must agree in the first two and '
            'every stream must differ for the other seed. Non-trivial: at least 3 kinds of use. Distinct by case.')
    CASES = {'quick': 500, 'thorough': 10000}
    PRELOAD = 'misc'
    ASSUMPTIONS = ['seeds are non-negative integers below 2**63',
                   'PyTorch streams need differ only for seeds that differ in their lower 32 bits (PyTorch uses no more)']

    def strategy(self, tier):
        op = st.one_of(st.tuples(st.just('draw'), st.integers(0, 6), st.integers(0, 5)),
                       st.tuples(st.just('shuffle'), st.one_of(st.none(), st.integers(0, 3)), st.one_of(st.none(), st.integers(0, 9))),
                       st.tuples(st.just('torch'), st.integers(0, 5)), st.tuples(st.just('gpt')), st.tuples(st.just('cpt')),
                       st.tuples(st.just('layer'), st.integers(0, 1), st.integers(0, 4)),
                       st.tuples(st.just('events'), st.integers(0, 6)), st.tuples(st.just('partition'), st.integers(0, 8)))
        seed = st.one_of(st.integers(0, 5), st.integers(0, 2**63 - 1), st.integers(0, 2**32))
        b = st.sampled_from([[0, 8, 0, 6, 0, 0], [-5, 9, 3, 7, 0, 0], [0, 12, 0, 0, 0, 0], [2, 8, -4, 6, 1, 5]])
        return st.fixed_dictionaries({'seed': seed, 'other': seed, 'n': st.integers(0, 12), 'bounds': b,
                                      'past': st.tuples(st.integers(0, 6), st.integers(0, 6)),
                                      'ops': histories(op, 8), 'size': st.integers(1, 2)})

    def run(self, case, pool):
        prog = dict(case)
        prog['do'] = 'seeds'
        if prog['bounds'][5] or not prog['bounds'][3]:
            prog['ops'] = [o for o in prog['ops'] if not (o[0] == 'layer' and o[1] == 1 and prog['bounds'][5])]
        res = pool.run('misc', prog, case['size'])
        fails = [x for r in res for x in r['fails']]
        return Result(fails, len(set(res[0]['uses'])) >= 3, sorted(set(res[0]['uses'])) + ['%d ranks' % case['size']])


CHECK = C28()

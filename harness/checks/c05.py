from hypothesis import strategies as st
from core import Check, Result, histories

LEAF = st.one_of(
    st.tuples(st.just('int'), st.integers(-2**70, 2**70)), st.tuples(st.just('str'), st.text(max_size=6)),
    st.tuples(st.just('none'), st.none()), st.tuples(st.just('bool'), st.booleans()),
    st.tuples(st.just('float'), st.one_of(st.floats(allow_nan=False, allow_infinity=False, width=64),
                                          st.sampled_from(['nan', 'inf', '-inf', '-0.0', '1e-320']))),
    st.tuples(st.just('bytes'), st.lists(st.integers(0, 255), max_size=5)),
    st.tuples(st.just('cplx'), st.tuples(st.integers(-5, 5), st.integers(-5, 5))),
    st.tuples(st.just('arr'), st.lists(st.floats(-10, 10), max_size=4)),
    st.tuples(st.just('iarr'), st.lists(st.integers(-10, 10), max_size=4)),
    st.tuples(st.just('set'), st.lists(st.integers(0, 9), max_size=4)))
KEY = st.one_of(st.tuples(st.just('str'), st.sampled_from(['a', 'b', '', 'agents', 'random', '0', '1', 'True'])),
                st.tuples(st.just('int'), st.integers(0, 2)), st.tuples(st.just('bool'), st.booleans()))
VALUE = st.recursive(LEAF, lambda c: st.one_of(
    st.tuples(st.just('list'), st.lists(c, max_size=4)), st.tuples(st.just('tuple'), st.lists(c, max_size=4)),
    st.tuples(st.just('dict'), st.lists(st.tuples(KEY, c), max_size=3))), max_leaves=6)


class C05(Check):
    ID = 'C05'
    RULE = ('A history of draws, additions to a context, saves of agents (of a context, a type, a list, a generator), of the '
            'random state and of keyed values, pickled with dill in one of several ways, disturbed, and restored in any order. '
            'Agents are compared in class, id and state with what was saved, draws with those of the uninterrupted generator. '
            'Non-trivial: at least two agents, the random state and a value were saved. Distinct by case.')
    CASES = {'quick': 1000, 'thorough': 30000}
    PRELOAD = 'misc'
    ASSUMPTIONS = ['states and values are picklable with dill and not modified between saving and pickling',
                   'the random state is saved once before restoring, or the last save counts']

    def strategy(self, tier):
        uid = st.tuples(st.one_of(st.integers(0, 3), st.integers(-2**40, 2**40)), st.integers(0, 3), st.integers(0, 3))
        op = st.one_of(st.tuples(st.just('draw'), st.integers(0, 6), st.integers(0, 5)),
                       st.tuples(st.just('ctx'), st.integers(0, 20)), st.tuples(st.just('ctx'), st.integers(0, 20)),
                       st.tuples(st.just('random')),
                       st.tuples(st.just('agents'), st.integers(0, 3), st.integers(0, 8)),
                       st.tuples(st.just('save'), KEY, VALUE),
                       st.tuples(st.just('seed'), st.integers(0, 2**40)))
        return st.fixed_dictionaries({
            'seed': st.integers(0, 2**32), 'dirty': st.integers(0, 2**32),
            'agents': st.lists(st.tuples(uid, VALUE), min_size=1, max_size=8, unique_by=lambda t: tuple(t[0])),
            'ops': histories(op, 16), 'how': st.integers(0, 4), 'order': st.lists(st.integers(0, 2), min_size=2, max_size=6)})

    def run(self, case, pool):
        prog = dict(case)
        prog['do'] = 'ckp'
        prog['order'] = list(prog['order']) + [x for x in range(3) if x not in prog['order']]
        fails = pool.run('misc', prog)[0]
        kinds = [o[0] for o in case['ops']]
        nt = 'random' in kinds and 'save' in kinds and 'agents' in kinds and len(case['agents']) > 1
        return Result(fails, nt, sorted(set(kinds)))


CHECK = C05()

from hypothesis import strategies as st
from core import Check, Result, histories


class C18(Check):
    ID = 'C18'
    RULE = ('One to three networks (directed or not, bare or in a context) and agents whose ids share components; a history of '
            'adding and removing agents through network and context, adding, updating and removing edges (existing ones in '
            'either orientation, loops, and absent ones, which must be refused), clearing and synchronizing. After every '
            'operation nodes, edges, attributes, membership, counts and iteration are compared with dictionaries. Non-trivial: '
            'at least 3 edge additions, and an edge removal or agent removal or clearing. Distinct by case.')
    CASES = {'quick': 900, 'thorough': 20000}
    PRELOAD = 'nets'
    ASSUMPTIONS = ['one rank', 'a directed loop may count once or twice among its agent\'s edges']

    def strategy(self, tier):
        at = st.dictionaries(st.sampled_from(['w', 'x', 'name']), st.one_of(st.integers(-3, 3), st.text(max_size=2)), max_size=2)
        n, ag = st.integers(0, 2), st.integers(0, 7)
        edge = st.tuples(st.just('edge'), n, ag, ag, at)
        op = st.one_of(
            edge, edge, edge, st.tuples(st.just('ctxadd'), n, ag), st.tuples(st.just('ctxadd'), n, ag),
            st.tuples(st.sampled_from(['upd', 'del']), n, ag, ag, at, st.booleans()),
            st.tuples(st.sampled_from(['upd', 'del']), n, ag, ag, at, st.just(True)),
            st.tuples(st.sampled_from(['add', 'adds', 'rem', 'ctxrem', 'ctxadd', 'clear', 'sync']), n, ag))
        uid = st.tuples(st.integers(0, 2), st.integers(0, 2), st.integers(0, 2))
        return st.fixed_dictionaries({
            'uids': st.lists(uid, min_size=2, max_size=6, unique_by=tuple),
            'nets': st.lists(st.tuples(st.booleans(), st.booleans()), min_size=1, max_size=3),
            'ops': histories(op, 40 if tier == 'quick' else 90)})

    def run(self, case, pool):
        r = pool.run('nets', case)[0]
        k = [o[0] for o in case['ops']]
        return Result(r['fails'], k.count('edge') >= 3 and bool({'del', 'rem', 'ctxrem', 'clear'} & set(k)), sorted(set(k)))


CHECK = C18()

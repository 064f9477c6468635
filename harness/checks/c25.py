import csv
import os
import shutil
from hypothesis import strategies as st
from core import Check, Result, histories


class C25(Check):
    ID = 'C25'
    POOL = 4
    SHARDS = 4
    TECHNIQUE = 'property-based testing (Hypothesis), write/parse round-trip against a model of the rows'
    RULE = ('Rows of strings (with delimiters, quotes, newlines, other scripts), numbers and None logged on 1 to 4 ranks, '
            'interleaved with writes; the file parsed with the csv module must be the header and then, per write, the rows by '
            'rank. Non-trivial: at least 2 rows on each side of a write or on 2 ranks. Distinct by case.')
    CASES = {'quick': 1500, 'thorough': 15000}
    PRELOAD = 'logs'
    ASSUMPTIONS = ['values are strings, numbers or None; rows are not empty; text is UTF-8']

    def strategy(self, tier):
        text = st.one_of(st.text(st.sampled_from('ab,;\t|"\'\n\r 1-é日'), max_size=6),
                         st.text(st.characters(exclude_categories=['Cs', 'Cc']), max_size=5))
        val = st.one_of(text, st.integers(-10**6, 10**9), st.floats(allow_nan=False, allow_infinity=False), st.booleans(), st.none())
        op = st.one_of(st.tuples(st.just('row'), st.integers(0, 3), st.lists(val, min_size=1, max_size=4)),
                       st.tuples(st.just('row'), st.integers(0, 3), st.lists(val, min_size=1, max_size=4)),
                       st.tuples(st.just('row'), st.integers(0, 3), st.lists(val, min_size=1, max_size=4)), st.tuples(st.just('write')))
        return st.tuples(st.integers(1, 4), st.lists(text, min_size=1, max_size=4), histories(op, 20, 0),
                         st.sampled_from([',', '\t', ';', '|', ' ']), st.integers(0, 2))

    def run(self, case, pool):
        n, headers, ops, delim, pathform = case
        d = os.path.join(pool.dir, 'case')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        path = [os.path.join(d, 'o.csv'), 'o.csv', os.path.join('sub', 'deep', 'o.csv')][pathform]
        exp, cur, nt = [headers], [[] for _ in range(n)], 0
        for op in ops + [['write']]:
            if op[0] == 'write':
                nt += len([1 for r in cur if r]) > 0
                for r in cur:
                    exp += r
                cur = [[] for _ in range(n)]
            else:
                cur[op[1] % n].append(['' if v is None else str(v) for v in op[2]])
        pool.run('logs', {'do': 'tabular', 'cwd': d, 'path': path, 'headers': headers, 'delim': delim, 'ops': ops}, n)
        full = os.path.join(d, path)
        if not os.path.exists(full):
            return Result(['the file %s was not written' % path])
        with open(full, newline='', encoding='utf-8') as f:
            got = list(csv.reader(f, delimiter=delim))
        fails = []
        if got != exp:
            k = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
            fails.append('%d lines for %d; line %d is %s, expected %s' % (len(got), len(exp), k, got[k:k + 1], exp[k:k + 1]))
        return Result(fails, len(exp) > 3 and (nt > 1 or n > 1), ['%d ranks' % n, '%d writes' % min(nt, 4)])


CHECK = C25()

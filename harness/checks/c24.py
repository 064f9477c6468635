import functools
import os
import shutil
import sys
from hypothesis import strategies as st
from core import Check, Result, histories

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'ex'))


def value(raw, j, rank, col):
    x = ((raw * (rank * 7 + 3) + j * 11 + rank * rank) % 41) - 20
    if col['big'] and col['op'] != 'PROD':
        if col['t'] == 'int':
            return x * 2**55 + raw
        return x / 3e-9 if col['op'] != 'SUM' else x * 2.**60
    return x if col['t'] == 'int' else x / 4


def exact(text, col):
    return int(text) if col and col['t'] == 'int' and text.lstrip('-').isdigit() else float(text)


RED = {'SUM': lambda a, b: a + b, 'PROD': lambda a, b: a * b, 'MIN': min, 'MAX': max}


class C24(Check):
    ID = 'C24'
    POOL = 4
    SHARDS = 4
    RULE = ('Columns (dataclass fields and other sources, int and float, small, large and with many digits, SUM/MIN/MAX/PROD), a buffer size, a delimiter and a '
            'history of logs (singly and in blocks of up to 1300) and writes on 1 to 4 ranks; the file is compared with the '
            'reductions computed by the driver. Another logger is reduced directly. Non-trivial: at least 3 rows and a write (explicit or by the buffer) before '
            'the last row. Distinct by case.')
    CASES = {'quick': 900, 'thorough': 12000}
    PRELOAD = 'logs'
    ASSUMPTIONS = ['all ranks make the same calls, as the reduction is collective', 'column names without delimiters or newlines']

    def strategy(self, tier):
        col = st.tuples(st.sampled_from(['int', 'float']), st.sampled_from(['SUM', 'MIN', 'MAX', 'PROD']), st.booleans(),
                        st.sampled_from(['', 'a', 'total', 'x y', 'n_1']), st.sampled_from([False, False, True]))
        tick = st.one_of(st.integers(0, 50), st.integers(0, 200).map(lambda x: x / 4),
                         st.integers(0, 10**10).map(lambda x: x / 7000))
        op = st.one_of(st.tuples(st.just('log'), tick, st.integers(0, 1000)), st.tuples(st.just('log'), tick, st.integers(0, 1000)),
                       st.tuples(st.just('block'), st.integers(2, 30), st.integers(0, 1000)), st.tuples(st.just('write')))
        big = st.tuples(st.just('block'), st.integers(450, 1300), st.integers(0, 1000))
        ops = st.one_of(histories(op, 15, 1), histories(op, 15, 1), histories(st.one_of(op, big), 4, 1))
        return st.tuples(st.integers(1, 4), st.lists(col, min_size=1, max_size=4), ops,
                         st.one_of(st.integers(1, 12), st.sampled_from([1, 500, 501, 1000, 1001, 5000])),
                         st.sampled_from([',', '\t', '|', ';', ', ']), st.integers(0, 3), st.sampled_from([0, 0, 1, 2]),
                         st.lists(st.lists(st.integers(0, 1000), min_size=1, max_size=6), max_size=3))

    def run(self, case, pool):
        n, cols, ops, buf, delim, pathform, mode, direct = case
        cols = [{'t': t, 'op': op, 'src': src, 'name': name or 'f%d' % j, 'big': big} for j, (t, op, src, name, big) in enumerate(cols)]
        if mode:
            # the sources come first, then all fields of the dataclass, made in one call
            cols.sort(key=lambda c: not c['src'])
            for j, c in enumerate(cols):
                if c['src']:
                    c['name'] = 's%d%s' % (j, c['name'])
                else:
                    c['op'] = cols[0]['op']
                    c['name'] = 'f%d' % j if mode == 1 or c['name'][0] == 'f' else '%s%d' % (c['name'], j)
        d = os.path.join(pool.dir, 'case')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        path = [os.path.join(d, 'o.csv'), 'o.csv', os.path.join('sub', 'deep', 'o.csv'), os.path.join(d, 'x', 'o.csv')][pathform]
        conc, rows, since, flushed = [], [], 0, False
        for op in ops:
            if op[0] == 'write':
                conc.append(['write'])
                flushed = flushed or since > 0
                since = 0
                continue
            new = [[op[1], op[2]]] if op[0] == 'log' else [[k / 2, op[2] + 13 * k] for k in range(op[1])]
            conc.append(['log', new])
            rows += new
            since += len(new)
        refused = pool.run('logs', {'do': 'reducing', 'cwd': d, 'path': path, 'cols': cols, 'delim': delim, 'buffer': buf, 'ops': conc, 'mode': mode,
                                    'direct': {'t': cols[0]['t'], 'blocks': direct}}, n)
        full = os.path.join(d, path)
        if not os.path.exists(full):
            return Result(['the file %s was not written' % path])
        with open(full, newline='') as f:
            lines = f.read().split('\n')
        fails = sum(refused, [])[:1]
        head, order = lines[0].split(delim), list(range(len(cols)))
        if mode == 2 and sorted(head) == sorted(['tick'] + [c['name'] for c in cols]):
            # the order of fields is not specified
            order.sort(key=lambda j: j if cols[j]['src'] else 100 + head.index(cols[j]['name']))
        if lines[-1] != '' or head != ['tick'] + [cols[j]['name'] for j in order]:
            fails.append('header %r, last line %r' % (lines[0], lines[-1]))
        body = lines[1:-1]
        if len(body) != len(rows):
            fails.append('%d rows for %d logged ticks' % (len(body), len(rows)))
        for i, (ln, (tick, raw)) in enumerate(zip(body, rows)):
            exp = [float(tick)]
            for j in order:
                c = cols[j]
                exp.append(functools.reduce(RED[c['op']], [value(raw, j, r, c) for r in range(n)]))
            try:
                got = [exact(x, c) for x, c in zip(ln.split(delim), [None] + [cols[j] for j in order])]
            except ValueError:
                got = ln
            if got != exp or ln.count(delim) != len(cols):
                fails.append('row %d is %r, expected %s' % (i, ln, exp))
                break
        return Result(fails, len(rows) >= 3 and (flushed or len(rows) > buf),
                      ['%d ranks' % n, 'over 500 rows' if len(rows) > 500 else 'up to 500 rows',
                       'buffer exceeded' if len(rows) > buf else 'buffer not reached', 'path%d' % pathform, ('one call per field', 'all fields', 'named fields')[mode]])

    def sample(self, case):
        return case


CHECK = C24()

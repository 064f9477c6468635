from hypothesis import strategies as st
from core import Check, Result
from c21 import neighbours, norm


class C22(Check):
    ID = 'C22'
    KIND = 'shared'
    POOL = 6
    SHARDS = 2
    RULE = ('A shared layer (1-D or 2-D, both borders, buffer 0 to 3, any origin) on 1 to 6 ranks; rounds of sets at cells by the ranks '
            'that own them (some through the tensor), each followed by Context.synchronize (some without ghosts). After construction and every synchronization each rank reads '
            'all its local and buffered cells (by coordinates within and, when periodic, beyond the bounds) and the neighbourhoods '
            'of its local cells, judged against one global dictionary. Non-trivial: at least 2 ranks, buffer at least 1 and a set '
            'in another rank\'s buffered area. Distinct by program.')
    CASES = {'quick': 450, 'thorough': 8000}
    PRELOAD = 'layers'
    MAX_CASES = 250
    ASSUMPTIONS = ['the buffer is at most the smallest local extent in every dimension', 'ranks set cells of their own local bounds',
                   'neighbourhood values across ranks are checked for buffers of at least 1', '3-D shared layers are not supported (documented)']

    def strategy(self, tier):
        ext = st.one_of(st.integers(6, 12), st.integers(2, 9), st.integers(1, 14))
        mins = st.one_of(st.just(0), st.integers(-15, 15))
        setop = st.tuples(st.just('set'), st.tuples(st.integers(0, 200), st.integers(0, 200)),
                          st.tuples(st.integers(-1, 1), st.integers(-1, 1)), st.integers(0, 99), st.sampled_from([False, False, False, True]))
        rnd = st.lists(setop, min_size=1, max_size=8)
        if self.KIND == 'rw':
            other = st.one_of(st.just(['swap']), st.just(['sync']), st.just(['sync']), st.just(['dump']), st.just(['nosync']))
            ops = st.lists(st.one_of(setop, setop, setop, other, other), min_size=4, max_size=20)
        else:
            ops = st.tuples(st.lists(rnd, min_size=1, max_size=4), st.lists(st.sampled_from(['sync', 'sync', 'nosync']), min_size=4, max_size=4)).map(list)
        return st.fixed_dictionaries({
            'size': st.sampled_from([2, 3, 4, 6, 2, 3, 4, 6, 5, 1]), 'nd': st.sampled_from([2, 2, 1]), 'ext': st.tuples(ext, ext), 'min': st.tuples(mins, mins),
            'periodic': st.booleans(), 'buffer': st.sampled_from([1, 2, 1, 2, 0, 3]), 'init': st.sampled_from([0, 5, 'random']),
            'dtype': st.sampled_from(['f8', 'f4', 'i8', 'u1']), 'ops': ops, 'second': st.booleans(), 'seed': st.integers(0, 99)})

    def program(self, case):
        n, size = case['nd'], case['size']
        # dims_create gives at most this many ranks in a dimension
        ppd = {1: [(1,), (1, 1)], 2: [(2,), (2, 1)], 3: [(3,), (3, 1)], 4: [(4,), (2, 2)], 5: [(5,), (5, 1)], 6: [(6,), (3, 2)]}[size][n - 1]
        ext = [max(case['ext'][k], ppd[k]) for k in range(n)]
        bounds = [v for k in range(2) for v in ((case['min'][k], ext[k]) if k < n else (0, 0))] + [0, 0]
        buf = min([case['buffer']] + [ext[k] // ppd[k] for k in range(n)])
        dt = case['dtype'] if case['init'] != 'random' or case['dtype'][0] == 'f' else 'f8'
        flat = []
        if self.KIND == 'rw':
            flat += case['ops']
        else:
            for r, end in zip(*case['ops']):
                flat += [list(x) for x in r] + [[end]]
        if flat[-1][0] != 'sync':
            flat.append(['sync'])
        ops = []
        for op in flat:
            if op[0] == 'set':
                p = [bounds[2 * k] + op[1][k] % ext[k] if k < n else 0 for k in range(2)] + [0]
                ops.append(['set', p, [op[2][k] if k < n else 0 for k in range(2)], op[3] + (0.25 if dt[0] == 'f' else 0), op[4]])
            else:
                ops.append(op)
        return {'do': 'multi', 'kind': self.KIND, 'bounds': bounds, 'periodic': case['periodic'], 'buffer': buf, 'init': case['init'],
                'dtype': dt, 'ops': ops, 'seed': case['seed'], 'second': case['second'], 'ng': buf > 0 or size == 1}

    def run(self, case, pool):
        prog = self.program(case)
        size, n, bounds, per = case['size'], case['nd'], prog['bounds'], prog['periodic']
        res = pool.run('layers', prog, size)
        fails = res[0]['fails'][:1]
        owner = {}
        for r, o in enumerate(res):
            lb = o['lb']
            for x in range(lb[0], lb[0] + lb[1]):
                for y in range(lb[2], lb[2] + max(1, lb[3])):
                    if (x, y) in owner:
                        return Result(['two ranks have %s' % ((x, y),)])
                    owner[(x, y)] = r
        keys = ['read', 'write'] if self.KIND == 'rw' else ['read']

        def area(o):
            x0, x1, y0, y1 = o['area']
            return [(x, y, norm((x, y, 0), bounds, per, n)[:2]) for y in range(y0, y1) for x in range(x0, x1)]
        areas = [area(o) for o in res]
        # current[key]: the owners' values; known[key][r]: what rank r's buffers hold
        current, known = {}, {}
        for k in keys:
            current[k] = {}
            for r, o in enumerate(res):
                for (x, y, c), v in zip(areas[r], o['dumps'][0][k]['vals']):
                    if owner[c] == r and c == (x, y):
                        current[k][c] = v
            vals = list(current[k].values())
            if prog['init'] == 'random':
                if not all(0 <= v < 1 for v in vals) or (len(vals) > 4 and len(set(vals)) < 2):
                    fails.append('random initial values %s' % vals[:4])
            elif any(v != prog['init'] for v in vals):
                fails.append('initial values %s' % vals[:6])
            if sorted(current[k]) != sorted(owner):
                fails.append('cells missing')
            known[k] = [dict(current[k]) for _ in res]

        def judge(i, synced):
            for r, o in enumerate(res):
                d = o['dumps'][i]
                for k in keys:
                    for kind in ('vals', 'wrapped'):
                        for (x, y, c), v in zip(areas[r], d[k].get(kind, [])):
                            e = current[k][c] if owner[c] == r else known[k][r][c]
                            if v != e:
                                return fails.append('dump %d: rank %d reads %s at %s (%s, of rank %d, %s layer), expected %s' % (
                                    i, r, v, (x, y), kind, owner[c], k, e))
                if self.KIND == 'rw' and d['get'] != d['read']['vals']:
                    return fails.append('dump %d: get differs from the read layer' % i)
                if synced and 'nghs' in d:
                    for p, vals, cs, same in d['nghs']:
                        w = [norm(list(c) + [0] * (3 - n), bounds, per, n)[:2] for c in cs]
                        if len(vals) != len(cs) or {c[:n] for c in w} != neighbours(p, bounds, per, n):
                            return fails.append('dump %d: rank %d: the neighbours of %s are given as %s' % (i, r, p, cs))
                        for v, c in zip(vals, w):
                            if v != current['read'][c]:
                                return fails.append('dump %d: rank %d: neighbour %s of %s has value %s, expected %s' % (
                                    i, r, c, p, v, current['read'][c]))
        judge(0, False)
        i, shared = 0, False
        for op in prog['ops']:
            if fails:
                break
            if op[0] == 'set':
                c = (op[1][0], op[1][1])
                current[keys[-1]][c] = op[3]
                shared = shared or any(owner[c] != r and any(c == a[2] for a in areas[r]) for r in range(size))
            elif op[0] == 'swap':
                current['read'], current['write'] = current['write'], current['read']
                known['read'], known['write'] = known['write'], known['read']
            else:
                i += 1
                if op[0] == 'sync':
                    for k in keys:
                        known[k] = [dict(current[k]) for _ in res]
                judge(i, op[0] == 'sync')
        return Result(fails[:4], shared, ['%d ranks' % size, '%dd' % n, 'periodic' if per else 'sticky', 'buffer %d' % prog['buffer']])


CHECK = C22()

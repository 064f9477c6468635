from hypothesis import strategies as st
from core import Check, Result, histories
import spacemodel as sm


def neighbours(p, bounds, per, n):
    exp = set()
    for dz in (-1, 0, 1) if n > 2 else (0,):
        for dy in (-1, 0, 1) if n > 1 else (0,):
            for dx in (-1, 0, 1):
                q = [p[0] + dx, p[1] + dy, p[2] + dz]
                ok = True
                for k in range(n):
                    lo, ext = bounds[2 * k], bounds[2 * k + 1]
                    if per:
                        q[k] = lo + (q[k] - lo) % ext
                    elif not lo <= q[k] < lo + ext:
                        ok = False
                if ok:
                    exp.add(tuple(q[:n]))
    return exp


def norm(p, bounds, per, n):
    out = [0, 0, 0]
    for k in range(n):
        lo, ext = bounds[2 * k], bounds[2 * k + 1]
        out[k] = lo + (p[k] - lo) % ext if per else max(lo, min(lo + ext - 1, p[k]))
    return tuple(out)


class C21(Check):
    ID = 'C21'
    RULE = ('A history of sets (by plain, numpy and tensor values, through the tensor, and of values got elsewhere), gets (inside and beyond the bounds), neighbourhood queries and synchronizations on a value layer, '
            'a shared layer or a read-write layer of one process (1-D to 3-D, both borders, numeric or random initial values, six '
            'types), judged against a dictionary of cells, with all cells and the raw tensor compared at the end. Non-trivial: at '
            'least 3 sets and a get or query of a set cell. Distinct by history.')
    CASES = {'quick': 1000, 'thorough': 30000}
    PRELOAD = 'layers'
    ASSUMPTIONS = ['values are representable in the layer\'s type', 'shared layers are at most 2-D (documented)',
                   'neighbourhoods are queried at cells within the bounds']

    def strategy(self, tier):
        c3 = st.tuples(sm.COORD, sm.COORD, sm.COORD)
        op = st.one_of(st.tuples(st.just('set'), c3, st.integers(0, 100), st.just(0)),
                       st.tuples(st.just('set'), c3, st.integers(0, 100), st.integers(0, 3)),
                       st.tuples(st.just('get'), c3), st.tuples(st.just('again'), st.integers(0, 20)), st.tuples(st.just('copy'), c3, c3),
                       st.tuples(st.just('nghs'), c3), st.tuples(st.just('nghs'), c3), st.tuples(st.just('sync'), c3))
        return st.tuples(st.sampled_from(['plain', 'plain', 'shared', 'rw']), sm.bounds_st(1, 3), st.booleans(),
                         st.sampled_from(['random', 0, 7, 3]), st.sampled_from(['f8', 'f4', 'i8', 'i4', 'u1', 'i2']),
                         st.integers(0, 2), histories(op, 24 if tier == 'quick' else 60), st.integers(0, 1000), st.booleans())

    def run(self, case, pool):
        kind, bounds, per, init, dtype, buf, raw, seed, reuse = case
        n = sm.dims(bounds)
        if kind != 'plain' and n == 3:
            bounds, n = bounds[:4] + [0, 0], 2
        if init == 'random' and dtype[0] != 'f':
            dtype = 'f8'
        ops, sets = [], []
        for op in raw:
            if op[0] == 'again':
                if sets:
                    ops.append(['get', sets[op[1] % len(sets)]])
                continue
            p = sm.point(op[1], bounds, True)
            if op[0] == 'nghs':
                p = list(norm(p, bounds, per, n))
            if op[0] == 'set':
                sets.append(p)
                v = op[2] + 0.5 if dtype[0] == 'f' else op[2]
                ops.append(['set', p, v, op[3]])
            elif op[0] == 'copy':
                ops.append(['copy', p, sm.point(op[2], bounds, True)])
            else:
                ops.append([op[0], p])
        buf = min([buf] + [bounds[2 * k + 1] for k in range(n)])
        out = pool.run('layers', {'do': 'single', 'kind': kind, 'bounds': bounds, 'periodic': per, 'init': init, 'dtype': dtype,
                                  'buffer': buf, 'ops': ops, 'seed': seed, 'reuse': reuse})[0]
        fails = []
        cells = [(x, y, z) for z in range(bounds[4], bounds[4] + max(1, bounds[5]))
                 for y in range(bounds[2], bounds[2] + max(1, bounds[3])) for x in range(bounds[0], bounds[0] + bounds[1])]
        key = 'init2' if kind == 'rw' else 'init'
        model = dict(zip(cells, out[key]))
        first = dict(zip(cells, out['init']))
        for name in ('init', key):
            if init == 'random':
                if not all(0 <= v < 1 for v in out[name]) or (len(cells) > 3 and len(set(out[name])) == 1):
                    fails.append('random initial values %s' % out[name][:4])
            elif any(v != init for v in out[name]):
                fails.append('initial values %s, expected %s' % (out[name][:6], init))
        if out['bounds'] != list(bounds) or out['numel'] != len(cells) or not out['dtype']:
            fails.append('bounds %s, %d cells' % (out['bounds'], out['numel']))
        seen = 0
        if len(out['ops']) != len(ops):
            fails.append('a point was changed by an operation')
        for i, (op, g) in enumerate(zip(ops, out['ops'])):
            if op[0] in ('set', 'get', 'copy'):
                c = norm(op[1], bounds, per, n)
                if op[0] == 'set':
                    model[c] = op[2]
                elif op[0] == 'copy':
                    model[c] = model[norm(op[2], bounds, per, n)]
                else:
                    seen += 1
                if g != model[c]:
                    fails.append('op %d %s: the value at %s is %s, expected %s' % (i, op, c, g, model[c]))
            elif op[0] == 'nghs':
                seen += 1
                vals, cs, same = g
                if not same:
                    fails.append('op %d: get_nghs changes its argument' % i)
                if len(vals) != len(cs) or {tuple(c) for c in cs} != neighbours(op[1], bounds, per, n):
                    fails.append('op %d: the neighbours of %s are given as %s' % (i, op[1], cs))
                else:
                    for v, c in zip(vals, cs):
                        e = model[tuple(c + [0] * (3 - n))]
                        if v != e:
                            fails.append('op %d %s: the neighbour %s has value %s, expected %s' % (i, op, c, v, e))
                            break
        for c, v in zip(cells, out['end']):
            if v != model[c]:
                fails.append('at the end %s is %s, expected %s' % (c, v, model[c]))
                break
        if out['grid'] != [model[c] for c in cells]:
            fails.append('the tensor differs from the values')
        if kind == 'rw' and out['read'] != [first[c] for c in cells]:
            fails.append('the read layer changed without a swap')
        return Result(fails[:4], len(sets) >= 3 and seen > 0, [kind, '%dd' % n, 'periodic' if per else 'sticky', dtype])


CHECK = C21()

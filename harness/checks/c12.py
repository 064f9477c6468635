from hypothesis import strategies as st
from core import Check, Result, histories
import spacemodel as sm


class C12(Check):
    ID = 'C12'
    KINDS = ['grid', 'sgrid']
    RULE = ('A history of add, remove and move (to points inside, beyond and on the bounds) on a 1-D to 3-D grid of one '
            'process (Grid and SharedGrid, both borders and occupancies), judged against a dictionary of locations after '
            'every operation, with every location queried at the end. Non-trivial: at least 4 located moves, and two agents met at '
            'a location or an agent was removed. Distinct by history.')
    CASES = {"quick": 1500, "thorough": 30000}
    PRELOAD = 'spaces'
    MIND = 1
    ASSUMPTIONS = ['an agent is not added again while it is in the space',
                   'coordinates of unused dimensions are 0']

    def strategy(self, tier):
        n = 28 if tier == 'quick' else 60
        c3 = st.tuples(sm.COORD, sm.COORD, sm.COORD)
        op = st.one_of(st.tuples(st.just('move'), st.integers(0, 17), c3), st.tuples(st.just('move'), st.integers(0, 17), c3),
                       st.tuples(st.just('meet'), st.integers(0, 17), st.integers(0, 17)),
                       *([] if self.KINDS[0] == 'grid' else [st.tuples(st.just('nudge'), st.integers(0, 17), c3)]),
                       st.tuples(st.just('back'), st.integers(0, 17), st.integers(0, 3)),
                       st.tuples(st.just('remove'), st.integers(0, 17)), st.tuples(st.just('add'), st.integers(0, 17)),
                       st.tuples(st.just('stray'), st.integers(0, 17), c3),
                       *([st.tuples(st.just('within'), c3, c3), st.tuples(st.just('all'))] if self.ID == 'C14' else []))
        return st.tuples(st.integers(0, 1), sm.bounds_st(self.MIND, 3), st.booleans(), st.booleans(), st.integers(1, 17),
                         histories(op, n), st.integers(1, 6))

    def run(self, case, pool):
        kind, bounds, per, single, na, ops, th = case
        kind = self.KINDS[kind]
        disc = 'grid' in kind
        na = max(2, na)
        uids = [list(u) for u in sm.UIDS[::-1][:na]]
        # concretise against a model that knows which agents are in the space and roughly where
        present, loc, hist = set(), {}, {}
        conc, want = [], []

        def norm(pt):
            out = []
            for k in range(3):
                lo, ext = bounds[2 * k], bounds[2 * k + 1]
                if ext == 0:
                    out.append(pt[k])
                elif per:
                    v = sm.periodic(pt[k], lo, ext)
                    out.append(v if v < lo + ext else lo)
                else:
                    out.append(max(lo, min(lo + ext - (1 if disc else 1e-8), pt[k])))
            return out
        for a in range(na):
            conc.append({'o': 'add', 'a': a})
            present.add(a)
        for op in ops:
            o = op[0]
            if o == 'within':
                box = []
                for k in range(3):
                    lo, ext = bounds[2 * k], bounds[2 * k + 1]
                    if ext == 0:
                        box += [0, 0]
                    else:
                        s = op[1][k][1] % (ext + 4) - 2
                        box += [lo + s, 1 + op[2][k][1] % (ext + 2)]
                conc.append({'o': 'within', 'box': box})
                continue
            if o == 'all':
                conc.append({'o': 'within', 'box': list(bounds)})
                continue
            a = op[1] % na
            if o in ('move', 'meet', 'back', 'nudge'):
                if a not in present:
                    conc.append({'o': 'add', 'a': a})
                    present.add(a)
                if o == 'move':
                    pt = sm.point(op[2], bounds, disc)
                    if self.ID == 'C14' and op[2][0][0] == 1:
                        pt = [float(int(x)) for x in pt]
                elif o == 'nudge':
                    # by a power of two, down to the last bit
                    pt = list(loc.get(a) or sm.point([[0, 5]] * 3, bounds, disc))
                    for k in range(sm.dims(bounds)):
                        e = op[2][k][1]
                        if op[2][k][0] % 2 == 0:
                            pt[k] += (1, -1)[e % 2] * 2.0 ** -(e // 2 + 5)
                elif o == 'meet':
                    b = op[2] % na
                    pt = loc.get(b) or sm.point([[0, 0]] * 3, bounds, disc)
                else:
                    h = hist.get(a) or [sm.point([[0, 0]] * 3, bounds, disc)]
                    pt = h[-1 - op[2] % len(h)]
                conc.append({'o': 'move', 'a': a, 'pt': list(pt)})
                loc[a] = list(norm(pt))
                hist.setdefault(a, []).append(loc[a])
            elif o == 'remove':
                if a in present:
                    conc.append({'o': 'remove', 'a': a})
                    present.discard(a)
                    loc.pop(a, None)
            elif o == 'add':
                if a not in present:
                    conc.append({'o': 'add', 'a': a})
                    present.add(a)
            elif o == 'stray':
                gone = [x for x in range(na) if x not in present]
                if gone:
                    conc.append({'o': 'move', 'a': gone[a % len(gone)], 'pt': sm.point(op[2], bounds, disc)})
        if self.ID == 'C14':
            h = [bounds[0], max(1, bounds[1] // 2), bounds[2], max(1, bounds[3] // 2), bounds[4], bounds[5]]
            conc += [{'o': 'within', 'box': h}, {'o': 'within', 'box': list(bounds)}]
        # points to look at: all those any agent may be at
        pts, seen = [], set()
        for c in conc:
            if c['o'] == 'move':
                for p in (norm(c['pt']), c['pt']):
                    if tuple(p) not in seen:
                        seen.add(tuple(p))
                        pts.append(list(p))
        for i, c in enumerate(conc):
            if c['o'] == 'move':
                c['w'] = [norm(c['pt']), c['pt']] + pts[max(0, i % max(1, len(pts)) - 1):][:2]
            elif c['o'] == 'remove':
                c['w'] = pts[:6]
        if conc and conc[-1]['o'] == 'within':
            conc.append({'o': 'remove', 'a': 0} if 0 in present else {'o': 'add', 'a': 0})
        allp = list(pts)
        if disc:
            from itertools import product
            rngs = [range(bounds[2 * k], bounds[2 * k] + max(1, bounds[2 * k + 1])) for k in range(3)]
            if len(rngs[0]) * len(rngs[1]) * len(rngs[2]) <= 150:
                allp = [list(p) for p in product(*rngs)]
        conc[-1]['w'] = allp
        ths = [th] if self.ID != 'C14' else [1, th, 50]
        prog = {'kind': kind, 'bounds': bounds, 'periodic': per, 'single': single, 'uids': uids, 'ops': conc,
                'thresholds': ths}
        res = pool.run('spaces', prog)[0]
        fails, stats = [], {'moves': 0, 'met': 0, 'removed': 0, 'refused': 0, 'stray': 0, 'hits': 0, 'split': 0}
        for s in range(len(ths)):
            f = self.judge(prog, [r[s] for r in res], disc, stats)
            fails += ['threshold %d: %s' % (ths[s], x) for x in f]
        nt = stats['moves'] >= 4 and (stats['met'] > 0 or stats['removed'] > 0)
        if self.ID == 'C14':
            nt = nt and stats['hits'] > 0
        return Result(fails, nt, [kind, '%dD' % sm.dims(bounds), 'periodic' if per else 'sticky',
                                  'single' if single else 'multiple'] + [k for k, v in stats.items() if v])

    def judge(self, prog, res, disc, stats):
        """Walks the model along the observed history."""
        uids, bounds, per, single = prog['uids'], prog['bounds'], prog['periodic'], prog['single']
        present, loc, at = set(), {}, {}
        n = len(uids)
        for i, (op, r) in enumerate(zip(prog['ops'], res)):
            o = op['o']
            what = 'op %d %s' % (i, {k: v for k, v in op.items() if k != 'w'})
            if o == 'within':
                if 'err' in r:
                    return ['%s raised %s' % (what, r['err'])]
                b = op['box']
                d = sm.dims(bounds)
                exp = sorted(uids[a] for a, p in loc.items()
                             if all(b[2 * k] <= p[k] < b[2 * k] + b[2 * k + 1] for k in range(d)))
                if sorted(r['ret']) != exp:
                    return ['%s returned %s, the agents inside are %s' % (what, sorted(r['ret']), exp)]
                stats['hits'] += bool(exp) and len(exp) < len(loc)
                continue
            a = op['a']
            if o == 'add':
                present.add(a)
            elif o == 'remove':
                stats['removed'] += a in loc
                if a in loc:
                    at[tuple(loc[a])].remove(a)
                    del loc[a]
                present.discard(a)
            if o == 'move' and a not in present:
                stats['stray'] += 1
                if 'err' not in r:
                    return ['%s of an agent that is not in the space did not fail' % what]
            elif 'err' in r:
                return ['%s raised %s' % (what, r['err'])]
            elif o == 'move':
                got = r['locs'][a]
                old = loc.get(a)
                refused = False
                if single:
                    occ = [b for b, p in loc.items() if b != a and self.same(p, op['pt'], bounds, per, disc)]
                    if occ:
                        refused = True
                        stats['refused'] += 1
                        if r['ret'] is not None or got != old:
                            return ['%s to a point occupied by %s was not refused: now at %s, was at %s, returned %s' % (
                                what, uids[occ[0]], got, old, r['ret'])]
                if not refused:
                    stats['moves'] += 1
                    if got is None or r['ret'] != got:
                        return ['%s returned %s, the agent is at %s' % (what, r['ret'], got)]
                    if not sm.transform_ok(got, op['pt'], bounds, per, disc):
                        return ['%s put the agent at %s' % (what, got)]
                    if old != got:
                        if old is not None:
                            at[tuple(old)].remove(a)
                        at.setdefault(tuple(got), []).append(a)
                        loc[a] = got
                        stats['met'] += len(at[tuple(got)]) > 1
            for b in range(n):
                if r['locs'][b] != loc.get(b):
                    return ['after %s agent %s is at %s, expected %s' % (what, uids[b], r['locs'][b], loc.get(b))]
                if bool(r['cont'][b]) != (b in present) or ('cont2' in r and bool(r['cont2'][b]) != (b in present)):
                    return ['after %s contains(%s) is %s' % (what, uids[b], r['cont'][b])]
            for w, row in zip(op.get('w', []), r['at']):
                exp = [uids[b] for b in at.get(tuple(w), [])]
                if row[1] != exp:
                    return ['after %s get_agents(%s) gives %s, expected %s' % (what, w, row[1], exp)]
                if row[0] != (exp[0] if exp else None):
                    return ['after %s get_agent(%s) gives %s, expected %s' % (what, w, row[0], exp[:1])]
                if len(row) > 2 and (row[2] != len(exp) or row[3] != [sum(1 for u in exp if u[1] == t) for t in range(3)]):
                    return ['after %s get_num_agents(%s) gives %s, by type %s, expected %s' % (what, w, row[2], row[3], exp)]
        return []

    def same(self, p, pt, bounds, per, disc):
        """Would pt be transformed to exactly the occupied point p?"""
        for k in range(sm.dims(bounds)):
            lo, ext = bounds[2 * k], bounds[2 * k + 1]
            if per:
                v = sm.periodic(pt[k], lo, ext)
                v = v if v < lo + ext else lo
                if lo <= pt[k] < lo + ext:
                    v = pt[k]
            else:
                v = max(lo, min(lo + ext - (1 if disc else 1e-8), pt[k]))
            if v != p[k]:
                return False
        return True


CHECK = C12()

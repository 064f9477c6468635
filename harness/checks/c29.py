import json
from hypothesis import strategies as st
from core import Result, histories
from worldcheck import WorldCheck, ASSUME
import worldmodel as wm

IDS = [0, 1, -1, 5, -5, 2**31, 2**40, -2**40, 2**63 - 1, -2**63]
TYPES = [0, 1, 2, 2**31 - 1]
RANKS = [0, 1, 2, 7, 2**31 - 1]


def collide(ids, types, ranks):
    """Lists of distinct unique ids, most of which share two components."""
    return st.tuples(st.lists(st.sampled_from(ids), min_size=1, max_size=3, unique=True),
                     st.lists(st.sampled_from(types), min_size=1, max_size=3, unique=True),
                     st.lists(st.sampled_from(ranks), min_size=1, max_size=3, unique=True)).flatmap(
        lambda c: st.lists(st.tuples(*[st.sampled_from(x) for x in c]), min_size=2, max_size=12, unique=True)
        if len(c[0]) * len(c[1]) * len(c[2]) > 1 else st.just([(c[0][0], c[1][0], c[2][0]), (c[0][0] ^ 1, c[1][0], c[2][0])]))


class C29(WorldCheck):
    ID = 'C29'
    ASPECTS = ('place', 'ident')
    PRELOAD = 'world ident'
    CASES = {'quick': 330, 'thorough': 10000}
    RULE = ('Half of the cases create agents whose ids share components (extreme values included), try to assign and delete '
            'their identity, and keep them in a context, four spaces and two networks, checking each agent\'s identity and '
            'that it alone is affected by what is done to it. The other half run a world program (as C09-C11, 1 to N ranks) '
            'whose ids share components, check the identity of every local agent, ghost and node, and run the program again '
            'with ids that share none: the ranks must show the same up to the renaming. Non-trivial: two agents present '
            'share two of three components, and at least 3 operations on them or a crossing of ranks. Distinct by case.')
    ASSUMPTIONS = ASSUME + ['ranks in ids are 0 to 2**31-1, types non-negative', '__init__ is called once']
    PROFILES = (
        dict(spaces=(0, 2), nets=(1, 2), ends=('sync',)),
        dict(spaces=(1, 2), nets=(0, 1), ends=('sync', 'nosync', 'sync', 'ckp')),
        dict(spaces=(0, 0), nets=(1, 2), ends=('sync', 'move', 'move')),
    )

    def strategy(self, tier):
        op = st.one_of(st.tuples(st.just('add'), st.integers(0, 11)), st.tuples(st.just('add'), st.integers(0, 11)),
                       st.tuples(st.just('move'), st.integers(0, 11), st.integers(0, 12)),
                       st.tuples(st.just('move'), st.integers(0, 11), st.integers(0, 12)),
                       st.tuples(st.just('edge'), st.integers(0, 11), st.integers(0, 11)),
                       st.tuples(st.just('remove'), st.integers(0, 11)), st.tuples(st.just('sync'), st.just(0)))
        one = st.fixed_dictionaries({'seed': st.integers(0, 9), 'form': st.integers(0, 3), 'uids': collide(IDS, TYPES, RANKS),
                                     'ops': histories(op, 25 if tier == 'quick' else 60)})
        uids = st.one_of(st.tuples(st.integers(0, 1), st.integers(0, 1)), st.tuples(st.just(0), st.integers(0, 2)),
                         st.tuples(st.integers(0, 2), st.just(1)), st.tuples(st.sampled_from([2**40, 2**40 + 1, -1, -2]), st.just(0)))
        return st.one_of(one, one, *[wm.programs(tier, uids=uids, **dict(self.size(tier), **p)) for p in self.PROFILES])

    def run(self, case, pool):
        if 'n' not in case:
            us = case['uids']
            close = any(sum(x == y for x, y in zip(a, b)) == 2 for k, a in enumerate(us) for b in us[:k])
            return Result(pool.run('ident', case)[0], close and len(case['ops']) >= 3, ['one process'])
        n = case['n']
        prog = dict(case, ident=True)
        outs = pool.run('world', prog, n)
        w = wm.World(prog, n, set(self.ASPECTS))
        for k, step in enumerate(prog['steps']):
            w.judge(k, step, [o[k] for o in outs])
        fails = w.fails[:3]
        for r, o in enumerate(outs):
            for k, s in enumerate(o):
                for where, uid, got in s['dump']['ident']:
                    if got != uid + [uid]:
                        fails.append('after step %d rank %d: %s of %s has id, type, rank, uid %s' % (k, r, where, uid, got))
        # the same program with ids that share nothing but (maybe) the rank
        names, back = {}, {}

        def ren(u):
            t = tuple(u)
            if t not in names:
                names[t] = [1000 + 10 * len(names), 50 + len(names), u[2]]
                back[tuple(names[t])] = list(u)
            return names[t]

        p2 = json.loads(json.dumps(prog))
        for s in p2['steps']:
            for op in s['ops']:
                if op[0] == 'add':
                    op[2] = ren(op[2])
                elif op[0] == 'request':
                    op[1] = [[x if type(x) is int else ren(x), ren(u)] for x, u in op[1]]
                elif op[0] in ('edge', 'upd', 'del'):
                    op[2], op[3] = ren(op[2]), ren(op[3])
                else:
                    op[1] = ren(op[1])
            if s['end'][0] == 'move':
                s['end'][1] = [[ren(u), d] for u, d in s['end'][1]]
        outs2 = pool.run('world', p2, n)
        for r, (a, b) in enumerate(zip(outs, outs2)):
            for k, (x, y) in enumerate(zip(a, b)):
                for part in ('pre', 'dump'):
                    cx, cy = canon(x[part], None, prog), canon(y[part], back, prog)
                    if cx != cy:
                        d = [(q, cx[q], cy[q]) for q in cx if cx[q] != cy[q]]
                        fails.append('after step %d rank %d (%s): %s; with distinct ids %s' % ((k, r, part) + (str(d[0][:2])[:600], str(d[0][2])[:600])))
                        break
        us = [tuple(op[2]) for s in prog['steps'] for op in s['ops'] if op[0] == 'add']
        close = any(sum(x == y for x, y in zip(a, b)) == 2 for k, a in enumerate(us) for b in us[:k] if a != b)
        return Result(fails[:4], close and bool(w.labels & {'migrated', 'moved', 'crossing', 'buffered', 'requested'}),
                      ['world'] + sorted(w.labels))


def canon(d, back, prog):
    if d is None:
        return {}
    f = (lambda u: tuple(u)) if back is None else (lambda u: tuple(back.get(tuple(u), u)))
    out = {'locals': sorted((f(x[0]), x[1:]) for x in d['locals']), 'ghosts': sorted((f(x[0]), x[1:]) for x in d['ghosts'])}
    for i, s in enumerate(d['spaces']):
        out['space %d' % i] = sorted((f(x[0]), x[1:]) for x in s['seen'])
    for i, m in enumerate(d['nets']):
        out['nodes %d' % i] = sorted((f(x[0]), x[1:]) for x in m['nodes'])
        es = []
        for u, v, at in m['edges']:
            u, v = f(u), f(v)
            if not prog['nets'][i] and v < u:
                u, v = v, u
            es.append((u, v, sorted(at.items())))
        out['edges %d' % i] = sorted(es)
        out['num %d' % i] = sorted((f(u), k) for u, k in m['num'])
        out['counts %d' % i] = m['counts']
    return out


CHECK = C29()

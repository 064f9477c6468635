import subprocess
from hypothesis import strategies as st
from core import Result, TIER, histories
from worldcheck import WorldCheck, ASSUME
import spacemodel as sm
import worldmodel as wm


class C30(WorldCheck):
    ID = 'C30'
    PRELOAD = 'mem world'
    RULE = ('Two thirds of the cases are histories on up to three spaces (grid, continuous, plain and shared, both borders and '
            'occupancies) of one process that are created, filled, queried and destroyed while the program keeps or lets go of '
            'agents, points, uids, results and iterators. After every operation reference counts (less those the program '
            'holds) and weak references must show that what a space holds is alive, that what it released is not '
            'held, and that everything kept is intact (freed memory is overwritten); some histories are repeated, and must not take '
            'more memory each time. One third are world programs on 1 to N ranks, in '
            'which every agent object made must be local, a ghost or a node, or else be freed, after each synchronization, and '
            'everything must be freed when context and projections are destroyed. Non-trivial: an agent was removed and '
            'objects were kept or dropped, or agents crossed ranks. Distinct by case.')
    ASSUMPTIONS = ASSUME + ['agents do not refer to their spaces (native spaces take no part in cycle collection)',
                            'between synchronizations without ghosts, a projection may keep copies of agents it received before']
    # quick: freed memory is overwritten; thorough: the native code is built with AddressSanitizer
    VARIANT, ENV = '', {'PYTHONMALLOC': 'malloc_debug', 'MALLOC_PERTURB_': '165'}
    if TIER == 'thorough':
        VARIANT, ENV = 'asan', {'PYTHONMALLOC': 'malloc', 'ASAN_OPTIONS': 'detect_leaks=0:handle_segv=0', 'LD_PRELOAD': ' '.join(
            subprocess.check_output(['g++', '-print-file-name=' + x], text=True).strip() for x in ('libasan.so', 'libstdc++.so.6'))}

    PROFILES = (
        dict(spaces=(1, 2), nets=(0, 1), ends=('sync', 'sync', 'nosync'), late=True, again=True, both=True),
        dict(spaces=(1, 2), nets=(0, 1), ends=('sync', 'ckp')),
        dict(spaces=(0, 0), nets=(1, 2), ends=('sync', 'move')),
    )

    def strategy(self, tier):
        i = st.integers(0, 7)
        f = st.integers(0, 15)

        def q(name, *more):
            return st.tuples(st.just(name), st.integers(0, 2), i, f, *more)
        @st.composite
        def prog(draw):
            b = draw(sm.bounds_st(2, 3))
            c = st.tuples(*[st.integers(4 * b[2 * k] - 9, 4 * (b[2 * k] + b[2 * k + 1]) + 9).map(lambda v: v / 4)
                            if b[2 * k + 1] else st.just(0) for k in range(3)])
            cell = st.tuples(*[st.integers(b[2 * k], b[2 * k] + min(2, b[2 * k + 1])) if b[2 * k + 1] else st.just(0) for k in range(3)])
            op = st.one_of(q('add'), q('add'), q('move', c), q('move', cell), q('move', cell), q('move', c), q('remove'), q('remove'),
                           q('all'), q('one'), q('iter'), q('loc'), q('loc'), q('uid'), q('num'), q('contains'),
                           q('use'), q('next'), q('drop'), q('born'), q('new'), q('destroy'), q('forget'))
            n = draw(st.integers(2, 8))
            ops = [['new', k, 0, draw(f)] for k in range(draw(st.integers(1, 3)))]
            ops += [['add', k, a, 0] for k in range(len(ops)) for a in range(n)]
            # patterns: an iterator kept while its agents go; an agent held by its space alone
            hold = st.tuples(st.integers(0, 2), i, f, i, f).map(lambda t: [
                ['iter', t[0], t[1], t[2]], ['drop', 0, t[3], 0], ['remove', t[0], t[3], 0], [('use', 'next')[t[4] % 2], 0, 0, t[4] // 2]])
            free = st.tuples(i, st.booleans()).map(lambda t: [['drop', 0, t[0], 0]] * t[1] + [['remove', k, t[0], 0] for k in range(3)] +
                                                   [['born', 0, t[0], 0]])
            point = st.tuples(st.integers(0, 2), i, cell, f, f).map(lambda t: [
                ['move', t[0], t[1], t[3], t[2]], ['loc', t[0], t[1], t[4]], ['uid', t[0], t[1], 0],
                ['remove', t[0], t[1], 0] if t[3] % 4 < 2 else ['destroy', t[0], 0, 0] if t[3] % 4 == 2 else ['forget', 0, 0, 0]])
            some = st.lists(op, min_size=1, max_size=4)
            for block in draw(histories(st.one_of(some, some, some, hold, free, point), 12 if tier == 'quick' else 30)):
                ops += block
            return {'bounds': b, 'tree': draw(st.sampled_from([1, 2, 10])), 'uids': [[a // 3, a % 3, a % 2] for a in range(n)], 'ops': ops,
                    'grow': draw(st.sampled_from([False, False, False, True]))}
        world = st.one_of(*[wm.programs(tier, **dict(self.size(tier), **p)) for p in self.PROFILES])
        return st.one_of(prog(), prog(), st.tuples(world, st.integers(1, 7)).map(lambda t: dict(t[0], mem=t[1], restore=0)))

    def run(self, case, pool):
        if 'n' in case:
            outs = pool.run('world', case, case['n'])
            w = wm.World(case, case['n'], {'place'})
            fails = []
            for k, step in enumerate(case['steps']):
                if k < len(outs[0][0]):
                    w.judge(k, step, [o[0][k] for o in outs])
                    for r, o in enumerate(outs):
                        if o[0][k]['living'] and step['end'][0] in ('sync', 'move'):    # else old copies wait for their removal
                            fails.append('after step %d rank %d holds agents %s, which are neither local nor ghosts there' % (
                                k, r, o[0][k]['living']))
            for r, o in enumerate(outs):
                fails += ['at the end rank %d: %s' % (r, x) for x in o[1][:2]]
            return Result((w.fails + fails)[:4], bool(w.labels & {'migrated', 'moved', 'buffered', 'requested'}), ['world'] + sorted(w.labels))
        fails, labels = pool.run('mem', case)[0]
        return Result(fails, 'removed' in labels and len(labels) > 2, labels)


CHECK = C30()

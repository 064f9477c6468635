from hypothesis import strategies as st
from core import Check, Result
import schedmodel as sm


class C01(Check):
    ID = 'C01'
    RULE = ('A schedule program (events of every kind, priority type and priority at few ticks, with actions that '
            'schedule and void further events when executed) run on the real runner; non-trivial: some tick held at '
            'least 3 events, or events were added to the executing tick. Distinct by program.')
    SHARDS = 6
    CASES = {'quick': 900, 'thorough': 20000}
    PRELOAD = 'sched'
    SEL = 'order'
    ASSUMPTIONS = ['ties between BY_PRIORITY events of equal priority may run in any order',
                   'repeating events keep the scheduling order of their first scheduling']

    def strategy(self, tier):
        n = 9 if tier == 'quick' else 14
        prog = st.tuples(st.just('prog'), st.lists(sm.raw_spec(2), min_size=1, max_size=n), st.integers(0, 50), st.booleans(),
                         st.sampled_from(sm.WARPS))
        shuf = st.tuples(st.just('shuffle'), st.integers(0, 5), st.integers(6, 10), st.integers(0, 1000))
        return st.one_of(*([prog] * 24 + [shuf]))

    def run(self, case, pool):
        if case[0] == 'shuffle':
            return self.shuffle(case, pool)
        _, raws, seed, same, w = case
        ids = [0]
        events = sm.build(raws, ids, same)
        events.append({'id': 10000, 'k': 'stop', 'at': 9.})
        events.append({'id': 10001, 'k': 'end', 'at': 0.})
        sm.warp(events, w)
        prog = {'seed': seed, 'ranks': [{'events': events}]}
        # no event may void the last stop
        r = pool.run('sched', prog)[0]
        of, tf, stats = sm.validate(prog['ranks'][0], r['trace'], r['tick'])
        labels = [k for k, v in stats.items() if v and k not in ('ticks', 'maxgroup')]
        fails = of if self.SEL == 'order' else tf
        if self.SEL == 'order':
            nt = stats['maxgroup'] >= 3 or stats['inadd'] > 0
            if nt and not fails and seed % 4 == 0:
                r2 = pool.run('sched', prog)[0]
                labels.append('rerun')
                if [t[:2] for t in r2['trace']] != [t[:2] for t in r['trace']]:
                    fails = ['the same seed gave different traces: %s and %s' % (
                        [t[:2] for t in r['trace']], [t[:2] for t in r2['trace']])]
        else:
            nt = stats['ticks'] >= 2 and len(r['trace']) >= 3
        return Result(fails, nt, labels)

    def shuffle(self, case, pool):
        """RANDOM events are in fact shuffled, alone and into BY_PRIORITY events."""
        _, npri, nran, seed = case
        evs = [{'id': i, 'k': 'one', 'at': 1., 'pt': 3, 'pr': float(i)} for i in range(npri)]
        evs += [{'id': 100 + i, 'k': 'one', 'at': 1., 'pt': 2} for i in range(nran)]
        evs.append({'id': 999, 'k': 'stop', 'at': 1.})
        seen, fails = set(), []
        for j in range(6):
            prog = {'seed': seed * 10 + j, 'ranks': [{'events': evs}]}
            r = pool.run('sched', prog)[0]
            of, tf, _ = sm.validate(prog['ranks'][0], r['trace'], r['tick'])
            fails += of + tf
            seen.add(tuple(t[0] for t in r['trace']))
        if len(seen) == 1:
            fails.append('RANDOM events ran in one fixed order for 6 seeds: %s' % (seen,))
        return Result(fails, True, ['shuffle'])


CHECK = C01()

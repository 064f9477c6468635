from hypothesis import strategies as st
from core import Check, Result
import schedmodel as sm


class C03(Check):
    ID = 'C03'
    POOL = 4
    SHARDS = 3
    RULE = ('1 to 4 ranks, each with its own schedule program (as in C01/C02, some ranks with nothing but the stop), '
            'and a stop that every rank schedules at the same tick, before the run or from an event at a common tick; '
            'events are slowed on some ranks. Non-trivial: at least 2 ranks executed events at different ticks. Distinct by program.')
    CASES = {'quick': 1000, 'thorough': 9000}
    PRELOAD = 'sched'
    TIMEOUT = 25
    ASSUMPTIONS = ['executions on different ranks are ordered by the machine\'s monotonic clock',
                   'all ranks schedule the stop at the same tick, and no rank voids it']

    def strategy(self, tier):
        rank = st.tuples(st.one_of(st.just([]), st.lists(sm.raw_spec(1), max_size=4), st.lists(sm.raw_spec(1), max_size=4),
                                   st.lists(sm.raw_spec(2), max_size=6)), st.booleans())
        return st.tuples(st.one_of(st.lists(rank, min_size=2, max_size=4), st.lists(rank, min_size=3, max_size=4)), st.integers(0, 20), st.integers(0, 3),
                         st.sampled_from([6., 4.25, 0., 9., 2.]), st.booleans(),
                         st.sampled_from(sm.WARPS))

    def run(self, case, pool):
        ranks, seed, mode, stop, sleepy, w = case
        progs = []
        for raws, slow in ranks:
            ids = [0]
            evs = sm.build([r for r in raws], ids)
            for e in evs:
                self.nostop(e)
                if slow and sleepy:
                    e['sleep'] = 2
            if mode == 0:     # stop scheduled last
                evs.append({'id': 10000, 'k': 'stop', 'at': stop})
            elif mode == 1:   # first
                evs.insert(0, {'id': 10000, 'k': 'stop', 'at': stop})
            elif mode == 2:   # from an event, at the same tick everywhere
                evs.insert(0, {'id': 10002, 'k': 'one', 'at': 1., 'pt': 0,
                               'acts': [{'a': 'sch', 'spec': {'id': 10000, 'k': 'stop', 'at': stop}}]})
            else:             # stopped by an event
                evs.append({'id': 10002, 'k': 'one', 'at': stop, 'pt': 3, 'pr': 2., 'acts': [{'a': 'stop'}]})
            evs.append({'id': 10001, 'k': 'end', 'at': 0.})
            progs.append({'events': sm.warp(evs, w)})
        prog = {'seed': seed, 'ranks': progs}
        rs = pool.run('sched', prog, size=len(progs))
        fails, ticks = [], set()
        last = None
        allev = []
        for i, r in enumerate(rs):
            of, tf, stats = sm.validate(progs[i], r['trace'])
            fails += ['rank %d: %s' % (i, x) for x in tf + of]
            ends = {e['id'] for e in self.flat(progs[i]['events']) if e['k'] == 'end'}
            mine = [t for t in r['trace'] if t[0] not in ends]
            ticks.update(t[1] for t in mine)
            allev += [(t[2], i, t[0], t[1]) for t in mine]
            last = max([last or 0.] + [t[2] for t in mine])
        allev.sort()
        hi = None
        for t, i, e, tick in allev:
            if hi is not None and tick < hi[3]:
                fails.append('rank %d ran event %d of tick %s after rank %d had run event %d of tick %s' % (
                    i, e, tick, hi[1], hi[2], hi[3]))
                break
            if hi is None or tick > hi[3]:
                hi = (t, i, e, tick)
        nt = len(progs) > 1 and len({(i, tick) for _, i, _, tick in allev}) > 2 and len({i for _, i, _, _ in allev}) > 1
        return Result(fails, nt, ['ranks%d' % len(progs), 'mode%d' % mode])

    def nostop(self, e):
        if e['k'] == 'stop':
            e['k'] = 'one'
            e['pt'] = 2
        for a in e.get('acts', ()):
            if a['a'] == 'sch':
                self.nostop(a['spec'])

    def flat(self, evs):
        for e in evs:
            yield e
            yield from self.flat([a['spec'] for a in e.get('acts', ()) if a['a'] == 'sch'])


CHECK = C03()

from hypothesis import strategies as st
from core import Check, Result
import schedmodel as sm


def flat(evs):
    for e in evs:
        yield e
        yield from flat([a['spec'] for a in e.get('acts', ()) if a['a'] == 'sch'])


class C04(Check):
    ID = 'C04'
    POOL = 2
    SHARDS = 5
    RULE = ('A schedule program (as in C01/C02) saved at up to 3 points between its ticks, pickled with dill, restored into '
            'a fresh runner (disturbed generator) and continued. Arm "full": the continuation\'s trace of (event, tick, '
            'random draw) must equal the uninterrupted run\'s. Arm "subset": a program without actions, restored with '
            'refused events, tags or another stop, against the times computed from the program. Non-trivial: at least 2 '
            'executions followed a save point. Distinct by program.')
    CASES = {'quick': 1000, 'thorough': 9000}
    PRELOAD = 'ckpsched'
    ASSUMPTIONS = ['a checkpoint is taken between ticks: before the run, or by an event that is alone at its tick',
                   'the events that save do not repeat and are refused by the creator on restoring']

    def strategy(self, tier):
        saves = st.lists(st.sampled_from([-1, 0.125, 1.125, 2.125, 2.625, 3.125, 4.875, 6.125]), min_size=1, max_size=3, unique=True)
        full = st.tuples(st.just('full'), st.lists(sm.raw_spec(2), min_size=1, max_size=7), st.integers(0, 20), saves,
                         st.booleans(), st.integers(1, 2), st.sampled_from(sm.WARPS))
        sub = st.tuples(st.just('subset'), st.lists(sm.raw_spec(0), min_size=1, max_size=8), st.integers(0, 20), saves,
                        st.lists(st.integers(0, 9), max_size=3), st.lists(st.integers(0, 9), max_size=2),
                        st.sampled_from([[0], [0, 1], [1, 0], [1], [0, 2, 1]]), st.sampled_from([None, 11., 8.5, 7.]),
                        st.lists(st.integers(0, 2), min_size=8, max_size=8), st.sampled_from(sm.WARPS))
        return st.one_of(full, sub, full)

    def run(self, case, pool):
        return self.full(case, pool) if case[0] == 'full' else self.subset(case, pool)

    def warped(self, saves, w):
        return sorted(t if t < 0 else w[0] + w[1] * t for t in saves)

    def full(self, case, pool):
        _, raws, seed, saves, sf, nranks, w = case
        saves = self.warped(saves, w)
        progs = []
        for r in range(nranks):
            ids = [0]
            evs = sm.build(raws if r == 0 else raws[::-1], ids)
            if nranks > 1:
                for e in flat(evs):
                    if e['k'] == 'stop':
                        e['k'], e['pt'] = 'one', 2
            # voids: of FIRST, LAST, end events, and of the event itself. A stop's metadata does not identify it,
            # so a restored stop can't be voided by id; a voided RANDOM or BY_PRIORITY event still takes part in
            # the shuffle of the uninterrupted run but is not restored, so it changes the random draws.
            ok = {e['id'] for e in flat(evs) if e['k'] == 'end' or (e['k'] != 'stop' and e.get('pt') in (0, 1))}
            for e in flat(evs):
                for a in e['acts']:
                    if a['a'] == 'void' and a['id'] not in ok:
                        a['id'] = e['id']
            evs.append({'id': 10000, 'k': 'stop', 'at': 9.})
            evs.append({'id': 10001, 'k': 'end', 'at': 0.})
            progs.append({'events': sm.warp(evs, w)})
        prog = {'seed': seed, 'ranks': progs, 'saves': saves, 'sched_first': sf}
        rs = pool.run('ckpsched', prog, size=nranks)
        fails, most = [], 0
        for r in rs:
            for c in r['conts']:
                want = r['trace'][c['pos']:]
                most = max(most, len(want))
                if c['bad']:
                    fails.append('saved %s' % c['bad'])
                if c['restored_tick'] != c['saved_tick']:
                    fails.append('saved at tick %s, restored at tick %s' % (c['saved_tick'], c['restored_tick']))
                if c['trace'] != want:
                    k = next((k for k in range(min(len(want), len(c['trace']))) if want[k] != c['trace'][k]),
                             min(len(want), len(c['trace'])))
                    fails.append('restored from tick %s: execution %d differs: uninterrupted %s, restored %s' % (
                        c['saved_tick'], k, want[k:k + 3], c['trace'][k:k + 3]))
                elif c['tick'] != r['tick']:
                    fails.append('the run ended at %s, the restored one at %s' % (r['tick'], c['tick']))
        return Result(fails, most >= 2, ['full', 'ranks%d' % nranks, 'saves%d' % len(rs[0]['conts'])])

    def subset(self, case, pool):
        _, raws, seed, saves, refuse, voids, tags, new_stop, tg, w = case
        saves = self.warped(saves, w)
        evs = [e for e in sm.build(raws, [0]) if e['k'] != 'stop']
        for e, t in zip(evs, tg):
            if t:
                e['tag'] = t
        ids = [e['id'] for e in evs]
        evs.append({'id': 10000, 'k': 'stop', 'at': 8.})
        sm.warp(evs, w)
        if new_stop is not None:
            new_stop = w[0] + w[1] * new_stop
        refuse = sorted({ids[i % len(ids)] for i in refuse}) if ids else []
        voids = sorted({ids[i % len(ids)] for i in voids}) if ids else []
        if new_stop is None and 0 not in tags:
            tags = tags + [0]
        prog = {'seed': seed, 'ranks': [{'events': evs, 'voids': voids}], 'saves': saves, 'refuse': refuse, 'tags': tags,
                'stop_at': new_stop is None, 'new_stop': new_stop}
        r = pool.run('ckpsched', prog)[0]
        fails, most = [], 0
        stop = w[0] + w[1] * 8. if new_stop is None else new_stop
        for c in r['conts']:
            keep = [e for e in evs if e['k'] != 'stop' and e['id'] not in refuse and e['id'] not in voids
                    and e.get('tag', 0) in tags and (e['at'] >= 0 or e['k'] == 'end')]
            start = c['saved_tick']
            want = []
            for e in keep:
                if e['k'] == 'one' and start < e['at'] <= stop:
                    want.append((e['at'], e['id']))
                elif e['k'] == 'rep':
                    t = e['at']
                    while t <= stop:
                        if t > start:
                            want.append((t, e['id']))
                        t += e['iv']
            ends = [e['id'] for e in keep if e['k'] == 'end']
            got = [(t[1], t[0]) for t in c['trace'] if t[0] not in {e['id'] for e in evs if e['k'] == 'end'}]
            gote = [t[0] for t in c['trace'] if t[0] in {e['id'] for e in evs if e['k'] == 'end'}]
            most = max(most, len(want))
            if sorted(got) != sorted(want):
                fails.append('restored from tick %s: expected executions %s, got %s' % (start, sorted(want), sorted(got)))
            elif sorted(ends) != sorted(gote):
                fails.append('restored from tick %s: end events %s, expected %s' % (start, gote, ends))
            else:
                order = {e['id']: k for k, e in enumerate(evs)}
                spec = {e['id']: e for e in evs}

                def cls(i):
                    pt = spec[i].get('pt', 2)
                    return {0: (0, order[i]), 1: (2, order[i]), 3: (1, 0)}.get(pt, (1, 0))
                if len(tags) > 1 and tags != [0]:
                    # several calls: the saved scheduling order still holds
                    pass
                if [t for t, _ in got] != sorted(t for t, _ in got):
                    fails.append('ticks out of order: %s' % (got,))
                else:
                    for a, b in zip(got, got[1:]):
                        if a[0] == b[0] and cls(a[1]) > cls(b[1]):
                            fails.append('restored from tick %s: at tick %s event %s ran before %s' % (start, a[0], a[1], b[1]))
                    for t in {t for t, _ in got}:
                        prs = [spec[i]['pr'] for tt, i in got if tt == t and spec[i].get('pt') == 3]
                        if prs != sorted(prs):
                            fails.append('restored from tick %s: priorities ran in order %s' % (start, prs))
            if c['tick'] != stop:
                fails.append('the restored run ended at tick %s, expected %s' % (c['tick'], stop))
        return Result(fails, most >= 2, ['subset', 'tags%d' % len(tags), 'newstop%s' % (new_stop is not None)])


CHECK = C04()

"""C04: runs a program saving checkpoints between ticks, then restores each and continues."""
import io
import dill
from repast4py import schedule, random, checkpoint
from repast4py.schedule import PriorityType

PT = [PriorityType.FIRST, PriorityType.LAST, PriorityType.RANDOM, PriorityType.BY_PRIORITY]


class Runaway(Exception):
    pass


class World:
    def __init__(self):
        self.trace, self.evts, self.counts, self.specs = [], {}, {}, {}


def run(comm, prog):
    rank = comm.Get_rank()
    random.init(prog['seed'] + rank)
    runner = schedule.init_schedule_runner(comm)
    w = World()
    pickles, objs = [], {}

    def maker(w, spec):
        w.specs[spec['id']] = spec

        def f():
            fire(w, spec)
        return f

    def fire(w, spec):
        i = spec['id']
        runner = schedule.runner()
        w.trace.append([i, runner.tick(), float(random.default_rng.random())])
        if len(w.trace) > 4000:
            raise Runaway()
        n = w.counts.get(i, 0)
        w.counts[i] = n + 1
        for act in spec.get('acts', ()):
            if act.get('on', 0) != n:
                continue
            if act['a'] == 'sch':
                sch(w, act['spec'], runner.tick())
            elif act['a'] == 'void':
                if act['id'] in w.evts:
                    w.evts[act['id']].void()

    common = {}

    def meta(spec):
        if prog['seed'] % 3 == 0:       # one dictionary is used for all events
            common.clear()
            common.update(meta1(spec))
            return common
        return meta1(spec)

    def meta1(spec):
        m = {'id': spec['id'], 'late': (lambda evt: ['saved', spec['id']])}
        if spec.get('tag'):
            m['tag'] = 't%d' % spec['tag']
        return m

    def sch(w, spec, base):
        runner = schedule.runner()
        k, at = spec['k'], base + spec['at']
        f = maker(w, spec)
        kw = {'metadata': meta(spec)}
        if spec.get('pt', -1) >= 0:
            kw['priority_type'] = PT[spec['pt']]
            if spec['pt'] == 3:
                kw['priority'] = spec['pr']
        if k == 'one':
            e = runner.schedule_event(at, f, **kw)
        elif k == 'rep':
            e = runner.schedule_repeating_event(at, spec['iv'], f, **kw)
        elif k == 'stop':
            e = runner.schedule_stop(at)
        elif k == 'end':
            e = runner.schedule_end_event(f, metadata=meta(spec))
        w.evts[spec['id']] = e

    def all_specs(evs):
        for e in evs:
            yield e
            yield from all_specs([a['spec'] for a in e.get('acts', ()) if a['a'] == 'sch'])

    def save():
        ckp = checkpoint.Checkpoint()
        if prog.get('sched_first'):
            ckp.save_schedule()
            ckp.save_random()
        else:
            ckp.save_random()
            ckp.save_schedule()
        ckp.save('counts', dict(w.counts))
        b = io.BytesIO()
        dill.dump(ckp, b)
        pickles.append([b.getvalue(), len(w.trace), schedule.runner().tick()])

    p = prog['ranks'][rank]
    for s in p['events']:
        sch(w, s, 0.)
    for i in p.get('voids', ()):
        w.evts[i].void()
    if prog['saves'] and prog['saves'][0] < 0:
        save()
    for t in prog['saves']:
        if t >= 0:
            runner.schedule_event(t, save, metadata={'id': -1})
    runner.execute()
    out = {'trace': w.trace, 'tick': runner.tick(), 'conts': []}
    by_id = {s['id']: s for s in all_specs(p['events'])}
    refuse = set(prog.get('refuse', ()))
    common.clear()
    twice = 2 if prog['seed'] % 2 else 1        # restored twice from one checkpoint object
    for data, pos, tick in pickles * twice:
        ckp = objs.get(data) or dill.loads(data)
        if twice > 1:
            objs[data] = ckp
        # disturb what must be restored
        random.init(99)
        random.default_rng.random(5)
        w2 = World()
        bad = []

        def create(md):
            if md['id'] == -1 or md['id'] in refuse:
                return checkpoint.IGNORE_EVT
            if md.get('late') != ['saved', md['id']]:
                bad.append('metadata %r' % (md,))
            return maker(w2, by_id[md['id']])

        def proc(md, e):
            if 'id' in md:
                w2.evts[md['id']] = e
        ckp.restore_random()
        first = True
        for tag in prog.get('tags', [0]):
            kw = {'restore_stop_at': prog.get('stop_at', True), 'initialize': first}
            if tag:
                kw['tag'] = 't%d' % tag
            r2 = ckp.restore_schedule(comm, create, proc, **kw)
            first = False
        w2.counts = ckp.restore('counts', lambda x: dict(x))
        at_restore = r2.tick()
        if prog.get('new_stop') is not None:
            r2.schedule_stop(prog['new_stop'])
        r2.execute()
        out['conts'].append({'pos': pos, 'saved_tick': tick, 'restored_tick': at_restore, 'trace': w2.trace,
                             'tick': r2.tick(), 'bad': bad[:3]})
    return out

"""Executes a schedule program (C01-C03) and returns the trace."""
import time
from repast4py import schedule, random
from repast4py.schedule import PriorityType, create_arg_evt

PT = [PriorityType.FIRST, PriorityType.LAST, PriorityType.RANDOM, PriorityType.BY_PRIORITY]


class Runaway(Exception):
    pass


def run(comm, prog):
    rank = comm.Get_rank()
    random.init(prog['seed'] + rank)
    runner = schedule.init_schedule_runner(comm)
    assert schedule.runner() is runner
    trace, evts, counts = [], {}, {}
    limit = prog.get('limit', 3000)

    def fire(spec):
        i = spec['id']
        trace.append([i, runner.tick(), time.monotonic_ns()])
        if len(trace) > limit:
            raise Runaway('more than %d events ran' % limit)
        if spec.get('sleep'):
            time.sleep(spec['sleep'] / 1000.)
        n = counts.get(i, 0)
        counts[i] = n + 1
        for act in spec.get('acts', ()):
            if act.get('on', 0) != n:
                continue
            if act['a'] == 'sch':
                sch(act['spec'], runner.tick())
            elif act['a'] == 'void':
                if act['id'] in evts:
                    evts[act['id']].void()
            elif act['a'] == 'stop':
                runner.stop()

    def sch(spec, base):
        k, at = spec['k'], base + spec['at']
        f = create_arg_evt(fire, spec) if spec['id'] % 2 else (lambda: fire(spec))
        kw = {}
        if spec.get('pt', -1) >= 0:
            kw['priority_type'] = PT[spec['pt']]
            if spec['pt'] == 3:
                kw['priority'] = spec['pr']
        if k == 'one':
            e = runner.schedule_event(at, f, **kw)
        elif k == 'rep':
            e = runner.schedule_repeating_event(at, spec['iv'], f, **kw)
        elif k == 'stop':
            e = runner.schedule_stop(at)
        elif k == 'end':
            e = runner.schedule_end_event(f)
        evts[spec['id']] = e

    p = prog['ranks'][rank]
    for s in p['events']:
        sch(s, 0.)
    for i in p.get('voids', ()):
        if i in evts:
            evts[i].void()
    runner.execute()
    return {'trace': trace, 'tick': runner.tick()}

"""Schedule programs: their generation and the trace validator (the oracle of C01-C04).

The validator replays an observed trace: for every executed event it checks that the event is
pending at that tick and may run next by the documented ordering rules, then applies the actions
the event carries to its own state. It returns two lists of complaints: ordering within ticks
(C01) and which events run when (C02).
"""
from hypothesis import strategies as st

FIRST, LAST, RANDOM, PRIO = 0, 1, 2, 3


def validate(prog, trace, final_tick=None, start=None, collect=None):
    order_f, time_f = [], []
    counter = [0]
    pending = {}    # id -> dict(at, spec, order)
    ends = {}       # id -> voided
    end_order = []
    stop_events = {}
    voided = set()
    cur = [-1e-39]    # 0 is the first valid tick
    state = {'stop': None}

    def sch(spec, base):
        at = base + spec['at']
        k = spec['k']
        if k == 'end':
            if spec['id'] not in ends:
                ends[spec['id']] = False
                end_order.append(spec['id'])
            return
        if at < cur[0]:
            return
        counter[0] += 1
        pending[spec['id']] = {'at': at, 'spec': spec, 'order': counter[0], 'pt': spec.get('pt', RANDOM) if k != 'stop' else RANDOM,
                               'k': k, 'n': 0}
        if pending[spec['id']]['pt'] == -1:
            pending[spec['id']]['pt'] = RANDOM

    def void(i):
        if i in ends:
            ends[i] = True
        elif i in pending:
            del pending[i]

    for s in prog['events']:
        sch(s, 0.)
    for i in prog.get('voids', ()):
        void(i)
    pos = 0
    counts = {}
    ran_ends = []
    specs_by_id = {}

    def index(spec):
        specs_by_id[spec['id']] = spec
        for a in spec.get('acts', ()):
            if a['a'] == 'sch':
                index(a['spec'])
    for s in prog['events']:
        index(s)
    n = len(trace)
    stats = {'ticks': 0, 'inadd': 0, 'voids': 0, 'ignored': 0, 'maxgroup': 0}
    while pending and state['stop'] is None:
        tick = min(p['at'] for p in pending.values())
        cur[0] = tick
        stats['ticks'] += 1
        stats['maxgroup'] = max(stats['maxgroup'], sum(1 for p in pending.values() if p['at'] == tick))
        # stop events are invisible; they take effect at the end of their tick, but a stop event may be
        # voided by an event of its own tick running before or after it: track both possibilities
        stop_maybe = [False]
        stop_sure = [False]
        while True:
            here = {i: p for i, p in pending.items() if p['at'] == tick}
            vis = {i: p for i, p in here.items() if p['k'] != 'stop'}
            if pos < n and trace[pos][1] == tick and trace[pos][0] in vis:
                i = trace[pos][0]
                e = vis[i]
                others = [p for j, p in vis.items() if j != i]
                if e['pt'] == FIRST:
                    if any(p['pt'] == FIRST and p['order'] < e['order'] for p in others):
                        order_f.append('tick %s: FIRST event %d ran before an earlier scheduled FIRST event' % (tick, i))
                elif e['pt'] == LAST:
                    if any(p['pt'] != LAST for p in others):
                        order_f.append('tick %s: LAST event %d ran before events %s' % (
                            tick, i, [j for j, p in vis.items() if p['pt'] != LAST]))
                    if any(p['pt'] == LAST and p['order'] < e['order'] for p in others):
                        order_f.append('tick %s: LAST event %d ran before an earlier scheduled LAST event' % (tick, i))
                else:
                    if any(p['pt'] == FIRST for p in others):
                        order_f.append('tick %s: event %d ran before a pending FIRST event' % (tick, i))
                    if e['pt'] == PRIO:
                        low = [j for j, p in vis.items() if p['pt'] == PRIO and p['spec']['pr'] < e['spec']['pr']]
                        if low:
                            order_f.append('tick %s: BY_PRIORITY event %d (priority %s) ran before %s' % (
                                tick, i, e['spec']['pr'], [(j, vis[j]['spec']['pr']) for j in low]))
                pos += 1
                c = counts.get(i, 0)
                counts[i] = c + 1
                if collect is not None:
                    collect.append((tick, i))
                # the event leaves the tick; a repeating one comes back unless it voids itself
                del pending[i]
                selfvoid = False
                for act in e['spec'].get('acts', ()):
                    if act.get('on', 0) != c:
                        continue
                    if act['a'] == 'sch':
                        was = len(pending)
                        sch(act['spec'], tick)
                        if act['spec']['k'] != 'end':
                            if len(pending) == was:
                                stats['ignored'] += 1
                            elif act['spec']['at'] == 0:
                                stats['inadd'] += 1
                    elif act['a'] == 'void':
                        stats['voids'] += 1
                        if act['id'] == i:
                            selfvoid = True
                        else:
                            if act['id'] in pending and pending[act['id']]['k'] == 'stop' and pending[act['id']]['at'] == tick:
                                stop_maybe[0] = True
                            void(act['id'])
                    elif act['a'] == 'stop':
                        stop_sure[0] = True
                if e['k'] == 'rep' and not selfvoid:
                    e['at'] = tick + e['spec']['iv']
                    pending[i] = e
                continue
            # nothing more of this tick in the trace
            if vis:
                nxt = trace[pos] if pos < n else None
                time_f.append('events %s did not run at tick %s%s' % (
                    sorted(vis), tick, '' if nxt is None else '; ran instead: event %s at tick %s' % (nxt[0], nxt[1])))
                return order_f, time_f, stats
            for i in list(here):
                if here[i]['k'] == 'stop':
                    stop_sure[0] = True
                    del pending[i]
            break
        if stop_sure[0]:
            state['stop'] = tick
        elif stop_maybe[0]:
            # either is right: decide by what follows
            rest = [t for t in trace[pos:] if t[0] not in ends]
            if not rest and final_tick in (None, tick):
                state['stop'] = tick
    rest = trace[pos:]
    want = [i for i in end_order if not ends[i]]
    got = [t[0] for t in rest]
    extra = [i for i in got if i not in ends]
    if extra:
        time_f.append('after the stop at tick %s these ran: %s' % (state['stop'], [t[:2] for t in rest if t[0] in extra]))
    elif sorted(got) != sorted(want):
        time_f.append('end events ran: %s, scheduled: %s' % (got, want))
    if final_tick is not None and state['stop'] is not None and final_tick != state['stop']:
        time_f.append('the run ended at tick %s, stop was at %s' % (final_tick, state['stop']))
    return order_f, time_f, stats


# ---------------------------------------------------------------- generation

TICKS = [0., 1., 2., 3., 4., 5., 6., 1.5, 2.5, 0.25, 3.75, -1., 1., -2.5]
IVS = [1., 2., 0.5, 3., 1.5, 0.25]
PRIOS = [1., 2., 3., -1., 0., 0.5, 5., 1e6]
DELTAS = [0., 1., 0., 2., 0.5, -1., 0., 3., -0.25]


# (base, scale): a tick t of the program becomes base + scale * t, exactly
WARPS = [(0., 1.), (0., 1.), (2. ** 31, 1.), (0., 1.), (2. ** 40, 2. ** -8), (0., 2. ** -30), (1., 2. ** -40), (2. ** 20, 0.5)]


def warp(evs, w, top=True):
    """Moves and scales all times of a program, in place."""
    base, scale = w
    for e in evs:
        e['at'] = (base if top else 0.) + scale * e['at']
        if 'iv' in e:
            e['iv'] *= scale
        warp([a['spec'] for a in e.get('acts', ()) if a['a'] == 'sch'], w, False)
    return evs


def raw_spec(depth):
    """(kind, at, interval, ptype, priority, actions, on)"""
    acts = st.just([]) if depth == 0 else st.lists(
        st.one_of(st.tuples(st.just('sch'), raw_spec(depth - 1), st.integers(0, 2)),
                  st.tuples(st.just('void'), st.integers(0, 30), st.integers(0, 2)),
                  st.tuples(st.just('sch'), raw_spec(depth - 1), st.just(0))), max_size=3 if depth > 1 else 2)
    return st.tuples(st.integers(0, 9), st.integers(0, 63), st.integers(0, len(IVS) - 1), st.integers(-1, 3),
                     st.integers(0, len(PRIOS) - 1), acts)


def build(raws, ids=None, same_tick=False):
    """Turns raw specs into a concrete program (a list of events)."""
    ids = ids if ids is not None else [0]
    total = []

    def count(raw):
        ids_here = 1
        for a in raw[5]:
            if a[0] == 'sch':
                ids_here += count(a[1])
        return ids_here
    n = sum(count(r) for r in raws)

    def mk(raw, top):
        i = ids[0]
        ids[0] += 1
        kk, at, iv, pt, pr, acts = raw
        k = 'one' if kk < 5 else 'rep' if kk < 8 else 'end' if kk == 8 else 'stop'
        if top:
            t = TICKS[at % len(TICKS)] if not same_tick else float(at % 2)
            if k == 'stop':
                t += 3.
        else:
            t = DELTAS[at % len(DELTAS)]
        spec = {'id': i, 'k': k, 'at': t}
        if k == 'rep':
            spec['iv'] = IVS[iv]
        if k in ('one', 'rep'):
            spec['pt'] = pt
            if pt == 3:
                spec['pr'] = PRIOS[pr]
        out = []
        if k != 'stop' and k != 'end':
            for a in acts:
                if a[0] == 'sch':
                    out.append({'a': 'sch', 'spec': mk(a[1], False), 'on': a[2]})
                elif a[0] == 'void':
                    out.append({'a': 'void', 'id': a[1] % max(1, n), 'on': a[2]})
        spec['acts'] = out
        total.append(spec)
        return spec
    return [mk(r, True) for r in raws]

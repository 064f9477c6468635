"""C06, C07, C09, C10, C11, C19, C29: a program of model steps on several ranks, dumped after every synchronization.

Every rank gets the same program. An operation is performed by the rank on which its agent is local; the
rank writes what it did to its log, from which the driver's model (worldmodel.py) is updated.
"""
import gc
import itertools
import sys
import weakref
import dill
from repast4py import random, context, core, space, network, checkpoint
from repast4py.geometry import BoundingBox
from repast4py.space import DiscretePoint, ContinuousPoint, BorderType, OccupancyType
import math


REG = None      # with 'mem': every agent made on this rank


class W(core.Agent):
    # half of the agents keep, and save, an object that they change in place
    def __init__(self, uid, state):
        super().__init__(id=uid[0], type=uid[1], rank=uid[2])
        self.cell = [state] if uid[0] % 2 and not isinstance(state, list) else state
        self.made = uid
        if REG is not None:
            REG.append((weakref.ref(self), self.uid))

    def save(self):
        return (self.uid, self.cell)

    def update(self, cell):
        self.cell = cell

    @property
    def state(self):
        return self.cell[0] if isinstance(self.cell, list) else self.cell

    @state.setter
    def state(self, state):
        if isinstance(self.cell, list):
            self.cell[0] = state
        else:
            self.cell = state


def make_restore(mode):
    if mode == 0:
        return lambda d: W(d[0], d[1])
    cache = {}

    def restore(d):
        a = cache.get(d[0])
        if a is None:
            a = cache[d[0]] = W(d[0], d[1])
        else:
            a.cell = d[1]
        return a
    return restore


def build(comm, prog, cx, addnets=True):
    spaces, nets = [], []
    if prog['spaces']:
        b = prog['bounds']
        box = BoundingBox(*b)
        per = BorderType.Periodic if prog['periodic'] else BorderType.Sticky
        for i, (kind, buf, single) in enumerate(prog['spaces']):
            occ = OccupancyType.Single if single else OccupancyType.Multiple
            if kind == 0:
                s = space.SharedGrid('s%d' % i, box, per, occ, buf, comm)
            else:
                s = space.SharedCSpace('s%d' % i, box, per, occ, buf, comm, prog.get('tree', 10))
            spaces.append((kind, s))
    for i, d in enumerate(prog['nets']):
        nets.append((network.DirectedSharedNetwork if d else network.UndirectedSharedNetwork)('n%d' % i, comm))
    order = [s for _, s in spaces] + nets
    if prog.get('netsfirst'):
        order = nets + [s for _, s in spaces]
    late = late_ones(prog, spaces, nets)
    for p in order:
        if (addnets or p not in nets) and all(p is not q for q, _ in late):
            cx.add_projection(p)
    return spaces, nets


def late_ones(prog, spaces, nets):
    """The projections that are added in the midst of the program, with the step."""
    return [((spaces[i][1] if what == 's' else nets[i]), k) for what, i, k in prog.get('late', ())]


def point(kind, c):
    return DiscretePoint(*[int(math.floor(v)) for v in c]) if kind == 0 else ContinuousPoint(*[float(v) for v in c])


def loc(s, a):
    p = s.get_location(a)
    return None if p is None else [p.x, p.y, p.z]


def dump(comm, prog, cx, spaces, nets, known):
    rank = comm.Get_rank()
    out = {'locals': [[list(a.uid), a.state, a.local_rank, [loc(s, a) for _, s in spaces]] for a in cx.agents()],
           'ghosts': [], 'spaces': [], 'nets': [], 'sizes': cx.size()[-1]}
    for u in sorted(known):
        g = cx.ghost_agent(u)
        if g is not None:
            out['ghosts'].append([list(g.uid), g.state, g.local_rank])
    b = prog['bounds'] if prog['spaces'] else None
    for kind, s in spaces:
        seen = []
        if kind == 0:
            for x, y, z in itertools.product(*[range(b[2 * k], b[2 * k] + b[2 * k + 1]) if b[2 * k + 1] else (0,) for k in range(3)]):
                pt = DiscretePoint(x, y, z)
                for a in s.get_agents(pt):
                    seen.append([list(a.uid), a.state, loc(s, a), cx.agent(a.uid) is a, [x, y, z]])
        else:
            for a in s.get_agents_within(BoundingBox(*b)):
                p = loc(s, a)
                at = s.get_agents(ContinuousPoint(*p))
                seen.append([list(a.uid), a.state, p, cx.agent(a.uid) is a, p])
                if sum(1 for x in at if x is a) != 1:
                    seen[-1][-1] = 'found %d times there' % sum(1 for x in at if x is a)
        lb = s.get_local_bounds()
        out['spaces'].append({'seen': seen, 'lb': [lb.xmin, lb.xextent, lb.ymin, lb.yextent, lb.zmin, lb.zextent]})
    for n in nets:
        out['nets'].append({'nodes': [[list(a.uid), a.state, a.local_rank, cx.agent(a.uid) is a] for a in n],
                            'edges': [[list(u.uid), list(v.uid), dict(d)] for u, v, d in n.graph.edges(data=True)],
                            'num': [[list(a.uid), n.num_edges(a)] for a in cx.agents() if a in n],
                            'counts': [n.node_count, n.edge_count]})
    if prog.get('ident'):
        every = [('local agent', a) for a in cx.agents()] + [('ghost', cx.ghost_agent(u)) for u in sorted(known)]
        every += [('node', a) for n in nets for a in n]
        out['ident'] = [[k, list(a.made), [a.id, a.type, a.uid_rank, list(a.uid)]] for k, a in every if a is not None]
    return out


class Step:
    """What all ranks know about the current step: homes, removals, who edits which edge."""

    def __init__(self, comm, cx, ops):
        self.homes = {}
        for r, uids in enumerate(comm.allgather([a.uid for a in cx.agents()])):
            for u in uids:
                self.homes.setdefault(u, r)
        self.removed, self.pairs = set(), {}
        self.removing = set(tuple(o[1]) for o in ops if o[0] == 'rem')


def do(comm, prog, cx, spaces, nets, ops, known, restore, log, idle=()):
    rank = comm.Get_rank()
    st = Step(comm, cx, ops)
    for i, op in enumerate(ops):
        o = op[0]
        if o == 'add':
            _, r, uid, state, pos = op
            uid = tuple(uid)
            if r >= comm.size or uid in st.homes or uid in st.removed:
                continue
            known.add(uid)
            st.homes[uid] = r
            if r == rank:
                a = W(uid, state)
                cx.add(a)
                for kind, s in spaces:
                    if pos is not None and s not in idle:
                        s.move(a, point(kind, pos))
                log.append([i, [loc(s, a) for _, s in spaces]])
            continue
        if o == 'request':
            want = []
            for r, uid in op[1]:
                uid = tuple(uid)
                if isinstance(r, (list, tuple)):        # the rank on which that agent is local
                    r = st.homes.get(tuple(r)) if tuple(r) not in st.removed else None
                if r == rank and st.homes.get(uid, rank) != rank and uid not in (st.removed if prog.get('both') else st.removing):
                    want.append((uid, st.homes[uid]))
            got = cx.request_agents(want, restore)
            log.append([i, [[list(a.uid), a.state, a.local_rank] for a in got], sorted(set(u for u, _ in want))])
            continue
        if o in ('edge', 'upd', 'del'):
            _, ni, u, v, side, at = op
            u, v = tuple(u), tuple(v)
            x, y = (u, v) if side == 0 else (v, u)
            if ni >= len(nets) or nets[ni] in idle or x not in st.homes or y not in st.homes or x in st.removed:
                continue
            hx, hy = st.homes[x], st.homes[y]
            if hx == hy and y in st.removed:
                continue
            pair = (ni, min(u, v), max(u, v))
            if not prog.get('both') and ((hx != hy and y in st.removing) or st.pairs.setdefault(pair, hx) != hx):
                continue
            if hx != rank:
                continue
            n = nets[ni]
            ax, ay = cx.agent(x), cx.agent(y) if hy == rank else cx.ghost_agent(y)
            if ax is None or ay is None:
                continue
            au, av = (ax, ay) if side == 0 else (ay, ax)
            has = n.contains_edge(au, av)
            if o == 'edge':
                if has and not prog.get('readd'):
                    continue
                n.add_edge(au, av, **at)
            elif not has:
                continue
            elif o == 'upd':
                n.update_edge(au, av, **at)
            else:
                n.remove_edge(au, av)
            log.append([i])
            continue
        if o == 'clear':
            if op[1] < len(nets) and op[2] < comm.size:
                pass
            continue
        uid = tuple(op[1])
        if uid not in st.homes or uid in st.removed:
            continue
        if o == 'rem':
            st.removed.add(uid)
            if st.homes[uid] == rank:
                cx.remove(cx.agent(uid))
                log.append([i])
        elif st.homes[uid] == rank:
            a = cx.agent(uid)
            if o == 'state':
                a.state = op[2]
                log.append([i])
            elif o == 'move':
                ret = [None if s in idle else s.move(a, point(kind, op[2])) for kind, s in spaces]
                log.append([i, [loc(s, a) for _, s in spaces], [None if p is None else [p.x, p.y, p.z] for p in ret]])
    return st


def renew(comm, prog, cx, spaces, nets, end, restore):
    """Saves the model in a checkpoint, and restores it in a new context with new projections."""
    _, _, late, order = end
    rank = comm.Get_rank()
    ck = checkpoint.Checkpoint()
    ck.save_agents(cx.agents())
    for _, s in spaces:
        ck.save_space(cx, s)
    for n in nets:
        ck.save_network(n, rank)
    if late:        # what happens in the model after the save is not saved
        for a in cx.agents():
            for k, s in spaces:
                p = s.get_location(a)
                s.move(a, point(k, [p.x + 1, p.y + 1 if prog['bounds'][3] else 0, 0]))
        for n in nets:
            for u, v in list(n.graph.edges):
                if order % 2:
                    n.update_edge(u, v, late=1)
                else:
                    n.remove_edge(u, v)
    ck = dill.loads(dill.dumps(ck))
    if len(prog['steps']) % 2 and not prog.get('mem'):
        restored(comm, prog, ck, order, restore)        # restored again below, from the same object
    return restored(comm, prog, ck, order, restore)


def restored(comm, prog, ck, order, restore):
    cx = context.SharedContext(comm)
    if order < 2:
        spaces, nets = build(comm, prog, cx)
    for a in ck.restore_agents(lambda d: W(d[0], d[1])):
        cx.add(a)
    if order >= 2:
        spaces, nets = build(comm, prog, cx, order < 4)
    todo = [(0, s) for _, s in spaces] + [(1, n) for n in nets]
    for k, p in (reversed(todo) if order % 2 else todo):
        if k == 0:
            ck.restore_space(cx, p)
        else:
            ck.restore_network(cx, p, restore)
    if order >= 4:
        for n in nets:
            cx.add_projection(n)
    return cx, spaces, nets


def living(cx, nets, spaces, known):
    """The agents on this rank that nothing the user can see refers to, and those that are there twice."""
    seen = [id(a) for a in cx.agents()] + [id(cx.ghost_agent(u)) for u in known if cx.ghost_agent(u) is not None]
    seen += [id(a) for n in nets for a in n]
    gc.collect()
    return [list(u) for w, u in REG if w() is not None and id(w()) not in seen]


def run(comm, prog):
    global REG
    if not prog.get('mem'):
        return run1(comm, prog, {})[0]
    REG = []
    held = {'pts': [], 'arr': []}
    try:
        out, left = run1(comm, prog, held)
        # the context, the spaces and the networks are gone now
        gc.collect()
        bad = ['%s is still alive' % (u,) for w, u in REG if w() is not None]
        uids, refs = [u for _, u in REG], {}
        for name, h in (('unique id tuple', uids), ('point', held['pts']), ('coordinates', held['arr'])):
            extra = 1 if name == 'coordinates' else 0
            for k in range(len(h)):
                x = h[k]
                n = sys.getrefcount(x) - 2 - sum(1 for y in h if y is x)
                n -= sum(1 for _, u in REG if u is x) if name == 'unique id tuple' else 0
                n -= extra
                if n - SELF:
                    bad.append('there are %+d references to a %s of a freed agent' % (n - SELF, name))
                x = y = None
        return out, bad
    finally:
        REG = None


def _self():
    h = [object()]
    for k in range(1):
        x = h[k]
        n = sys.getrefcount(x) - 2 - sum(1 for y in h if y is x)
    return n


SELF = _self()


def run1(comm, prog, held):
    rank = comm.Get_rank()
    random.init(prog.get('seed', 1))
    cx = context.SharedContext(comm)
    spaces, nets = build(comm, prog, cx)
    restore = make_restore(prog.get('restore', 0))
    known, out = set(), []
    for k, step in enumerate(prog['steps']):
        log = []
        if prog.get('mem'):
            for a in cx.agents():
                for _, s in spaces:
                    p = s.get_location(a)
                    if p is not None and len(held['pts']) < 12:
                        held['pts'].append(p)
                        held['arr'].append(p.coordinates)
            a = s = p = None
        late = late_ones(prog, spaces, nets)
        for p, at in late:
            if at == k:
                cx.add_projection(p)
                kind = [x for x, s in spaces if s is p]
                for a in cx.agents() if kind else ():
                    q = spaces[0][1].get_location(a)
                    if q is not None:
                        log.append([-1, list(a.uid), loc(spaces[0][1], a), [s is p for _, s in spaces].index(True)])
                        p.move(a, point(kind[0], [q.x, q.y, q.z]))
                        log[-1].append(loc(p, a))
        a = q = None
        st = do(comm, prog, cx, spaces, nets, step['ops'], known, restore, log, [p for p, at in late if at > k])
        end, moved, pre = step['end'], [], None
        if end[0] == 'sync':
            cx.synchronize(restore)
        elif end[0] == 'nosync':
            cx.synchronize(restore, sync_ghosts=False)
        elif end[0] == 'move':
            done = set()
            for uid, dest in end[1]:
                uid = tuple(uid)
                if uid in done or uid in st.removed or uid not in st.homes or dest >= comm.size or st.homes[uid] == dest and not prog.get('stay'):
                    continue
                done.add(uid)
                if st.homes[uid] == rank:
                    moved.append((uid, dest))
            cx.move_agents(moved, restore)
        elif end[0] == 'ckp':
            if end[1]:
                cx.synchronize(restore)
            pre = dump(comm, prog, cx, spaces, nets, known)
            restore = make_restore(prog.get('restore', 0))
            cx, spaces, nets = renew(comm, prog, cx, spaces, nets, end, restore)
        out.append({'log': log, 'moved': [[list(u), d] for u, d in moved], 'pre': pre,
                    'dump': dump(comm, prog, cx, spaces, nets, known)})
        if prog.get('mem'):
            st = pre = None
            out[-1]['living'] = living(cx, nets, spaces, known)
            if prog['mem'] == k + 2:    # destroy all in the midst of the program, before the next synchronization
                do(comm, prog, cx, spaces, nets, (prog['steps'] + [{'ops': []}])[k + 1]['ops'], known, restore, [],
                   [p for p, at in late_ones(prog, spaces, nets) if at > k])
                break
    return out, None

"""C29: agents whose unique ids share components, in every place that keeps agents (one process)."""
from repast4py import random, context, core, space, network
from repast4py.geometry import BoundingBox
from repast4py.space import DiscretePoint, ContinuousPoint, BorderType, OccupancyType


class A(core.Agent):
    def __init__(self, uid, form):
        if form == 0 or form == 3 and uid[2]:
            super().__init__(*uid)
        elif form == 1:
            super().__init__(id=uid[0], type=uid[1], rank=uid[2])
        elif form == 3:
            super().__init__(uid[0], uid[1])
        else:
            super().__init__(rank=uid[2], id=uid[0], type=uid[1])
        self.tag = list(uid)


ATTRS = ('id', 'type', 'uid_rank', 'uid')


def check(a, u, fails, what):
    got = (a.id, a.type, a.uid_rank, a.uid)
    if got != u + (u,) or any(type(x) is not int for x in got[:3]) or type(a.uid) is not tuple or any(type(x) is not int for x in a.uid):
        fails.append('%s: agent created as %s has id, type, rank, uid %s' % (what, u, got))
    if a.tag != list(u):
        fails.append('%s: agent %s was returned in place of %s' % (what, a.tag, list(u)))


def run(comm, prog):
    fails = []
    random.init(prog['seed'])
    uids = [tuple(u) for u in prog['uids']]
    n = len(uids)
    agents = [A(u, prog['form']) for u in uids]
    for a, u in zip(agents, uids):
        check(a, u, fails, 'creation')
        if a.local_rank != u[2]:
            fails.append('creation: agent %s has local rank %s' % (u, a.local_rank))
        for name in ATTRS:
            for x in (3, a, None, (9, 9, 9), uids[0]):
                try:
                    setattr(a, name, x)
                    fails.append('%s of %s was assigned %r' % (name, u, x))
                except (AttributeError, TypeError):
                    pass
            try:
                delattr(a, name)
                fails.append('%s of %s was deleted' % (name, u))
            except (AttributeError, TypeError):
                pass
            try:
                a.uid[0] = 9
                fails.append('the uid of %s was changed in place' % (u,))
            except TypeError:
                pass
        for bad in ('1', None, 1.5, (1,), uids[0]):
            try:
                a.local_rank = bad
                fails.append('the local rank of %s was set to %r' % (u, bad))
            except TypeError:
                pass
        try:
            del a.local_rank
            fails.append('the local rank of %s was deleted' % (u,))
        except TypeError:
            pass
        if a.local_rank != u[2]:
            fails.append('after invalid assignments agent %s has local rank %s' % (u, a.local_rank))
        check(a, u, fails, 'after attempts to assign')
    for u in uids:
        for bad, err in ((lambda: A((u[0], -1 - u[1], u[2] - 1), prog['form']), ValueError), (lambda: core.Agent(u[0], str(u[1]), u[2]), TypeError),
                         (lambda: core.Agent(u[0]), TypeError), (lambda: core.Agent(2**64, u[1], u[2]), OverflowError)):
            try:
                fails.append('an agent was created by an invalid call: %s' % (bad().uid,))
            except err:
                pass
    for a, u in zip(agents, uids):
        check(a, u, fails, 'after invalid creations')
    if fails:
        return fails
    box = BoundingBox(0, n + 1, 0, 3, 0, 0)
    S, P, M = BorderType.Sticky, BorderType.Periodic, OccupancyType.Multiple
    cx = context.SharedContext(comm)
    spaces = [('Grid', space.Grid('g', box, S, M), DiscretePoint), ('SharedGrid', space.SharedGrid('sg', box, P, M, 1, comm), DiscretePoint),
              ('ContinuousSpace', space.ContinuousSpace('c', box, S, M, 2), ContinuousPoint),
              ('SharedCSpace', space.SharedCSpace('sc', box, P, M, 1, comm, 2), ContinuousPoint)]
    nets = [network.UndirectedSharedNetwork('u', comm), network.DirectedSharedNetwork('d', comm)]
    shared = [spaces[1][1], spaces[3][1]]
    for p in shared + nets:
        cx.add_projection(p)
    here, edges, types = {}, set(), set()       # index -> x or None; pairs of indexes
    for k, op in enumerate(prog['ops']):
        o, i = op[0], op[1] % n
        a = agents[i]
        if o == 'add' and i not in here:
            cx.add(a)
            types.add(uids[i][1])
            spaces[0][1].add(a)
            spaces[2][1].add(a)
            here[i] = None
        elif o == 'move' and i in here:
            x = op[2] % (n + 1)
            for name, s, pt in spaces:
                s.move(a, pt(x, 1, 0))
            here[i] = x
        elif o == 'remove' and i in here:
            cx.remove(a)
            spaces[0][1].remove(a)
            spaces[2][1].remove(a)
            del here[i]
            edges = {e for e in edges if i not in e}
        elif o == 'edge' and i in here and op[2] % n in here:
            j = op[2] % n
            if (i, j) not in edges and i != j:
                edges.add((i, j))
                edges.add((j, i))
                nets[0].add_edge(a, agents[j])
                nets[1].add_edge(a, agents[j])
                nets[1].add_edge(agents[j], a)
        elif o == 'sync':
            cx.synchronize(lambda d: None)
        else:
            continue
        w = 'after op %d %s' % (k, op)
        for j, (b, u) in enumerate(zip(agents, uids)):
            check(b, u, fails, w)
            if j in here and b.local_rank != 0:
                fails.append('%s: agent %s has local rank %s in rank 0' % (w, u, b.local_rank))
            g = cx.agent(u)
            if (g is b) != (j in here) or (g is not None and j not in here):
                fails.append('%s: the context gives %s for %s' % (w, g, u))
            if cx.ghost_agent(u) is not None:
                fails.append('%s: %s is a ghost' % (w, u))
            for name, s, pt in spaces:
                p = s.get_location(b)
                p = None if p is None else p.x
                if p != here.get(j):
                    fails.append('%s: %s is at %s in %s, expected %s' % (w, u, p, name, here.get(j)))
                if s.contains(b) != (j in here):
                    fails.append('%s: contains(%s) is %s in %s' % (w, u, s.contains(b), name))
            for t, m in enumerate(nets):
                e = sum(1 for x in edges if x[0] == j)
                if (b in m.graph) != (j in here):
                    fails.append('%s: network %d contains %s: %s' % (w, t, u, b in m.graph))
                elif j in here and m.num_edges(b) != e * (1 + t):
                    fails.append('%s: %s has %d edges in network %d, expected %d' % (w, u, m.num_edges(b), t, e * (1 + t)))
        if sorted(tuple(b.tag) for b in cx.agents()) != sorted(uids[j] for j in here):
            fails.append('%s: the context has %s' % (w, sorted(b.tag for b in cx.agents())))
        sizes = cx.size(sorted(types))
        for t in sorted(types):
            e = sorted(uids[j] for j in here if uids[j][1] == t)
            if sizes.get(t, 0) != len(e):
                fails.append('%s: %s agents of type %d, expected %s' % (w, sizes.get(t), t, e))
            if e and sorted(tuple(b.tag) for b in cx.agents(t)) != e:
                fails.append('%s: agents of type %d are %s' % (w, t, sorted(b.tag for b in cx.agents(t))))
        for x in range(n + 1):
            e = sorted(uids[j] for j in here if here[j] == x)
            for name, s, pt in spaces:
                g = sorted(tuple(b.tag) for b in s.get_agents(pt(x, 1, 0)))
                if g != e:
                    fails.append('%s: %s shows %s at %d, expected %s' % (w, name, g, x, e))
        for name, s, pt in spaces:
            if 'ontin' in name or 'CS' in name:
                g = sorted(tuple(b.tag) for b in s.get_agents_within(box))
                if g != sorted(uids[j] for j in here if here[j] is not None):
                    fails.append('%s: %s shows %s within its bounds' % (w, name, g))
        if fails:
            return fails[:4]
    return fails

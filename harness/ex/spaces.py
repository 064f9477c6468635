"""C12-C14: operations on grids and continuous spaces of one process."""
from repast4py import space, core
from repast4py.geometry import BoundingBox
from repast4py.space import DiscretePoint, ContinuousPoint, BorderType, OccupancyType


class A(core.Agent):
    def __init__(self, uid):
        super().__init__(id=uid[0], type=uid[1], rank=uid[2])


def make(kind, name, prog, comm, threshold):
    b = BoundingBox(*prog['bounds'])
    bd = BorderType.Periodic if prog['periodic'] else BorderType.Sticky
    oc = OccupancyType.Single if prog['single'] else OccupancyType.Multiple
    if kind == 'grid':
        return space.Grid(name, b, bd, oc)
    if kind == 'sgrid':
        return space.SharedGrid(name, b, bd, oc, prog.get('buffer', 1), comm)
    if kind == 'cspace':
        return space.ContinuousSpace(name, b, bd, oc, threshold)
    return space.SharedCSpace(name, b, bd, oc, prog.get('buffer', 1), comm, threshold)


def loc(p):
    return None if p is None else [p.x, p.y, p.z]


def uids(found):
    """The agents found, which can be iterated over as often as is wanted, also after a partial iteration."""
    first = [list(x.uid) for x in found]
    for x in found:
        break
    again = [list(x.uid) for x in found]
    return first if first == again else ['first', first, 'then', again]


def run(comm, prog):
    kind = prog['kind']
    disc = 'grid' in kind
    P = DiscretePoint if disc else ContinuousPoint
    ths = prog.get('thresholds', [10])
    sps = [make(kind, 's%d' % i, prog, comm, t) for i, t in enumerate(ths)]
    agents = [A(tuple(u)) for u in prog['uids']]
    out = []
    if len(prog['ops']) % 2:        # one point for everything
        same = P(0, 0, 0)

        def P(*c, same=same):
            same._reset(tuple(c) + (0,) * (3 - len(c)))
            return same
    for op in prog['ops']:
        res = []
        for sp in sps:
            o, a = op['o'], agents[op['a']] if 'a' in op else None
            r = {}
            try:
                if o == 'add':
                    sp.add(a)
                elif o == 'remove':
                    sp.remove(a)
                elif o == 'move':
                    r['ret'] = loc(sp.move(a, P(*op['pt'])))
                elif o == 'within':
                    r['ret'] = uids(sp.get_agents_within(BoundingBox(*op['box'])))
            except Exception as e:
                r['err'] = type(e).__name__
            if o != 'within':
                r['locs'] = [loc(sp.get_location(x)) for x in agents]
                r['cont'] = [sp.contains(x) for x in agents]
                if kind[0] == 's':
                    r['cont2'] = [x in sp for x in agents]
                r['at'] = []
                for w in op.get('w', []):
                    p = P(*w)
                    g = sp.get_agent(p)
                    row = [None if g is None else list(g.uid), uids(sp.get_agents(p))]
                    if kind[0] == 's':
                        row.append(sp.get_num_agents(p))
                        row.append([sp.get_num_agents(p, t) for t in range(3)])
                    r['at'].append(row)
            res.append(r)
        out.append(res)
    return out

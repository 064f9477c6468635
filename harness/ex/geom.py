"""C15-C17: rank areas, border rules, neighbourhood functions."""
import numpy as np
from repast4py import space, geometry, value_layer, core, random
from repast4py.geometry import BoundingBox
from repast4py.space import (DiscretePoint, ContinuousPoint, BorderType, OccupancyType, GridStickyBorders,
                             GridPeriodicBorders, CartesianTopology)


class A(core.Agent):
    def __init__(self, i, rank=0):
        super().__init__(id=i, type=0, rank=rank)


def xyz(p):
    return [p.x, p.y, p.z]


def borders(comm, prog):
    """C16: where each point goes under the border rule, by a border object and by moves."""
    b = BoundingBox(*prog['bounds'])
    bd = BorderType.Periodic if prog['periodic'] else BorderType.Sticky
    bo = (GridPeriodicBorders if prog['periodic'] else GridStickyBorders)(b)
    g = space.Grid('g', b, bd, OccupancyType.Multiple)
    sg = space.SharedGrid('sg', b, bd, OccupancyType.Multiple, 0, comm)
    nd = geometry.get_num_dims(b)
    a = A(1)
    g.add(a)
    sg.add(a)
    out = {'border': [], 'grid': [], 'sgrid': [], 'src': [], 'c': []}
    if nd > 1:
        c = space.ContinuousSpace('c', b, bd, OccupancyType.Multiple, 4)
        sc = space.SharedCSpace('sc', b, bd, OccupancyType.Multiple, 0, comm, 4)
        c.add(a)
        sc.add(a)
    for p in prog['pts']:
        pt, res = DiscretePoint(*p), DiscretePoint(0, 0, 0)
        bo._transform(pt, res)
        out['border'].append(xyz(res))
        out['src'].append(xyz(pt))
        bo._transform(res, res)
        out['border2'] = out.get('border2', []) + [xyz(res)]
        out['grid'].append(xyz(g.move(a, pt)))
        out['sgrid'].append(xyz(sg.move(a, pt)))
    if nd > 1:
        out['cspace'], out['scspace'] = [], []
        for p in prog['cpts']:
            pt = ContinuousPoint(*p)
            out['cspace'].append(xyz(c.move(a, pt)))
            out['scspace'].append(xyz(sc.move(a, pt)))
    return out


def nghs(comm, prog):
    """C17: the result of a neighbourhood function for each cell, in both orderings."""
    n = prog['n']
    f = getattr(geometry, 'find_%dd_nghs_%s' % (n, 'periodic' if prog['periodic'] else 'sticky'))
    mm = []
    for k in range(n):
        mm += [prog['bounds'][2 * k], prog['bounds'][2 * k] + prog['bounds'][2 * k + 1] - 1]
    mm = np.array(mm)
    out = []
    for p in prog['pts']:
        pt = DiscretePoint(*p).coordinates
        before = pt.copy()
        r = f(pt, mm)
        t = f(pt, mm, True) if n > 1 else r
        u = f(pt, mm, pytorch_order=False) if n > 1 else r
        r, t, u = ([x.tolist()] if n == 1 else x.tolist() for x in (r, t, u))
        out.append([r, t, u, bool((before == pt).all())])
    return out


def areas(comm, prog):
    """C15: this rank's areas of everything with the given bounds."""
    b = BoundingBox(*prog['bounds'])
    nd = geometry.get_num_dims(b)
    random.init(prog['seed'] + comm.Get_rank())
    out = {'lb': {}, 'gpts': [], 'cpts': [], 'rank': comm.Get_rank()}

    def bb(x):
        return [int(v) for v in x]
    for per in (False, True):
        bd = BorderType.Periodic if per else BorderType.Sticky
        s = 'per' if per else 'sticky'
        t = CartesianTopology(comm, b, per)
        out['lb']['topo ' + s] = bb(t.local_bounds)
        out['ppd'] = list(t.procs_per_dim)
        out['coords'] = list(t.coordinates)
        out['trank'] = t.comm.Get_rank()
        if not prog['small']:
            g = space.SharedGrid('g' + s, b, bd, OccupancyType.Multiple, prog['buffer'], comm)
            out['lb']['grid ' + s] = bb(g.get_local_bounds())
            out['gpts'] += [xyz(g.get_random_local_pt(random.default_rng)) for _ in range(prog['draws'])]
            if nd > 1:
                c = space.SharedCSpace('c' + s, b, bd, OccupancyType.Single, prog['buffer'], comm, 5)
                out['lb']['cspace ' + s] = bb(c.get_local_bounds())
                out['cpts'] += [xyz(c.get_random_local_pt(random.default_rng)) for _ in range(prog['draws'])]
            if nd < 3:
                v = value_layer.SharedValueLayer(comm, b, bd, prog['buffer'], 0)
                out['lb']['layer ' + s] = bb(v.local_bounds)
    return out


def run(comm, prog):
    return {'borders': borders, 'nghs': nghs, 'areas': areas}[prog['do']](comm, prog)

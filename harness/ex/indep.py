"""C31: one model, defined without reference to ranks, run on any number of them.

Every step has phases that every local agent takes in turn: sense (read what lies within the buffer
distance), and act on the agent itself (state, edges to agents within the distance, layer value, move,
birth, death). What an agent does is a function of what it senses.
"""
import itertools
import math
from repast4py import random, context, core, space, network, value_layer
from repast4py.geometry import BoundingBox
from repast4py.space import DiscretePoint, ContinuousPoint, BorderType, OccupancyType


class I(core.Agent):
    def __init__(self, uid, state):
        super().__init__(id=uid[0], type=uid[1], rank=uid[2])
        self.state = state

    def save(self):
        return (self.uid, self.state)

    def update(self, state):
        self.state = state


def restore(d):
    return I(d[0], d[1])


class Model:
    def __init__(self, comm, prog):
        self.comm, self.p, self.rank = comm, prog, comm.Get_rank()
        self.b, self.per, self.r = prog['bounds'], prog['periodic'], prog['reach']
        self.nd = sum(1 for k in range(3) if self.b[2 * k + 1])
        random.init(1)
        cx = self.cx = context.SharedContext(comm)
        box = BoundingBox(*self.b)
        per = BorderType.Periodic if self.per else BorderType.Sticky
        self.grid = self.cs = self.net = self.layer = None
        make = []
        if prog['grid']:
            self.grid = space.SharedGrid('g', box, per, OccupancyType.Multiple, prog['buf'], comm)
            make.append(self.grid)
        if prog['cspace']:
            self.cs = space.SharedCSpace('c', box, per, OccupancyType.Multiple, prog['buf'], comm, prog['tree'])
            make.append(self.cs)
        if prog['net'] is not None:
            self.net = (network.DirectedSharedNetwork if prog['net'] else network.UndirectedSharedNetwork)('n', comm)
            make.insert(prog['order'], self.net)
        for p in make:
            cx.add_projection(p)
        if prog['layer']:
            kind = value_layer.SharedValueLayer if prog['layer'] == 1 else value_layer.ReadWriteValueLayer
            self.layer = kind(comm, box, per, prog['buf'], 1)
            cx.add_value_layer(self.layer)
        lb = (self.grid or self.cs).get_local_bounds()
        self.lb = [lb.xmin, lb.xextent, lb.ymin, lb.yextent, lb.zmin, lb.zextent]
        for uid, state, pos in prog['agents']:
            if all(self.lb[2 * k] <= pos[k] < self.lb[2 * k] + self.lb[2 * k + 1] for k in range(self.nd)):
                a = I(uid, state)
                cx.add(a)
                self.move(a, pos)
        cx.synchronize(restore)

    def move(self, a, pos):
        if self.grid:
            self.grid.move(a, DiscretePoint(*[int(math.floor(v)) for v in pos]))
        if self.cs:
            self.cs.move(a, ContinuousPoint(*[float(v) for v in pos]))

    def pos(self, a):
        p = (self.cs or self.grid).get_location(a)
        return [p.x, p.y, p.z]

    def cell(self, a):
        return [int(math.floor(v)) for v in self.pos(a)]

    def axis(self, c, k, r):
        """The cells within distance r of cell c in dimension k."""
        lo, e = self.b[2 * k], self.b[2 * k + 1]
        if not e:
            return [0]
        if self.per:
            return sorted(set(lo + (v - lo) % e for v in range(c - r, c + r + 1)))
        return [v for v in range(c - r, c + r + 1) if lo <= v < lo + e]

    def cells(self, a, r):
        c = self.cell(a)
        return [self.axis(c[k], k, r) for k in range(3)]

    def sense(self, a):
        """The agents within reach: in the grid those in the cells around, in the space those in the boxes around."""
        ax = self.cells(a, self.r)
        seen = {}
        out = []
        if self.grid:
            got = []
            for c in itertools.product(*ax):
                got += [x for x in self.grid.get_agents(DiscretePoint(*c))]
            out.append(sorted((x.uid, x.state) for x in got if x is not a))
            seen.update((x.uid, x) for x in got)
        if self.cs:
            got = []
            runs = []
            for k in range(3):
                rs = []
                for v in ax[k]:
                    if self.b[2 * k + 1] and rs and rs[-1][0] + rs[-1][1] == v:
                        rs[-1][1] += 1
                    else:
                        rs.append([v, 1 if self.b[2 * k + 1] else 0])
                runs.append(rs)
            for bx in itertools.product(*runs):
                got += list(self.cs.get_agents_within(BoundingBox(*[v for r in bx for v in r])))
            out.append(sorted((x.uid, x.state) for x in got if x is not a))
            seen.update((x.uid, x) for x in got)
        val = 0
        if self.layer:
            val = sum(float(self.layer.get(DiscretePoint(*c))) for c in itertools.product(*ax))
            if self.nd > 1 or self.b[1] > 2:
                vals, locs = self.layer.get_nghs(DiscretePoint(*self.cell(a)))
                val += float(vals.sum())
        seen.pop(a.uid, None)
        return out, val, seen

    def step(self, s):
        p, cx = self.p, self.cx
        senses = {}
        agents = list(cx.agents())
        for a in agents:
            senses[a.uid] = self.sense(a)
        log = [[list(u), o, v] for u, (o, v, _) in senses.items()]
        new = {}
        for a in agents:
            o, v, seen = senses[a.uid]
            t = sum(x[1] * (k + 2) for k, lst in enumerate(o) for x in lst)
            n = sum(len(lst) for lst in o)
            new[a.uid] = int(p['ka'] * a.state + p['kb'] * t + p['kc'] * n + p['kd'] * v + a.id + 3 * a.type) % 31
        if self.net is not None:
            for a in agents:
                h = new[a.uid]
                for u, x in sorted(senses[a.uid][2].items()):
                    if u <= a.uid:
                        continue
                    pick = (h + u[0] + 2 * u[1]) % p['km']
                    e = (a, x) if not p['net'] or (h + u[0]) % 2 else (x, a)
                    if self.net.contains_edge(*e):
                        if pick == 0:
                            self.net.remove_edge(*e)
                        elif pick == 1:
                            self.net.update_edge(*e, w=h)
                    elif pick <= 1:
                        self.net.add_edge(*e, w=h, s=s)
        if self.layer:
            add = {}
            for a in agents:
                c = tuple(self.cell(a))
                add[c] = add.get(c, 0) + new[a.uid]
            for c, v in sorted(add.items()):
                pt = DiscretePoint(*c)
                self.layer.set(pt, (float(self.layer.get(pt)) + v) % 64)
            if p['layer'] == 2:
                self.layer.swap_layers()
        for a in agents:
            h = new[a.uid]
            a.state = h
            d = p['moves'][h % len(p['moves'])]
            if d is not None:
                self.move(a, [x + y for x, y in zip(self.pos(a), d)])
            if p['birth'] and h % p['birth'] == 1 and s < 15 and a.id < 4096:
                child = I((16 * a.id + s, a.type, a.uid[2]), (h * 7 + 3) % 31)
                cx.add(child)
                self.move(child, self.pos(a))
            if p['death'] and h % p['death'] == 2:
                cx.remove(a)
        cx.synchronize(restore)
        return log

    def snap(self):
        out = {'agents': [[list(a.uid), a.state, self.pos(a), self.cell(a),
                           None if self.grid is None else [self.grid.get_location(a).x, self.grid.get_location(a).y,
                                                           self.grid.get_location(a).z]] for a in self.cx.agents()]}
        if self.net is not None:
            out['edges'] = [[list(u.uid), list(v.uid), dict(d)] for u, v, d in self.net.graph.edges(data=True)
                            if self.cx.agent(u.uid) is u or self.cx.agent(v.uid) is v]
        if self.layer:
            lb = self.lb
            out['layer'] = [[list(c), float(self.layer.get(DiscretePoint(*c)))] for c in itertools.product(
                *[range(lb[2 * k], lb[2 * k] + lb[2 * k + 1]) if lb[2 * k + 1] else (0,) for k in range(3)])]
        return out


def run(comm, prog):
    m = Model(comm, prog)
    out = [{'log': [], 'snap': m.snap()}]
    for s in range(prog['steps']):
        log = m.step(s)
        out.append({'log': log, 'snap': m.snap()})
    return out

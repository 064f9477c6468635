"""C18: an operation history on networks of one rank, checked against dictionaries after every operation."""
import networkx as nx
from repast4py import random, context
from repast4py.network import DirectedSharedNetwork, UndirectedSharedNetwork
from misc import A

MISSING = (nx.NetworkXError, KeyError)


class Model:
    def __init__(self, net, directed):
        self.net, self.directed = net, directed
        self.nodes, self.edges = [], {}

    def key(self, u, v):
        k = (u.uid, v.uid)
        return k if self.directed or k in self.edges or (v.uid, u.uid) not in self.edges else (v.uid, u.uid)

    def add(self, a):
        if a.uid not in self.nodes:
            self.nodes.append(a.uid)

    def drop(self, a):
        self.nodes.remove(a.uid)
        for k in [k for k in self.edges if a.uid in k]:
            del self.edges[k]


def compare(m, agents, what, fails):
    net, name = m.net, m.net.name
    got = [a.uid for a in net]
    if sorted(got) != sorted(m.nodes) or len(set(got)) != len(got):
        return fails.append('%s: network %s iterates %s, expected %s' % (what, name, got, m.nodes))
    if net.node_count != len(m.nodes) or net.edge_count != len(m.edges):
        fails.append('%s: %s counts %d nodes and %d edges, expected %d and %d' % (
            what, name, net.node_count, net.edge_count, len(m.nodes), len(m.edges)))
    if net.is_directed is not m.directed:
        fails.append('is_directed is %r' % net.is_directed)
    ge = {}
    for u, v, d in net.graph.edges(data=True):
        k = m.key(u, v)
        if k in ge:
            fails.append('%s: %s has edge %s twice' % (what, name, k))
        ge[k] = dict(d)
    if ge != m.edges:
        fails.append('%s: %s has edges %s, expected %s' % (what, name, ge, m.edges))
    ids = set(m.nodes)
    for a in agents:
        if (a in net) is not (a.uid in ids):
            fails.append('%s: %s %s %s' % (what, name, 'contains' if a in net else 'lacks', a.uid))
        if a.uid in ids:
            n = sum(1 for k in m.edges if a.uid in k)
            loop = (a.uid, a.uid) in m.edges
            # a directed loop contains the agent as both ends: one or two are both defensible
            if net.num_edges(a) != n and not (loop and m.directed and net.num_edges(a) == n + 1):
                fails.append('%s: %s counts %d edges of %s, expected %d' % (what, name, net.num_edges(a), a.uid, n))
        for b in agents:
            e = m.key(a, b) in m.edges
            if net.contains_edge(a, b) is not e:
                fails.append('%s: contains_edge(%s, %s) in %s is %r' % (what, a.uid, b.uid, name, not e))


def run(comm, prog):
    fails = []
    random.init(1)
    agents = [A(tuple(u)) for u in prog['uids']]
    models = []
    home = context.SharedContext(comm)      # makes the agents local to this rank
    for a in agents:
        home.add(a)
    cx = context.SharedContext(comm)
    present = []
    for i, (d, inctx) in enumerate(prog['nets']):
        net = (DirectedSharedNetwork if d else UndirectedSharedNetwork)('n%d' % i, comm)
        m = Model(net, bool(d))
        m.ctx = inctx
        models.append(m)
        if inctx:
            cx.add_projection(net)

    def refused(f, what):
        try:
            f()
        except MISSING:
            return
        except Exception as e:
            return fails.append('%s raised %s: %s' % (what, type(e).__name__, e))
        fails.append('%s was accepted' % what)

    for i, op in enumerate(prog['ops']):
        o = op[0]
        m = models[op[1] % len(models)]
        net = m.net
        a = agents[op[2] % len(agents)]
        b = agents[op[3] % len(agents)] if len(op) > 3 else None
        at = op[4] if len(op) > 4 else {}
        what = 'op %d %s %s' % (i, o, [x.uid for x in (a, b) if x])
        if o == 'ctxadd':
            if a in present or any(mm.ctx and a.uid in mm.nodes for mm in models):
                continue
            cx.add(a)
            present.append(a)
            for mm in models:
                if mm.ctx:
                    mm.add(a)
        elif o == 'ctxrem':
            if not present:
                continue
            a = present[op[2] % len(present)]
            if any(mm.ctx and a.uid not in mm.nodes for mm in models):
                continue
            what = 'op %d %s %s' % (i, o, a.uid)
            cx.remove(a)
            present.remove(a)
            for mm in models:
                if mm.ctx:
                    mm.drop(a)
        elif o == 'add':
            if m.ctx:
                continue
            net.add(a)
            m.add(a)
        elif o == 'adds':
            if m.ctx:
                continue
            l = agents[op[2] % len(agents):]
            net.add_nodes(l)
            for x in l:
                m.add(x)
        elif o == 'rem':
            if m.ctx:
                continue
            if a.uid in m.nodes:
                net.remove(a)
                m.drop(a)
            else:
                refused(lambda: net.remove(a), what)
        elif o == 'edge':
            if m.ctx and not (a in present and b in present):
                continue
            net.add_edge(a, b, **at)
            m.add(a)
            m.add(b)
            m.edges.setdefault(m.key(a, b), {}).update(at)
        elif o in ('upd', 'del'):
            # mostly existing edges, in either orientation of an undirected one
            if op[5] and m.edges:
                k = sorted(m.edges)[op[2] % len(m.edges)]
                k = k if m.directed or op[3] % 2 else k[::-1]
                a, b = [next(x for x in agents if x.uid == u) for u in k]
            what = 'op %d %s %s' % (i, o, [a.uid, b.uid])
            k = m.key(a, b)
            if o == 'upd':
                if k in m.edges:
                    net.update_edge(a, b, **at)
                    m.edges[k].update(at)
                elif at:
                    refused(lambda: net.update_edge(a, b, **at), what)
            else:
                if k in m.edges:
                    net.remove_edge(a, b)
                    del m.edges[k]
                else:
                    refused(lambda: net.remove_edge(a, b), what)
        elif o == 'clear':
            net.clear_edges()
            m.edges.clear()
        elif o == 'sync':
            cx.synchronize(lambda d: A(d[0], d[1]))
        for mm in models:
            compare(mm, agents, what, fails)
        if fails:
            break
    return {'fails': fails[:4], 'edges': sum(len(m.edges) for m in models)}

"""C20: writes a graph (or takes a file's text), reads it on every rank and dumps what each rank then has."""
import os
import sys
import types
import networkx as nx
import numpy as np
from repast4py import random, context, core
from repast4py.network import write_network, read_network


class N(core.Agent):
    def __init__(self, i, t, r, attrs):
        super().__init__(id=i, type=t, rank=r)
        self.attrs = attrs

    def save(self):
        return (self.uid, self.attrs)

    def update(self, attrs):
        self.attrs = attrs


def create(i, t, r, /, **attrs):
    return N(i, t, r, attrs)


def restore(data):
    return N(*data[0], data[1])


def ghosts(cx, net):
    try:
        # those that are not part of the network too
        uids = list(cx._agent_manager._ghost_agents)
    except AttributeError:
        uids = [a.uid for a in net]
    return [list(u) for u in uids if cx.ghost_agent(u) is not None]


def dump(cx, net):
    rank = cx.comm.Get_rank()
    return {
        'locals': [[list(a.uid), a.attrs, a.local_rank] for a in cx.agents()],
        'nodes': [[list(a.uid), a.attrs, a.local_rank == rank] for a in net],
        'edges': [[list(u.uid), list(v.uid), d] for u, v, d in net.graph.edges(data=True)],
        'counts': [net.node_count, net.edge_count], 'directed': net.is_directed, 'name': net.name,
        'ghosts': ghosts(cx, net)}


def refusals(g, f):
    """What was written although it is to be refused."""
    out = []
    for what in ('metes', -1, 'a', None, [1]):
        h, kw = g.copy(), {}
        if what == 'metes':
            kw = {'partition_method': what}
        elif len(h):
            h.nodes[list(h)[len(h) // 2]]['agent_type'] = what
        else:
            continue
        try:
            write_network(h, 'g', f, 1, **kw)
            out.append(str(what))
        except ValueError:
            pass
        if os.path.exists(f):
            os.remove(f)
    return out


def run(comm, prog):
    rank = comm.Get_rank()
    random.init(prog['seed'])
    f = os.path.join(os.environ['TMPDIR'], 'net.txt')
    text, out = None, {}
    if rank == 0:
        if prog['text'] is None:
            g = (nx.DiGraph if prog['directed'] else nx.Graph)()
            for i, at in prog['nodes']:
                g.add_node(i, **at)
            for u, v, at in prog['edges']:
                g.add_edge(u, v, **at)
            kw = {}
            if prog['how'] == 1:
                kw = {'partition_method': 'random'}
            elif prog['how'] == 2:
                kw = {'partition_method': 'random', 'rng': 'default'}
            elif prog['how'] == 3:
                kw = {'rng': np.random.default_rng(prog['seed'])}
            elif prog['how'] == 6:
                # metis is not installed: a stand-in for it that returns the partition given
                given = {}
                mod = types.ModuleType('nxmetis')

                def partition(graph, nparts, **kwargs):
                    given.update(kwargs, same=graph is g, nparts=nparts)
                    return 5, [list(p) for p in prog['partition']]
                mod.partition = partition
                sys.modules['nxmetis'] = mod
                kw = {'partition_method': 'metis', 'options': 'abc', 'recursive': True}
            before = [repr(g.nodes(data=True)), repr(g.edges(data=True))]
            write_network(g, prog['name'], f, prog['parts'], **kw)
            out['same'] = before == [repr(g.nodes(data=True)), repr(g.edges(data=True))]
            if prog['how'] == 6:
                del sys.modules['nxmetis']
                out['given'] = given
            out['refused'] = refusals(g, f + '.x')
        else:
            with open(f, 'w') as h:
                h.write(prog['text'])
        with open(f) as h:
            text = h.read()
    comm.Barrier()
    cx = context.SharedContext(comm)
    if prog['bad']:
        # every rank is to refuse a description with a malformed line
        try:
            read_network(f, cx, create, restore)
        except ValueError as e:
            out['bad'] = str(e)
        comm.Barrier()
        if rank == 0:
            os.remove(f)
        return dict(out, text=text)
    read_network(f, cx, create, restore)
    net = cx.get_projection(prog['name'])
    out.update(text=text, dumps=[dump(cx, net)])
    for k in range(prog['syncs']):
        cx.synchronize(restore)
        out['dumps'].append(dump(cx, net))
    comm.Barrier()
    if rank == 0:
        os.remove(f)
    return out

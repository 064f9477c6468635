import json
import math
import re
from hypothesis import strategies as st
from core import Check, Result


def attrs():
    leaf = st.one_of(st.integers(-2**40, 2**40), st.text(max_size=4), st.booleans(), st.none(),
                     st.floats(allow_nan=False), st.sampled_from(['}', '{', '} {', 'EDGES', '"', '\\', 'a b', '\n']))
    val = st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(max_size=3), c, max_size=2)),
                       max_leaves=4)
    return st.dictionaries(st.one_of(st.sampled_from(['age', 'w', 'weight', 'name', 'rank', 'type']), st.text(min_size=1, max_size=3)),
                           val, max_size=3)


def parse(text):
    """The documented format, parsed independently: (name, directed, nodes, edges) or raises ValueError."""
    lines = text.split('\n')
    name, d = lines[0].split(' ')
    nodes, edges, k = [], [], 1
    while lines[k] != 'EDGES':
        p = lines[k].split(' ', 3)
        nodes.append((int(p[0]), int(p[1]), int(p[2]), json.loads(p[3]) if len(p) > 3 else {}))
        k += 1
    for ln in lines[k + 1:]:
        if ln:
            p = ln.split(' ', 2)
            edges.append((int(p[0]), int(p[1]), json.loads(p[2]) if len(p) > 2 else {}))
    return name, d, nodes, edges


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


class C20(Check):
    ID = 'C20'
    POOL = 5
    SHARDS = 3
    RULE = ('A graph (directed or not, loops, nested JSON attributes with braces, quotes and spaces) is partitioned and written '
            'for 1 to 5 ranks, or a description with an arbitrary partition is written by the harness; it is read on that many '
            'ranks and every rank\'s agents, network nodes, edges and attributes are compared with the graph, also after further '
            'synchronizations. Non-trivial: at least 2 ranks have nodes and an edge crosses ranks. Distinct by case.')
    CASES = {'quick': 500, 'thorough': 6000}
    PRELOAD = 'netfile'
    TIMEOUT = 30
    ASSUMPTIONS = ['node ids are distinct integers; the network name has no spaces', 'metis is not installed: a stand-in returns generated partitions']

    def strategy(self, tier):
        big = st.integers(0, 30 if tier == 'quick' else 60)
        node = st.tuples(st.one_of(st.integers(0, 40), st.integers(-2**40, 2**40)), attrs(), st.one_of(st.none(), st.integers(0, 9)),
                         st.integers(0, 4))
        edge = st.tuples(big, big, attrs())
        return st.fixed_dictionaries({
            'directed': st.booleans(), 'seed': st.integers(0, 2**32 - 1), 'n': st.sampled_from([1, 2, 2, 3, 3, 4, 5, 5]),
            'name': st.sampled_from(['net', 'g_1', 'a{b}', 'EDGES']),
            'nodes': st.one_of(st.lists(node, max_size=6, unique_by=lambda x: x[0]),
                               st.lists(node, min_size=3, max_size=20, unique_by=lambda x: x[0])),
            'edges': st.one_of(st.lists(edge, max_size=6), st.lists(edge, min_size=8, max_size=40)),
            'how': st.sampled_from([0, 1, 2, 3, 4, 4, 5, 6]), 'one': st.sampled_from([False, False, False, True]),
            'bad': st.one_of(st.none(), st.none(), st.none(), st.none(), st.tuples(st.integers(0, 40), st.integers(0, 9))), 'space': st.sampled_from([', ', ',']), 'syncs': st.integers(0, 2)})

    def graph(self, case):
        nodes = {}
        for i, at, ty, rk in case['nodes']:
            at = dict(at)
            at.pop('agent_type', None)
            nodes[i] = (0 if ty is None else ty, at, rk % case['n'], ty is not None)
        ids = list(nodes)
        edges = {}
        for u, v, at in case['edges']:
            if ids:
                u, v = ids[u % len(ids)], ids[v % len(ids)]
                k = (u, v) if case['directed'] or u <= v else (v, u)
                edges[k] = at
        return nodes, edges

    def spoil(self, text, nn, ne, at, kind, nr):
        """The description with one malformed line, and its number."""
        lines = text.split('\n')
        if kind in (2, 3, 4, 8) and nn or kind in (5, 6, 7, 9) and ne:
            k = 1 + at % nn if kind in (2, 3, 4, 8) else nn + 2 + at % ne
            p = lines[k].split(' ')
            if kind == 2:
                p = p[:2]
            elif kind == 3:
                p[at % 3] = ('x', '1.5', 'EDGES')[at % 3]
            elif kind == 4:
                p = p[:3] + ['{}', '7']
            elif kind == 5:
                p = p[:1]
            elif kind == 6:
                p[at % 2] = ('', 'b')[at % 2]
                p = p[:2]
            elif kind == 7:
                p = p[:2] + (['3', '{}'], ['{}', '3'])[at % 2]
            elif nr > 1:                        # seen only by the ranks concerned
                p = ['x']
            elif kind == 8:
                p = p[:3] + [('{"a": }', '{"a": 1', 'text', '[1]', '{\'a\': 1}')[at % 5]]
            elif at % 2:
                p[0] = str(2**50 + 1)
            else:
                p = p[:2] + ['{"w": 1,}']
            lines[k] = ' '.join(p)
        else:
            k = 0
            lines[0] = ('net', 'net 1 2', 'net x', 'net  1')[at % 4]
        return '\n'.join(lines), k + 1

    def run(self, case, pool):
        nodes, edges = self.graph(case)
        n, fails = case['n'], []
        key = (lambda u, v: (u, v)) if case['directed'] else (lambda u, v: (min(u, v), max(u, v)))
        text, bad = None, None
        nr = 1 if case['one'] else n            # a description for any number of ranks can be read on one
        if case['how'] in (4, 5):
            sep = (case['space'], ': ' if case['how'] == 4 else ' : ')
            dump = lambda at: (' ' + json.dumps(at, separators=sep)) if at else ''
            text = '%s %d\n' % (case['name'], case['directed'])
            text += ''.join('%d %d %d%s\n' % (i, ty, rk, dump(at)) for i, (ty, at, rk, _) in nodes.items())
            text += 'EDGES\n' + ''.join('%d %d%s\n' % (u, v, dump(at)) for (u, v), at in edges.items())
            if case['bad']:
                text, bad = self.spoil(text, len(nodes), len(edges), *case['bad'], nr)
        parts = [[i for i in nodes if nodes[i][2] == r] for r in range(n)]
        out = pool.run('netfile', {
            'partition': parts, 'bad': bad,
            'directed': case['directed'], 'seed': case['seed'], 'name': case['name'], 'how': case['how'], 'parts': n, 'text': text,
            'syncs': case['syncs'],
            'nodes': [[i, dict(at, agent_type=ty) if has else at] for i, (ty, at, rk, has) in nodes.items()],
            'edges': [[u, v, at] for (u, v), at in edges.items()]}, nr)
        if bad:
            lines = text.split('\n')
            for r in range(nr):
                got = out[r].get('bad')
                if got is None or not re.search(r'\bline %d\b' % bad, got):
                    fails.append('rank %d: reading line %d, "%s", %s' % (r, bad, lines[bad - 1], 'was accepted' if got is None else 'failed with: ' + got))
            return Result(fails[:4], True, ['malformed', '%d ranks' % nr])
        name, d, fn, fe = parse(out[0]['text'])
        if text is None:
            if name != case['name'] or d != str(int(case['directed'])):
                fails.append('the first line of the file is %s %s' % (name, d))
            if sorted(x[0] for x in fn) != sorted(nodes):
                fails.append('the file has nodes %s of %s' % ([x[0] for x in fn], list(nodes)))
            else:
                for i, ty, rk, at in fn:
                    if ty != nodes[i][0] or not same(at, nodes[i][1]):
                        fails.append('node %d written as type %d with %s, expected %s' % (i, ty, at, nodes[i][:2]))
            if not out[0]['same']:
                fails.append('writing the graph changed it')
            if out[0]['refused']:
                fails.append('accepted as partition method or agent_type: %s' % out[0]['refused'])
            ge = {}
            for u, v, at in fe:
                if key(u, v) in ge:
                    fails.append('edge %d %d written twice' % (u, v))
                ge[key(u, v)] = at
            if not same(sorted(ge.items()), sorted(edges.items())):
                fails.append('the file has edges %s, expected %s' % (ge, edges))
            if case['how'] == 6:
                if [[x[0] for x in fn if x[2] == r] for r in range(n)] != parts:
                    fails.append('nodes assigned as %s, the partition is %s' % ([(x[0], x[2]) for x in fn], parts))
                if out[0]['given'] != {'same': True, 'nparts': n, 'options': 'abc', 'recursive': True}:
                    fails.append('metis was called with %s' % out[0]['given'])
            for r in range(n if case['how'] != 6 else 0):
                if sum(1 for x in fn if x[2] == r) > math.ceil(len(nodes) / n):
                    fails.append('%d of %d nodes assigned to rank %d of %d' % (sum(1 for x in fn if x[2] == r), len(nodes), r, n))
        home = {x[0]: x[2] for x in fn}
        if any(not 0 <= r < n for r in home.values()):
            fails.append('nodes assigned to ranks %s of %d' % (sorted(set(home.values())), n))
        if fails:
            return Result(fails[:4])
        on = home if nr == n else dict.fromkeys(home, 0)    # the rank each node is local on
        for r in range(nr):
            for k, o in enumerate(out[r]['dumps']):
                w = 'rank %d%s: ' % (r, ' after %d more synchronizations' % k if k else '')
                got = {}
                for uid, at, lr in o['locals']:
                    if uid[0] in got or lr != r:
                        fails.append(w + 'agent %s twice or with local rank %d' % (uid, lr))
                    got[uid[0]] = at
                    if uid[0] not in nodes or uid != [uid[0], nodes[uid[0]][0], home[uid[0]]] or not same(at, nodes[uid[0]][1]):
                        fails.append(w + 'agent %s has attributes %s, expected %s' % (uid, at, nodes.get(uid[0])))
                mine = sorted(i for i in nodes if on[i] == r)
                if sorted(got) != mine:
                    fails.append(w + 'has agents %s, expected %s' % (sorted(got), mine))
                exp = {e: at for e, at in edges.items() if on[e[0]] == r or on[e[1]] == r}
                ge = {}
                for u, v, at in o['edges']:
                    e = key(u[0], v[0])
                    if e in ge:
                        fails.append(w + 'edge %s is there twice' % (e,))
                    ge[e] = at
                if not same(sorted(ge.items()), sorted(exp.items())):
                    fails.append(w + 'has edges %s, expected %s' % (ge, exp))
                ends = sorted(set(mine) | {x for e in exp for x in e})
                gn = sorted(x[0][0] for x in o['nodes'])
                if gn != ends:
                    fails.append(w + 'network nodes are %s, expected %s' % (gn, ends))
                if sorted(x[0] for x in o['ghosts']) != [x for x in ends if on[x] != r]:
                    fails.append(w + 'ghosts are %s, the remote ends %s' % (o['ghosts'], ends))
                for uid, at, loc in o['nodes']:
                    if uid[0] in nodes and (uid != [uid[0], nodes[uid[0]][0], home[uid[0]]] or not same(at, nodes[uid[0]][1]) or
                                            loc != (on[uid[0]] == r)):
                        fails.append(w + 'node %s (local: %s) has attributes %s, expected %s' % (uid, loc, at, nodes[uid[0]][1]))
                if o['name'] != case['name'] or o['directed'] is not case['directed']:
                    fails.append(w + 'network %s, directed %s' % (o['name'], o['directed']))
                if o['counts'] != [len(o['nodes']), len(o['edges'])]:
                    fails.append(w + 'counts %s' % o['counts'])
        cross = sum(1 for e in edges if home[e[0]] != home[e[1]])
        return Result(fails[:4], len(set(home.values())) > 1 and cross > 0,
                      ['given' if text is not None else 'metis' if case['how'] == 6 else 'written', '%d ranks' % n,
                       *(['read on one rank'] if nr < n else []), 'directed' if case['directed'] else 'undirected'])


CHECK = C20()

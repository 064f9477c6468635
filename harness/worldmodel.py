"""The driver's model of a multi-rank world, and the generator of its programs (executor: ex/world.py)."""
from hypothesis import strategies as st
from core import histories
import spacemodel as sm

PPD = {1: {n: [n] for n in range(1, 9)},
       2: {1: [1, 1], 2: [2, 1], 3: [3, 1], 4: [2, 2], 5: [5, 1], 6: [3, 2], 7: [7, 1], 8: [4, 2]},
       3: {1: [1, 1, 1], 2: [2, 1, 1], 3: [3, 1, 1], 4: [2, 2, 1], 5: [5, 1, 1], 6: [3, 2, 1], 7: [7, 1, 1], 8: [2, 2, 2]}}


class World:
    def __init__(self, prog, n, aspects):
        self.prog, self.n, self.aspects = prog, n, aspects
        self.agents = {}        # uid -> {'state', 'home', 'pos': [loc or None per space]}
        self.gone = set()
        self.nets = [{} for _ in prog['nets']]
        self.fails, self.labels = [], set()
        self.crossed = 0
        self.restored = False   # since a checkpoint was restored
        self.disputed = {}      # (network, edge) -> outcomes on the ranks that edited it in this step
        self.req = set()        # (rank, uid) requested and since then neither removed nor local there

    def key(self, ni, u, v):
        return (u, v) if self.prog['nets'][ni] or u <= v else (v, u)

    def fail(self, aspect, msg):
        if aspect in self.aspects or (self.restored and 'restored ' + aspect in self.aspects):
            self.fails.append(msg)

    # ----- the program's effect

    def pos_after(self, target, logged, rets, uid, what):
        """Checks where a move put the agent (single occupancy: or that it was refused)."""
        out = []
        b, per = self.prog['bounds'], self.prog['periodic']
        for k, (kind, buf, single) in enumerate(self.prog['spaces']):
            got = logged[k]
            t = [float(x) for x in target]
            if kind == 0:
                t = [int(x // 1) for x in t]
            if ('s', k) in self.idle:
                if got is not None:
                    self.fail('place', '%s: %s is in space %d, which has no agents yet' % (what, uid, k))
                out.append(None)
                continue
            if rets is not None and rets[k] is None:
                old = self.agents[uid]['pos'][k]
                if got != old:
                    self.fail('place', '%s: a refused move of %s left it at %s, it was at %s' % (what, uid, got, old))
                if not single:
                    self.fail('place', '%s: moving %s was refused' % (what, uid))
                out.append(old)
                continue
            if got is None or not sm.transform_ok(got, t, b, per, kind == 0) or (rets is not None and rets[k] != got):
                self.fail('place', '%s: moved %s to %s, it is at %s' % (what, uid, target, got))
            out.append(got)
        return out

    def late(self, logs):
        """Agents put into a space that was added to the context just now."""
        for r, (uid, at0, si, at) in logs:
            uid = tuple(uid)
            a = self.agents[uid]
            if at0 != a['pos'][0] or a['home'] != r:
                self.fail('place', '%s is at %s on rank %d, expected %s on rank %d' % (uid, at0, r, a['pos'][0], a['home']))
            t = [int(x // 1) for x in at0] if self.prog['spaces'][si][0] == 0 else [float(x) for x in at0]
            if at is None or not sm.transform_ok(at, t, self.prog['bounds'], self.prog['periodic'], self.prog['spaces'][si][0] == 0):
                self.fail('place', 'moved %s in a new space to %s, it is at %s' % (uid, t, at))
            a['pos'][si] = at
            self.labels.add('late space')

    def apply(self, k, step, outs):
        self.idle = set((w, i) for w, i, at in self.prog.get('late', ()) if at > k)
        if any(at == k and w == 'n' for w, i, at in self.prog.get('late', ())):
            self.labels.add('late network')
        before, edits = [dict((x, dict(at)) for x, at in n.items()) for n in self.nets], {}
        logs = {}
        for r, o in enumerate(outs):
            for e in o['log']:
                logs.setdefault(e[0], []).append((r, e[1:]))
        self.late(logs.get(-1, ()))
        for i, op in enumerate(step['ops']):
            o, what = op[0], 'step %d op %d' % (k, i)
            if o == 'request':
                for r, e in logs.get(i, ()):
                    if sorted(tuple(x[0]) for x in e[0]) != sorted(tuple(x) for x in e[1]):
                        self.fail('ghost', '%s: rank %d requested %s and got %s' % (what, r, e[1], e[0]))
                    for uid, state, lr in e[0]:
                        self.labels.add('requested')
                        self.req.add((r, tuple(uid)))
                        a = self.agents.get(tuple(uid))
                        if a is None or a['home'] != lr:
                            self.fail('ghost', '%s: rank %d got %s of rank %s' % (what, r, uid, lr))
                continue
            if i not in logs:
                continue
            if len(logs[i]) > 1:
                self.fail('place', '%s was performed on several ranks %s' % (what, [r for r, _ in logs[i]]))
            r, e = logs[i][0]
            self.labels.add(o)
            if o == 'add':
                uid = tuple(op[2])
                if uid in self.gone:
                    self.labels.add('again')
                    self.gone.discard(uid)
                self.agents[uid] = {'state': op[3], 'home': r, 'pos': [None] * len(self.prog['spaces'])}
                if op[4] is not None:
                    self.agents[uid]['pos'] = [p for p in e[0]] if any(
                        s[2] for s in self.prog['spaces']) and None in e[0] else self.pos_after(op[4], e[0], None, uid, what)
            elif o == 'rem':
                uid = tuple(op[1])
                del self.agents[uid]
                self.gone.add(uid)
                for n in self.nets:
                    for key in [x for x in n if uid in x]:
                        del n[key]
            elif o == 'state':
                self.agents[tuple(op[1])]['state'] = op[2]
            elif o == 'move':
                uid = tuple(op[1])
                self.agents[uid]['pos'] = self.pos_after(op[2], e[0], e[1], uid, what)
            else:
                ni, u, v = op[1], tuple(op[2]), tuple(op[3])
                if u in self.gone or v in self.gone:
                    continue
                key = self.key(ni, u, v)
                if o == 'edge' and self.agents[u]['home'] != self.agents[v]['home']:
                    self.crossed += 1
                    self.labels.add('crossing')
                mine = edits.setdefault((ni, key), {})
                if r not in mine:
                    mine[r] = dict(before[ni][key]) if key in before[ni] else None
                if o == 'del':
                    mine[r] = None
                else:
                    mine[r] = dict(mine[r] or {}, **op[5])
        self.disputed = {}
        for (ni, key), mine in edits.items():
            if any(x in self.gone for x in key):
                continue
            final = list(mine.values())
            if len(mine) > 1:
                self.labels.add('both')
            if all(x == final[0] for x in final):
                self.nets[ni].pop(key, None)
                if final[0] is not None:
                    self.nets[ni][key] = final[0]
            else:
                self.disputed[ni, key] = final
        for o in outs:
            for uid, dest in o['moved']:
                self.labels.add('moved')
                self.agents[tuple(uid)]['home'] = dest

    def rehome(self, outs):
        """Puts every located agent on the rank whose area contains it."""
        lbs = [o['dump']['spaces'][0]['lb'] for o in outs]
        n = sm.dims(self.prog['bounds'])
        for uid, a in self.agents.items():
            p = a['pos'][0]
            if p is None:
                continue
            for r, lb in enumerate(lbs):
                if all(lb[2 * k] <= p[k] < lb[2 * k] + lb[2 * k + 1] for k in range(n)):
                    if a['home'] != r:
                        self.labels.add('migrated')
                    a['home'] = r
                    break

    def settle(self, w, outs):
        """Edges edited differently from both ends: either outcome, but the same one on both ranks."""
        for (ni, key), final in self.disputed.items():
            shown = []
            for r, o in enumerate(outs):
                if any(self.agents[x]['home'] == r for x in key):
                    es = [at for u, v, at in o['dump']['nets'][ni]['edges'] if self.key(ni, tuple(u), tuple(v)) == key]
                    shown.append(es[0] if es else None)
            self.labels.add('disputed')
            if any(x != shown[0] for x in shown):
                self.fail('net', w + 'edge %s of network %d, edited from both ends to %s, is %s on its ranks' % (key, ni, final, shown))
            x = shown[0]
            if not (None in final if x is None else all(any(f is not None and f.get(a) == y for f in final) for a, y in x.items())):
                self.fail('net', w + 'edge %s of network %d, edited from both ends to %s, is %s' % (key, ni, final, x))
            self.nets[ni].pop(key, None)
            if x is not None:
                self.nets[ni][key] = x
        self.disputed = {}

    # ----- the comparison of a restored model with the saved one

    def judge_restored(self, w, r, pre, now):
        old, new = [{tuple(x[0]): x[1:] for x in d['locals']} for d in (pre, now)]
        if sorted(old) != sorted(new) or len(new) != len(now['locals']):
            self.fail('ckpspace', w + 'agents %s were saved, %s restored' % (sorted(old), sorted(new)))
            self.fail('ckpnet', w + 'agents %s were saved, %s restored' % (sorted(old), sorted(new)))
            return
        for si, s in enumerate(now['spaces']):
            for u, (_, _, pos) in old.items():
                self.labels.add('restored agent')
                if new[u][2][si] != pos[si]:
                    self.fail('ckpspace', w + '%s was saved at %s in space %d and restored at %s' % (u, pos[si], si, new[u][2][si]))
            seen = sorted((tuple(u), p, at) for u, _, p, _, at in s['seen'])
            exp = sorted((u, x[2][si], x[2][si]) for u, x in old.items())
            if seen != exp:
                self.fail('ckpspace', w + 'the restored space %d shows %s, expected %s' % (si, seen, exp))
        for ni, (a, b) in enumerate(zip(pre['nets'], now['nets'])):
            ea, eb = [{self.key(ni, tuple(u), tuple(v)): at for u, v, at in d['edges'] if tuple(u) in old or tuple(v) in old} for d in (a, b)]
            if any((x in old) != (y in old) for x, y in ea):
                self.labels.add('restored crossing')
            if ea != eb:
                self.fail('ckpnet', w + 'network %d was saved with edges %s and restored with %s' % (ni, ea, eb))
            nodes = [tuple(x[0]) for x in b['nodes']]
            if len(set(nodes)) != len(nodes) or not set(old) <= set(nodes):
                self.fail('ckpnet', w + 'network %d was restored with the nodes %s, the agents are %s' % (ni, nodes, sorted(old)))
            extra = [(u, v) for u, v, _ in b['edges'] if tuple(u) not in old and tuple(v) not in old]
            if extra:
                self.fail('ckpnet', w + 'network %d was restored with edges %s between remote agents' % (ni, extra))
            for uid, state, lr, local in b['nodes']:
                x = self.agents.get(tuple(uid))
                if x is not None and (lr != x['home'] or local != (x['home'] == r)):
                    self.fail('ckpnet', w + 'node %s of network %d has local rank %s, expected %s' % (uid, ni, lr, x['home']))

    # ----- the comparison after a synchronization

    def near(self, p, lb, buf):
        b, per = self.prog['bounds'], self.prog['periodic']
        for k in range(sm.dims(b)):
            lo, hi = lb[2 * k] - buf, lb[2 * k] + lb[2 * k + 1] + buf
            shifts = (0, -b[2 * k + 1], b[2 * k + 1]) if per else (0,)
            if not any(lo <= p[k] + s < hi for s in shifts):
                return False
        return True

    def judge(self, k, step, outs):
        self.apply(k, step, outs)
        ckp = step['end'][0] == 'ckp'
        if self.prog['spaces'] and (step['end'][1] if ckp else step['end'][0] != 'none'):
            self.rehome(outs)
        self.settle('after step %d (%s): ' % (k, step['end'][0]), outs)
        if ckp:
            self.restored = True
            self.req = set()
            for r, o in enumerate(outs):
                self.judge_restored('after step %d (checkpoint) rank %d: ' % (k, r), r, o['pre'], o['dump'])
        self.req = set((r, u) for r, u in self.req if u in self.agents and self.agents[u]['home'] != r)
        full = step['end'][0] in ('sync', 'move')
        w0 = 'after step %d' % k
        for r, o in enumerate(outs):
            d = o['dump']
            w = '%s (%s) rank %d: ' % (w0, step['end'][0], r)
            mine = sorted(u for u, a in self.agents.items() if a['home'] == r)
            got = [tuple(x[0]) for x in d['locals']]
            if sorted(got) != mine or d['sizes'] != len(got):
                self.fail('place', w + 'local agents are %s, expected %s' % (sorted(got), mine))
                continue
            for uid, state, lr, pos in d['locals']:
                a = self.agents[tuple(uid)]
                if state != a['state'] or lr != r:
                    self.fail('place', w + '%s has state %s and local rank %s, expected %s' % (uid, state, lr, a['state']))
                if pos != a['pos']:
                    self.fail('place', w + '%s is at %s, expected %s' % (uid, pos, a['pos']))
            if not full:
                continue
            for uid, state, lr in d['ghosts']:
                a = self.agents.get(tuple(uid))
                if a is None:
                    self.fail('ghost', w + 'a ghost of the removed agent %s' % uid)
                elif a['home'] == r:
                    self.fail('ghost', w + 'a ghost of the local agent %s' % uid)
                elif state != a['state']:
                    self.fail('ghost', w + 'ghost %s has state %s, its original on rank %d has %s' % (uid, state, a['home'], a['state']))
            gs = set(tuple(x[0]) for x in d['ghosts'])
            for q, u in self.req:
                if q == r and u not in gs:
                    self.fail('ghost', w + 'the requested agent %s is no ghost here' % (u,))
            for si, (s, (kind, buf, single)) in enumerate(zip(d['spaces'], self.prog['spaces'])):
                exp, got = {}, {}
                for u, a in self.agents.items():
                    p = a['pos'][si]
                    if p is not None and (a['home'] == r or (buf and self.near(p, s['lb'], buf))):
                        exp[u] = a
                for uid, state, p, local, at in s['seen']:
                    u = tuple(uid)
                    a = self.agents.get(u)
                    if a is None:
                        self.fail('ghost', w + 'the removed agent %s is in space %d at %s' % (u, si, p))
                    elif state != a['state']:
                        self.fail('ghost', w + '%s in space %d has state %s, its original has %s' % (u, si, state, a['state']))
                    if u in got:
                        self.fail('buffer', w + '%s is twice in space %d' % (u, si))
                    got[u] = p
                    if p != at:
                        self.fail('buffer', w + '%s was found at %s, is located at %s' % (u, at, p))
                    if a is not None and p != a['pos'][si]:
                        self.fail('buffer', w + '%s is at %s in space %d, expected %s' % (u, p, si, a['pos'][si]))
                    if local != (a is not None and a['home'] == r):
                        self.fail('buffer', w + '%s in space %d is %s local agent' % (u, si, 'the' if local else 'not the'))
                if set(got) != set(exp):
                    self.fail('buffer', w + 'space %d with bounds %s shows %s, expected %s' % (si, s['lb'], sorted(got), sorted(exp)))
                if any(a['home'] != r for a in exp.values()):
                    self.labels.add('buffered')
            for ni, nd in enumerate(d['nets']):
                self.judge_net(w, r, ni, nd, gs)

    def judge_net(self, w, r, ni, nd, gs):
        if ('n', ni) in self.idle:
            if nd['nodes'] or nd['edges']:
                self.fail('net', w + 'network %d, not yet in the context, has nodes or edges' % ni)
            return
        net = self.nets[ni]
        seen = set()
        for uid, state, lr, local in nd['nodes']:
            u = tuple(uid)
            a = self.agents.get(u)
            if a is None:
                self.fail('ghost', w + 'the removed agent %s is in network %d' % (u, ni))
            elif state != a['state']:
                self.fail('ghost', w + 'node %s in network %d has state %s, its original has %s' % (u, ni, state, a['state']))
            elif local != (a['home'] == r):
                self.fail('net', w + 'node %s in network %d is %s local agent' % (u, ni, 'the' if local else 'not the'))
            if u in seen:
                self.fail('net', w + 'node %s is twice in network %d' % (u, ni))
            seen.add(u)
        for u, a in self.agents.items():
            if a['home'] == r and u not in seen:
                self.fail('net', w + 'the local agent %s is not in network %d' % (u, ni))
        exp = {k: at for k, at in net.items() if any(self.agents[x]['home'] == r for x in k)}
        got = {}
        for u, v, at in nd['edges']:
            k = self.key(ni, tuple(u), tuple(v))
            if not any(x in self.agents and self.agents[x]['home'] == r for x in k):
                if k not in net:
                    self.fail('net-remote', w + 'network %d has edge %s between remote agents' % (ni, k))
                continue
            if k in got:
                self.fail('net', w + 'edge %s twice in network %d' % (k, ni))
            got[k] = at
        if got != exp:
            miss = {k: v for k, v in exp.items() if got.get(k) != v}
            extra = {k: v for k, v in got.items() if exp.get(k) != v}
            self.fail('net', w + 'network %d lacks %s and has %s instead' % (ni, miss, extra))
        else:
            for uid, num in nd['num']:
                u = tuple(uid)
                e = sum(1 for k in exp if u in k)
                if num != e and not ((u, u) in exp and self.prog['nets'][ni] and num == e + 1):
                    self.fail('net', w + 'network %d counts %d edges of %s, expected %d' % (ni, num, u, e))


def execute(pool, prog, n, aspects, kind='world'):
    outs = pool.run(kind, prog, n)
    w = World(prog, n, aspects)
    for k, step in enumerate(prog['steps']):
        w.judge(k, step, [o[k] for o in outs])
        if w.fails:
            break
    return w


# ----- generation

def programs(tier, spaces=(0, 2), nets=(0, 2), ends=('sync',), edges=True, request=True, single=True, maxn=5, remove=True,
             moves=True, steps=None, readd=False, uids=None, few=False, minn=1, both=False, late=False, again=False):
    nsteps = steps or (5 if tier == 'quick' else 9)
    uid = uids if uids is not None else st.tuples(st.integers(0, 3), st.integers(0, 2))

    @st.composite
    def prog(draw):
        n = draw(st.sampled_from([k for k in (1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 8) if minn <= k <= maxn]))
        ns = draw(st.integers(*spaces))
        nn = draw(st.integers(*nets))
        p = {'n': n, 'spaces': [], 'nets': [draw(st.booleans()) for _ in range(nn)], 'periodic': draw(st.booleans()),
             'restore': draw(st.integers(0, 1)), 'netsfirst': draw(st.booleans()), 'tree': draw(st.sampled_from([1, 2, 10]))}
        if readd:
            p['readd'] = True
        if both:
            p['both'] = True
        if 'move' in ends:
            p['stay'] = draw(st.booleans())
        if late:
            what = [('s', i) for i in range(1, ns)] + [('n', i) for i in range(nn)]
            p['late'] = [list(x) + [draw(st.integers(1, 3))] for x in (draw(st.lists(st.sampled_from(what), unique=True, min_size=1)) if what else [])]
        bounds = None
        if ns:
            kinds = [draw(st.integers(0, 1)) for _ in range(ns)]
            nd = draw(st.integers(2 if 1 in kinds else 1, 3)) if n > 1 else draw(st.integers(2, 3))
            bufs = [draw(st.integers(0, 2)) for _ in range(ns)]
            b = max(bufs + [1])
            bounds = []
            for k in range(3):
                if k < nd:
                    lo = draw(st.one_of(st.just(0), st.integers(-7, 7)))
                    bounds += [lo, PPD[nd][n][k] * b + draw(st.integers(0, (6, 4, 2)[k]))]
                else:
                    bounds += [0, 0]
            p['spaces'] = [[kk, bb, bool(single and draw(st.integers(0, 4)) == 0)] for kk, bb in zip(kinds, bufs)]
            anysingle = any(s[2] for s in p['spaces'])
        p['bounds'] = bounds

        if bounds:
            def coord(k):
                lo, e = bounds[2 * k], bounds[2 * k + 1]
                if not e:
                    return st.just(0)
                q = st.integers(lo * 4, (lo + e) * 4 - 1)
                out = st.integers((lo - e) * 4 - 3, (lo + 2 * e) * 4 + 3)
                cell = st.integers(lo, lo + e - 1).map(lambda x: 4 * x)
                return st.one_of(q, cell, cell, out).map(lambda x: x / 4)
            pos = st.tuples(*[coord(k) for k in range(3)])
        else:
            pos = st.none()
        taken = {}          # single occupancy: cells used so far in the program, never reused by another agent

        def free(u, c):
            if not bounds or not anysingle or c is None:
                return c
            cell = []
            for k in range(3):
                lo, e = bounds[2 * k], bounds[2 * k + 1]
                v = int(c[k] // 1)
                cell.append(0 if not e else lo + (v - lo) % e if p['periodic'] else max(lo, min(lo + e - 1, v)))
            if taken.setdefault(tuple(cell), u) != u:
                return None
            return c
        names, pairs = [], []

        def add():
            r = draw(st.integers(0, n - 1))
            i, t = draw(uid)
            u = [i, t, r]
            if u in names:
                return None
            c = free(tuple(u), draw(pos))
            if bounds and c is None:
                return None
            names.append(u)
            return ['add', r, u, draw(st.integers(0, 5)), c]

        stepl = []
        for s in range(draw(st.integers(2, nsteps))):
            ops = []
            if s == 0:
                for _ in range(draw(st.integers(2, 4 if few else 9))):
                    ops.append(add())
            kinds_ = ['state']
            if bounds and moves:
                kinds_ += ['move', 'move', 'move']
            if edges and nn:
                kinds_ += ['edge', 'edge', 'edge', 'upd', 'del', 'edge']
            if request and n > 1:
                kinds_ += ['request']
                if edges and nn:
                    kinds_ += ['xedge'] * 3
            if remove:
                kinds_ += ['rem']
            kinds_ += ['state', 'state'] if few else ['add']
            if again and names:
                kinds_ += ['again', 'rem']
            for o in draw(st.lists(st.sampled_from(kinds_), max_size=10)):
                if o == 'add':
                    ops.append(add())
                    continue
                if not names:
                    continue
                pick = lambda: names[draw(st.integers(0, len(names) - 1))]
                u = pick()
                if o == 'again':
                    c = free(tuple(u), draw(pos))
                    if not bounds or c is not None:
                        ops.append(['add', u[2] if draw(st.booleans()) else draw(st.integers(0, n - 1)), u, draw(st.integers(0, 5)), c])
                elif o == 'state':
                    ops.append(['state', u, draw(st.integers(6, 99))])
                elif o == 'move':
                    c = free(tuple(u), draw(pos))
                    if c is not None:
                        ops.append(['move', u, c])
                elif o == 'rem':
                    ops.append(['rem', u])
                elif o == 'request':
                    ops.append(['request', [[draw(st.integers(0, n - 1)), pick()] for _ in range(draw(st.integers(1, 4)))]])
                else:
                    ni = draw(st.integers(0, nn - 1))
                    v = pick()
                    if o == 'xedge':
                        others = [x for x in names if x[2] != u[2]]
                        if others:
                            v = others[draw(st.integers(0, len(others) - 1))]
                        ops.append(['request', [[u, v]]])
                        o = 'edge'
                    if o == 'edge':
                        pairs.append((ni, u, v))
                    elif pairs and draw(st.integers(0, 4)):
                        ni, u, v = pairs[draw(st.integers(0, len(pairs) - 1))]
                        if draw(st.integers(0, 3)) == 0:
                            u, v = v, u
                    if both and draw(st.integers(0, 2)) == 0:       # the same from the other end
                        at = draw(st.dictionaries(st.sampled_from(['a', 'b']), st.integers(0, 9), max_size=2))
                        ops.append([o, ni, u, v, 0, at])
                        ops.append([o, ni, u, v, 1, at if draw(st.booleans()) else {'a': 77}])
                        if o == 'edge':
                            a, b = u, v
                            ops[-2:-2] = [['request', [[a, b], [b, a]]]] if n > 1 and request else []
                        continue
                    ops.append([o, ni, u, v, draw(st.integers(0, 1)),
                                draw(st.dictionaries(st.sampled_from(['a', 'b']), st.integers(0, 9), max_size=2))])
                    if o == 'edge' and few and draw(st.booleans()):
                        # another use of the same ghost: in another network, or by another agent
                        ops.append([o, draw(st.integers(0, nn - 1))] + ops[-1][2:])
                        if draw(st.booleans()):
                            ops[-1][2 + ops[-1][4]] = pick()
                        pairs.append(tuple(ops[-1][1:4]))
            e = draw(st.sampled_from(ends))
            if e == 'move':
                end = ['move', [[names[draw(st.integers(0, len(names) - 1))], draw(st.integers(0, n - 1))]
                                for _ in range(draw(st.integers(0, 4)))] if names else []]
            elif e == 'ckp':
                end = ['ckp', bool(nn or draw(st.booleans())), draw(st.booleans()), draw(st.integers(0, 5))]
            else:
                end = [e]
            stepl.append({'ops': [x for x in ops if x is not None], 'end': end})
        p['steps'] = stepl
        return p
    return prog()

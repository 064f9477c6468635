"""C05, C08, C28: checkpoint values, context collections, seeded streams (one process)."""
import io
import math
import dill
import numpy as np
from repast4py import random, checkpoint, context, core, space, network, schedule, value_layer
from repast4py.geometry import BoundingBox
from repast4py.space import DiscretePoint, ContinuousPoint, BorderType, OccupancyType


class A(core.Agent):
    def __init__(self, uid, state=None):
        super().__init__(id=uid[0], type=uid[1], rank=uid[2])
        self.state = state

    def save(self):
        return (self.uid, self.state)


class B(A):
    def save(self):
        return (self.uid, self.state, 'B')


def value(s):
    """A Python value from its JSON description [kind, payload]."""
    k, v = s
    if k == 'list':
        return [value(x) for x in v]
    if k == 'tuple':
        return tuple(value(x) for x in v)
    if k == 'dict':
        return {hashable(value(a)): value(b) for a, b in v}
    if k == 'bytes':
        return bytes(v)
    if k == 'float':
        return float(v)
    if k == 'cplx':
        return complex(v[0], v[1])
    if k == 'arr':
        return np.array(v, dtype=np.float64)
    if k == 'iarr':
        return np.array(v, dtype=np.int32)
    if k == 'set':
        return set(v)
    if k == 'pt':
        return DiscretePoint(*v)
    return v


def hashable(x):
    return x if isinstance(x, (int, str, float, bool, type(None), bytes)) else repr(x)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(map(repr, a)) == list(map(repr, b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, DiscretePoint):
        return (a.x, a.y, a.z) == (b.x, b.y, b.z)
    return a == b


def draw(kind, n):
    g = random.default_rng
    if kind == 0:
        return [float(x) for x in g.random(n + 1)]
    if kind == 1:
        return [int(x) for x in g.integers(0, 1000, n + 1)]
    if kind == 2:
        return [int(x) for x in g.integers(0, 7, 1, dtype=np.uint32)]     # leaves half a word buffered
    if kind == 3:
        return [float(x) for x in g.normal(size=n + 1)]
    if kind == 4:
        return [int(x) for x in g.permutation(n + 3)]
    if kind == 5:
        return [int(g.choice(50))]
    return [float(x) for x in g.exponential(2.0, n + 1)]


def ckp(comm, prog):
    """C05: save, dirty, pickle, dirty, restore; the list of what is wrong."""
    fails = []
    random.init(prog['seed'])
    agents = [(B if i % 3 == 2 else A)(tuple(u), value(s)) for i, (u, s) in enumerate(prog['agents'])]
    ctx = context.SharedContext(comm)
    inctx, order = {}, []
    c = checkpoint.Checkpoint()
    exp_agents, exp_vals, exp_stream, seed = [], {}, None, None
    nd = 0
    for op in prog['ops']:
        o = op[0]
        if o == 'draw':
            d = draw(op[1], op[2])
            if exp_stream is not None:
                exp_stream.append([op[1], op[2], d])
        elif o == 'seed':
            if exp_stream is None:
                random.init(op[1])
        elif o == 'random':
            c.save_random()
            exp_stream, seed = [], random.seed
        elif o == 'ctx':
            a = agents[op[1] % len(agents)]
            if a.uid in inctx:
                ctx.remove(a)
                del inctx[a.uid]
            else:
                ctx.add(a)
                inctx[a.uid] = a
        elif o == 'agents':
            if op[1] == 0:
                c.save_agents(ctx.agents())
                exp_agents += list(inctx.values())
            elif op[1] == 1:
                c.save_agents(agents[:op[2]])
                exp_agents += agents[:op[2]]
            elif op[1] == 2:
                c.save_agents(a for a in reversed(agents))
                exp_agents += agents[::-1]
            else:
                t = agents[op[2] % len(agents)].uid[1]
                if ctx.contains_type(t):
                    c.save_agents(ctx.agents(agent_type=t))
                    exp_agents += [a for a in inctx.values() if a.uid[1] == t]
        elif o == 'save':
            k = hashable(value(op[1]))
            c.save(k, value(op[2]))
            exp_vals[k] = (k, value(op[2]))
    for k in range(4):
        d = draw(k, 3)
        if exp_stream is not None:
            exp_stream.append([k, 3, d])
    exp_agents = [(a.save(), type(a)) for a in exp_agents]
    if prog['how'] == 0:
        c2 = dill.loads(dill.dumps(c))
    elif prog['how'] == 1:
        f = io.BytesIO()
        dill.dump(c, f)
        f.seek(0)
        c2 = dill.load(f)
    else:
        c2 = dill.loads(dill.dumps(dill.loads(dill.dumps(c, protocol=prog['how']))))
    for a in agents:
        a.state = 'gone'
    random.init(prog['dirty'])
    draw(2, 1)
    np.random.default_rng(4).random()

    def restorer(data):
        uid, st = data[0], data[1]
        return (B if len(data) > 2 else A)(uid, st)

    def agents_back():
        got = list(c2.restore_agents(restorer))
        if len(got) != len(exp_agents):
            fails.append('%d agents restored, %d were saved' % (len(got), len(exp_agents)))
        for i, (g, (e, ty)) in enumerate(zip(got, exp_agents)):
            if g.uid != e[0] or (g.id, g.type, g.uid_rank) != e[0] or type(g) is not ty:
                fails.append('agent %d restored as %r %s, saved as %r %s' % (i, g.uid, type(g), e[0], ty))
            elif not same(g.state, e[1]):
                fails.append('agent %r restored with state %r, saved with %r' % (g.uid, g.state, e[1]))

    def rand_back():
        if exp_stream is None:
            return
        c2.restore_random()
        if random.seed != seed:
            fails.append('seed %r reported, %r was saved' % (random.seed, seed))
        for k, n, d in exp_stream:
            got = draw(k, n)
            if got != d:
                fails.append('draw of kind %d gives %s after restoring, %s originally' % (k, got[:3], d[:3]))
                break

    def vals_back():
        for k, v in exp_vals.values():
            got = c2.restore(k, lambda x, *a: (x, a), 1, 'z')
            if not same(got[0], v) or got[1] != (1, 'z'):
                fails.append('value under %r restored as %r, saved %r' % (k, got, v))

    for b in prog['order']:
        [agents_back, rand_back, vals_back][b]()
    return fails[:5]


# ------------------------------------------------------------------ C08

def ctx8(comm, prog):
    """C08: an operation history on a context, checked against a list after every operation."""
    fails = []
    random.init(prog['seed'])
    cx = context.SharedContext(comm)
    pool = [A(tuple(u)) for u in prog['uids']]
    present, projs, moved = [], [], {}
    box = BoundingBox(0, 8, 0, 8, 0, 0)

    def mkproj(kind):
        name = 'p%d_%d' % (len(projs), kind)
        if kind == 0:
            return space.SharedGrid(name, box, BorderType.Sticky, OccupancyType.Multiple, 1, comm)
        if kind == 1:
            return space.SharedCSpace(name, box, BorderType.Periodic, OccupancyType.Multiple, 1, comm, 3)
        if kind == 2:
            return network.UndirectedSharedNetwork(name, comm)
        return network.DirectedSharedNetwork(name, comm)

    def check(what):
        got = [a.uid for a in cx.agents()]
        exp = [a.uid for a in present]
        if got != exp:
            return fails.append('after %s agents() gives %s, expected %s' % (what, got, exp))
        if cx.size() != {-1: len(exp)}:
            fails.append('after %s size() gives %s, expected %d' % (what, cx.size(), len(exp)))
        for t in sorted(seen):
            e = [u for u in exp if u[1] == t]
            g = [a.uid for a in cx.agents(agent_type=t)]
            if g != e:
                fails.append('after %s agents(%d) gives %s, expected %s' % (what, t, g, e))
            if cx.size([t]) != {t: len(e)}:
                fails.append('after %s size([%d]) gives %s, expected %d' % (what, t, cx.size([t]), len(e)))
        if seen and cx.size(sorted(seen)) != {t: sum(1 for u in exp if u[1] == t) for t in seen}:
            fails.append('after %s size(%s) gives %s' % (what, sorted(seen), cx.size(sorted(seen))))
        for t in range(5):
            if cx.contains_type(t) is not any(u[1] == t for u in exp):
                fails.append('after %s contains_type(%d) is %r' % (what, t, cx.contains_type(t)))
        ids = {a.uid: a for a in present}
        for a in pool:
            if cx.agent(a.uid) is not ids.get(a.uid):
                fails.append('after %s agent(%s) is %r' % (what, a.uid, cx.agent(a.uid)))
        for k, p in projs:
            for a in pool:
                if (a in p) != (a.uid in ids):
                    fails.append('after %s projection %s %s %s' % (what, p.name, 'contains' if a in p else 'lacks', a.uid))
            if k >= 2:
                if sorted(a.uid for a in p) != sorted(exp) or p.node_count != len(exp):
                    fails.append('after %s network %s has nodes %s' % (what, p.name, [a.uid for a in p]))
            else:
                for a in present:
                    loc = p.get_location(a)
                    e = moved.get((p.name, a.uid))
                    if (None if loc is None else (loc.x, loc.y)) != e:
                        fails.append('after %s %s is at %s in %s, expected %s' % (what, a.uid, loc, p.name, e))
            if cx.get_projection(p.name) is not p:
                fails.append('get_projection(%s) is another' % p.name)
        for name in ('', 'p', 'p0', 'p%d_0' % len(projs)):
            try:
                fails.append('get_projection(%r) gives %s' % (name, cx.get_projection(name).name))
            except KeyError:
                pass

    seen = set()
    for i, op in enumerate(prog['ops']):
        o = op[0]
        a = pool[op[1] % len(pool)] if len(op) > 1 and o in ('add', 'remove', 'move') else None
        what = 'op %d %s %s' % (i, o, a.uid if a else op[1:])
        if o == 'add':
            if a in present:
                continue
            cx.add(a)
            present.append(a)
            seen.add(a.uid[1])
        elif o == 'remove':
            if a not in present:
                if not present:
                    continue
                a = present[op[1] % len(present)]
            cx.remove(a)
            present.remove(a)
            for k in [k for k in moved if k[1] == a.uid]:
                del moved[k]
        elif o == 'proj':
            if len(projs) >= 5:
                continue
            p = mkproj(op[1] % 4)
            cx.add_projection(p)
            projs.append((op[1] % 4, p))
        elif o == 'dup':
            if not projs:
                continue
            k, p = projs[op[1] % len(projs)]
            q = mkproj(k)
            try:
                q2 = network.UndirectedSharedNetwork(p.name, comm)
                cx.add_projection(q2)
                fails.append('%s: a second projection named %s was added' % (what, p.name))
            except ValueError:
                pass
        elif o == 'move':
            if a in present:
                for k, p in projs:
                    if k < 2:
                        x, y = op[2] % 8, op[3] % 8
                        p.move(a, (DiscretePoint if k == 0 else ContinuousPoint)(x, y))
                        moved[(p.name, a.uid)] = (x, y)
        elif o == 'query':
            _, t, cnt, shuf, s = op
            t = None if t is None or t not in seen else t
            exp = [x.uid for x in present if t is None or x.uid[1] == t]
            random.init(s)
            got = [x.uid for x in cx.agents(agent_type=t, count=cnt, shuffle=shuf)]
            n = len(exp) if cnt is None else min(cnt, len(exp))
            if shuf:
                random.init(s)
                full = [x.uid for x in cx.agents(agent_type=t, shuffle=True)]
                random.init(s)
                again = [x.uid for x in cx.agents(agent_type=t, shuffle=True)]
                if again != full:
                    fails.append('%s: the same seed shuffles differently: %s %s' % (what, again, full))
                if sorted(full) != sorted(exp):
                    fails.append('%s: a shuffle gives %s of %s' % (what, full, exp))
                if len(got) != n or len(set(got)) != n or not set(got) <= set(exp) or got != full[:n]:
                    fails.append('%s gives %s, %d of %s in the order %s expected' % (what, got, n, exp, full))
                if len(exp) >= 7:
                    perms = set()
                    for j in range(5):
                        random.init(s + 1 + j)
                        perms.add(tuple(x.uid for x in cx.agents(agent_type=t, shuffle=True)))
                    if len(perms) == 1:
                        fails.append('%s: five seeds give the same order' % what)
            elif got != exp[:n]:
                fails.append('%s gives %s, expected %s' % (what, got, exp[:n]))
        elif o == 'unknown':
            t = 77
            for f in (lambda: list(cx.agents(agent_type=t)), lambda: list(cx.agents(agent_type=t, shuffle=True)),
                      lambda: [0] * cx.size([t])[t]):
                try:
                    if f():
                        fails.append('%s: agents of a type never added' % what)
                except KeyError:
                    pass
        elif o == 'sync':
            cx.synchronize(lambda d: A(d[0], d[1]))
        check(what)
        if fails:
            break
    return fails[:4]


# ------------------------------------------------------------------ C28

def seeds(comm, prog):
    """C28: the same consumers after init(seed), from different pasts."""
    import torch

    def consume():
        out = []
        rank = comm.Get_rank()
        agents = [A((i, i % 3, rank)) for i in range(prog['n'])]
        cx = context.SharedContext(comm)
        for a in agents:
            cx.add(a)
        b = prog['bounds']
        box = BoundingBox(*b)
        grid = space.SharedGrid('g', box, BorderType.Sticky, OccupancyType.Multiple, 0, comm)
        cs = space.SharedCSpace('c', box, BorderType.Sticky, OccupancyType.Multiple, 0, comm, 5) if b[3] else None
        for op in prog['ops']:
            o = op[0]
            if o == 'draw':
                out.append(['draw'] + draw(op[1], op[2]))
            elif o == 'shuffle':
                t = op[1]
                t = t if t is not None and cx.contains_type(t) else None
                out.append(['shuffle'] + [list(a.uid) for a in cx.agents(agent_type=t, count=op[2], shuffle=True)])
            elif o == 'torch':
                out.append(['torch'] + torch.rand(op[1] + 1).tolist() + torch.randint(0, 100, (3,)).tolist())
            elif o == 'gpt':
                p = grid.get_random_local_pt(random.default_rng)
                out.append(['gpt', int(p.x), int(p.y), int(p.z)])
            elif o == 'cpt' and cs is not None:
                p = cs.get_random_local_pt(random.default_rng)
                out.append(['cpt', float(p.x), float(p.y), float(p.z)])
            elif o == 'layer':
                if op[1] % 2 == 0:
                    vl = value_layer.ValueLayer(BoundingBox(0, 1 + op[2], 0, 3, 0, 0), BorderType.Sticky, 'random')
                else:
                    vl = value_layer.SharedValueLayer(comm, box if b[3] else BoundingBox(0, 8, 0, 8, 0, 0), BorderType.Sticky, 1, 'random')
                out.append(['layer'] + np.asarray(vl.grid).ravel().tolist())
            elif o == 'events':
                runner = schedule.init_schedule_runner(comm)
                order = []
                for i in range(op[1] + 2):
                    runner.schedule_event(1.0 + (i % 2), (lambda i=i: order.append(i)))
                runner.schedule_repeating_event(1, 1, lambda: order.append(float(random.default_rng.random())))
                runner.schedule_stop(3)
                runner.execute()
                out.append(['events'] + order)
            elif o == 'partition':
                import networkx as nx
                import os
                f = os.path.join(os.environ['TMPDIR'], 'net%d.txt' % rank)
                network.write_network(nx.path_graph(op[1] + 3), 'n', f, 3)
                out.append(['partition', open(f).read()])
                os.remove(f)
        return out

    def past(n):
        for k in range(n):
            if k % 4 == 3:
                torch.rand(k)
            elif k % 4 == 2:
                random.default_rng.integers(0, 5, 1, dtype=np.uint32)
            elif k % 4 == 1:
                random.init(k)
            else:
                draw(k % 7, k)

    fails = []
    past(prog['past'][0])
    random.init(prog['seed'])
    if random.seed != prog['seed']:
        fails.append('the reported seed is %r, %r was given' % (random.seed, prog['seed']))
    a = consume()
    past(prog['past'][1])
    random.init(prog['seed'])
    b = consume()
    if random.seed != prog['seed']:
        fails.append('the reported seed is %r, %r was given' % (random.seed, prog['seed']))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            fails.append('use %d differs between two runs with the same seed: %s, %s' % (i, x[:5], y[:5]))
            break
    if len(a) != len(b):
        fails.append('the two runs differ in length')
    # another seed: another stream, of each kind
    random.init(prog['other'])
    c = consume()
    random.init(prog['seed'])
    e1, t1 = [float(x) for x in random.default_rng.random(6)], torch.rand(6).tolist()
    random.init(prog['other'])
    e2, t2 = [float(x) for x in random.default_rng.random(6)], torch.rand(6).tolist()
    if prog['other'] != prog['seed']:
        # PyTorch's CPU generator uses the lower 32 bits of its seed
        if e1 == e2 or (t1 == t2 and (prog['other'] - prog['seed']) % 2**32):
            fails.append('seeds %d and %d give the same stream' % (prog['seed'], prog['other']))
    return {'fails': fails[:4], 'uses': [x[0] for x in a], 'differs': sum(x != y for x, y in zip(a, c))}


def run(comm, prog):
    return {'ckp': ckp, 'ctx': ctx8, 'seeds': seeds}[prog['do']](comm, prog)

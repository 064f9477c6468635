"""C32: points made, reset, compared and handed to spaces in one process."""
import numpy as np
from repast4py import core, space
from repast4py.geometry import BoundingBox
from repast4py.space import DiscretePoint, ContinuousPoint, BorderType, OccupancyType


class A(core.Agent):
    def __init__(self, i):
        super().__init__(id=i, type=0, rank=0)


DT = {'d': ['int64', 'longlong', 'int32', '>i8', '>i4'], 'c': ['float64', 'float32', 'float64', '>f8', '>f4']}


def array(vals, dtype, layout):
    """A one dimensional array of the values, laid out in memory in one of several ways."""
    a = np.array(vals, dtype=dtype)
    n = len(vals)
    if layout == 1:                     # every second element
        b = np.full(2 * n, 77, dtype)
        b[::2] = a
        return b[::2]
    if layout == 2:                     # backwards
        return a[::-1].copy()[::-1]
    if layout == 3:                     # a column of a matrix
        m = np.full((n, 3), 55, dtype)
        m[:, 1] = a
        return m.T[1]
    if layout == 4:                     # not aligned
        buf = np.zeros(n * a.itemsize + 1, 'u1')
        b = buf[1:].view(a.dtype)
        b[:] = a
        return b
    if layout == 5:
        a.flags.writeable = False
    if layout == 6:                     # one value for all
        return a if len(set(vals)) > 1 else np.broadcast_to(np.array(vals[0] if n else 0, dtype), (n,))
    if layout == 7:                     # the middle of a longer array
        b = np.concatenate([np.array([9, 8], dtype), a, np.array([7], dtype)]).astype(dtype)
        return b[2:2 + n]
    return a


def make(kind, mode, c):
    P = DiscretePoint if kind == 'd' else ContinuousPoint
    if mode == 1:
        return P(x=c[0], y=c[1], z=c[2])
    if mode == 2 and c[2] == 0:
        return P(c[0], c[1])
    if mode == 3:
        return P(z=c[2], y=c[1], x=c[0])
    return P(*c)


def co(p):
    return None if p is None else [p.x, p.y, p.z]


def spaces(k, bounds, per, single):
    b = BoundingBox(*bounds)
    bd = BorderType.Periodic if per else BorderType.Sticky
    oc = OccupancyType.Single if single else OccupancyType.Multiple
    return space.Grid('g', b, bd, oc) if k == 'd' else space.ContinuousSpace('c', b, bd, oc, 4)


def run(comm, prog):
    fails = []

    def say(cond, what, *a):
        if not cond and len(fails) < 3:
            fails.append(what % a)

    pts = {k: [make(k, m, c) for m, c in prog['pts'][k]] for k in 'dc'}
    val = {k: [list(c) for _, c in prog['pts'][k]] for k in 'dc'}
    agents = [A(i) for i in range(3)]
    # sps is given the points under test, ref freshly made ones with the same coordinates
    sps, ref = [{k: spaces(k, prog['bounds'], prog['per'], prog['single']) for k in 'dc'} for _ in range(2)]
    for k in 'dc':
        for a in agents:
            sps[k].add(a)
            ref[k].add(a)

    def fresh(k, c):
        return (DiscretePoint if k == 'd' else ContinuousPoint)(*c)

    def look(what):
        for k in 'dc':
            for i, p in enumerate(pts[k]):
                say(co(p) == val[k][i] and list(p.coordinates) == val[k][i] and len(p.coordinates) == 3,
                    'after %s point %s%d is at %s, %s, not at %s', what, k, i, co(p), list(p.coordinates), val[k][i])
                say(type(p.x) is (int if k == 'd' else float), 'after %s the type of x of %s%d is %s', what, k, i, type(p.x))
            for i, p in enumerate(pts[k]):
                for j, q in enumerate(pts[k]):
                    e = val[k][i] == val[k][j]
                    say((p == q) is e and (p != q) is not e, 'after %s %s == %s is %s and != is %s', what, co(p), co(q), p == q, p != q)
                    f = fresh(k, val[k][j])
                    say((p == f) is e and (f != p) is not e, 'after %s %s == %s is %s, != %s', what, co(p), co(f), p == f, f != p)
                for q in pts['c' if k == 'd' else 'd']:
                    say(not (p == q) and p != q, 'after %s points %s and %s of different kinds are equal', what, co(p), co(q))
                say(not (p == tuple(val[k][i])) and p != val[k][i] and p != None, 'a point equals something else')  # noqa
            s, r = sps[k], ref[k]
            for a in agents:
                say(co(s.get_location(a)) == co(r.get_location(a)), 'after %s agent %d is at %s, in the same space given new points at %s',
                    what, a.id, co(s.get_location(a)), co(r.get_location(a)))
            for i, p in enumerate(pts[k]):
                x = [a.id for a in s.get_agents(p)]
                y = [a.id for a in r.get_agents(fresh(k, val[k][i]))]
                say(x == y, 'after %s %s holds the agents %s, the same space given new points %s', what, val[k][i], x, y)
    look('creation')
    for n, op in enumerate(prog['ops']):
        o, k, i = op['o'], op['k'], op['i']
        P, v = pts[k][i], val[k][i]
        what = 'operation %d %s' % (n, op)
        if o == 'array':
            vals = op['v']
            arr = array(vals, DT[k][op['dt']], op['lay'])
            keep = arr.copy()
            got = P._reset_from_array(arr)
            v[:len(vals[:3])] = [(int if k == 'd' else float)(x) for x in keep[:3]]
            say(got is None and np.array_equal(arr, keep), '%s changed the array', what)
            if op['lay'] not in (5, 6) and len(arr):     # the point does not keep the array
                arr[0] = 99
        elif o == 'reset':
            c = op['v']
            if op['n'] == 0:
                P._reset(tuple(c))
                v[:] = c
            else:
                (P._reset1D, P._reset2D, P._reset3D)[op['n'] - 1](*c[:op['n']])
                v[:op['n']] = c[:op['n']]
            v[:] = [(int if k == 'd' else float)(x) for x in v]
        elif o == 'bad':
            try:
                if op['b'] == 0:
                    P._reset_from_array(np.array([v], dtype=DT[k][0]))
                elif op['b'] == 1:
                    P._reset_from_array(np.array([1, 2, 3], dtype='float64' if k == 'd' else 'int64'))
                elif op['b'] == 2:
                    P._reset_from_array(np.array(['1', '2', '3']))
                elif op['b'] == 3:
                    P._reset_from_array(list(v))
                elif op['b'] == 4:
                    make(k, 0, ['1', 2, 3])
                elif op['b'] == 5:
                    (DiscretePoint if k == 'd' else ContinuousPoint)()
                else:
                    P.x = 3
                say(False, '%s did not raise', what)
            except (RuntimeError, TypeError, AttributeError):
                pass
        elif o == 'move':
            a = agents[op['a']]
            if max(abs(x) for x in v) > 1e6:
                continue
            src = P
            if op['b'] is not None and sps[k].get_location(agents[op['b']]) is not None:
                src = sps[k].get_location(agents[op['b']])
                before = co(src)
                want = co(ref[k].get_location(agents[op['b']]))
                g, e = sps[k].move(a, src), ref[k].move(a, fresh(k, want))
                if op['a'] != op['b']:
                    say(co(src) == before, '%s moved the agent whose location was given', what)
            else:
                g, e = sps[k].move(a, src), ref[k].move(a, fresh(k, v))
            say(co(g) == co(e), '%s returned %s, with a new point %s', what, co(g), co(e))
        look(what)
        if fails:
            break
    return fails

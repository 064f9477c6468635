"""C30: the lifetimes of agents, points and query results in spaces of one process.

The references this code holds are counted, so that those of the library are the rest.
"""
import ctypes
import gc
import os
import sys
import weakref
from repast4py import space, core
from repast4py.geometry import BoundingBox
from repast4py.space import DiscretePoint, ContinuousPoint, BorderType, OccupancyType


class A(core.Agent):
    def __init__(self, uid):
        super().__init__(*uid)
        self.tag = tuple(uid)


class Held:
    """Objects this code refers to, each any number of times, and nowhere else between operations."""

    def __init__(self):
        self.objs, self.info = [], []

    def add(self, x, info=None):
        self.objs.append(x)
        self.info.append(info)

    def others(self, k):
        """The references to object k that are not in here."""
        x = self.objs[k]
        return sys.getrefcount(x) - 2 - sum(1 for y in self.objs if y is x)

    def drop(self, keep):
        for k in reversed(range(len(self.objs))):
            if not keep(self.info[k]):
                del self.objs[k], self.info[k]


_h = Held()
_h.add(object())
SELF = _h.others(0)
assert SELF in (0, 1), SELF


def make(kind, k, prog, comm):
    box = BoundingBox(*prog['bounds'])
    bd = BorderType.Periodic if kind & 4 else BorderType.Sticky
    oc = OccupancyType.Single if kind & 8 else OccupancyType.Multiple
    name = 's%d' % k
    if kind & 3 == 0:
        return space.Grid(name, box, bd, oc)
    if kind & 3 == 1:
        return space.ContinuousSpace(name, box, bd, oc, prog['tree'])
    if kind & 3 == 2:
        return space.SharedGrid(name, box, bd, oc, 1, comm)
    return space.SharedCSpace(name, box, bd, oc, 1, comm, prog['tree'])


def loc(p):
    return (p.x, p.y, p.z)


class Slot:
    def __init__(self, k, op, prog, comm):
        kind = op[3] % 16
        self.s, self.disc, self.shared = make(kind, k, prog, comm), kind & 1 == 0, bool(kind & 2)
        self.has = {}       # index of agent -> where it is, or None

    def pt(self, c):
        return DiscretePoint(*[int(v // 1) for v in c]) if self.disc else ContinuousPoint(*[float(v) for v in c])


class Run:
    def __init__(self, comm, prog):
        self.comm, self.prog = comm, prog
        self.fails, self.labels = [], set()
        self.uids = [tuple(u) for u in prog['uids']]
        self.n = len(self.uids)
        self.index = {u: i for i, u in enumerate(self.uids)}
        self.ag, self.pts, self.arrs, self.tups = Held(), Held(), Held(), Held()
        self.weak = [None] * self.n
        self.own = [True] * self.n      # does this code hold the agent?
        for i in range(self.n):
            self.born(i)
        self.slots = [None] * 3
        self.iters = []
        self.box = BoundingBox(*prog['bounds'])

    def born(self, i):
        a = A(self.uids[i])
        self.ag.add(a, i)
        self.weak[i] = weakref.ref(a)
        self.own[i] = True

    def agent(self, i):
        return self.ag.objs[self.ag.info.index(i)]

    def got(self, x, what):
        ok = isinstance(x, A) and x.tag in self.index and (x.id, x.type, x.uid_rank) == x.tag and x.uid == x.tag
        if not ok:
            self.fails.append('%s: a query returned %r' % (what, x))
            raise Stop()
        return self.index[x.tag]

    def take(self, s, i, what):
        """The agent i out of the space s, when this code may hold no reference to it."""
        if self.own[i]:
            return self.agent(i)
        if s.has[i] is None:
            return None
        for x in s.s.get_agents(s.pt(s.has[i])):
            if self.got(x, what) == i:
                return x
        self.fails.append('%s: agent %s is not found at %s' % (what, self.uids[i], s.has[i]))
        raise Stop()

    def left(self, s, i):
        for m in self.pts.info:
            if m[0] is s and m[1] == i:
                m[0] = None

    def destroy(self, k):
        s = self.slots[k]
        for i in list(s.has):
            self.left(s, i)
        s.s = None
        s.has = {}
        self.slots[k] = None
        if s.shared:
            gc.collect()        # a shared space refers to itself

    def op(self, k, op, what):
        o, s, i = op[0], self.slots[op[1] % 3], op[2] % self.n
        if o == 'new':
            if s is None:
                self.slots[op[1] % 3] = Slot(k, op, self.prog, self.comm)
        elif o == 'destroy':
            if s is not None:
                self.labels.add('destroyed with agents' if s.has else 'destroyed')
                self.destroy(op[1] % 3)
        elif o == 'drop':           # lets go of the agent
            if self.own[i]:
                self.labels.add('dropped in a space' if any(t is not None and i in t.has for t in self.slots) else 'dropped')
                self.own[i] = False
                self.ag.drop(lambda m: m != i)
        elif o == 'born':           # a new agent with the unique id of one that is no more
            if not self.own[i] and self.weak[i]() is None:
                self.born(i)
        elif o == 'forget':
            self.pts.drop(lambda m: False)
            if op[3] % 2:
                self.arrs.drop(lambda m: False)
        elif o == 'use':            # iterates again over what earlier queries returned
            for it in self.iters:
                self.labels.add('kept iterator')
                for x in it:
                    self.got(x, what)
            if op[3] % 2:
                del self.iters[:]
        elif o == 'next':
            for it in self.iters:
                x = next(it, None)
                if x is not None:
                    self.got(x, what)
        elif s is None:
            pass
        elif o == 'add':
            if self.own[i]:
                if i in s.has:
                    self.labels.add('added again')
                s.s.add(self.agent(i))
                s.has.setdefault(i, None)
        elif o == 'move':
            if i in s.has:
                a = self.take(s, i, what)
                if a is not None:
                    p = s.s.move(a, s.pt(op[4]))
                    if p is not None:
                        s.has[i] = loc(p)
                        if op[3] % 2:
                            self.pts.add(p, [s, i, None])
            elif self.own[i]:
                try:
                    s.s.move(self.agent(i), s.pt(op[4]))
                    self.fails.append('%s: moved an agent that is not in the space' % what)
                except RuntimeError:
                    pass
        elif o == 'remove':
            if i in s.has:
                a = self.take(s, i, what)
                if a is not None:
                    self.labels.add('removed')
                    s.s.remove(a)
                    del s.has[i]
                    self.left(s, i)
            elif self.own[i]:
                s.s.remove(self.agent(i))
        else:
            self.query(o, s, i, op, what)

    def query(self, o, s, i, op, what):
        c = s.has.get(i) or (self.prog['bounds'][0], self.prog['bounds'][2], self.prog['bounds'][4])
        q = s.pt(c)
        keep = op[3] % 2
        if o == 'one':
            x = s.s.get_agent(q)
            if x is not None:
                j = self.got(x, what)
                if keep and self.own[j]:
                    self.ag.add(x, j)
        elif o == 'all':
            xs = list(s.s.get_agents_within(self.box) if not s.disc and op[3] % 4 > 1 else s.s.get_agents(q))
            w = not s.disc and op[3] % 4 > 1
            js = sorted(self.got(x, what) for x in xs)
            exp = sorted(j for j in s.has if s.has[j] is not None and (w or s.has[j] == c))
            if js != exp:
                self.fails.append('%s: returned agents %s, expected %s' % (what, js, exp))
            for x in xs:
                if keep and self.own[self.index[x.tag]]:
                    self.ag.add(x, self.index[x.tag])
                    self.labels.add('kept results')
        elif o == 'iter':
            self.iters.append(s.s.get_agents_within(self.box) if not s.disc and keep else s.s.get_agents(q))
        elif o == 'num':
            if s.shared:
                s.s.get_num_agents(q)
        elif self.own[i]:
            a = self.agent(i)
            if o == 'loc':
                p = s.s.get_location(a)
                if p is not None:
                    self.labels.add('kept point')
                    self.pts.add(p, [s, i, None])
                    if keep:
                        self.arrs.add(p.coordinates)
            elif o == 'uid':
                self.tups.add(a.uid, self.uids[i])
            else:
                s.s.contains(a)
                repr(a)

    def check(self, what):
        for i in range(self.n):
            k = sum(1 for s in self.slots if s is not None and i in s.has)
            if not self.own[i]:
                if k and self.weak[i]() is None:
                    self.fails.append('%s: agent %s was freed, %d spaces hold it' % (what, self.uids[i], k))
                elif not k and not self.iters and self.weak[i]() is not None:
                    gc.collect()
                    if self.weak[i]() is not None:
                        self.fails.append('%s: agent %s is in no space, and something still holds it' % (what, self.uids[i]))
                continue
            x = self.ag.others(self.ag.info.index(i)) - SELF
            if k == 0 and x and not (self.iters and x > 0):
                self.fails.append('%s: agent %s is in no space, and there are %+d references to it that the program does not hold' % (
                    what, self.uids[i], x))
            elif x < k:
                self.fails.append('%s: agent %s is in %d spaces, which hold %d references to it' % (what, self.uids[i], k, x))
        for j, m in enumerate(self.pts.info):
            s, i, at = m
            x, p = self.pts.others(j) - SELF, loc(self.pts.objs[j])
            if s is None:
                if x:
                    self.fails.append('%s: there are %+d references to the point of %s, which was removed' % (what, x, self.uids[i]))
                if p != at:
                    self.fails.append('%s: the point of %s changed from %s to %s after its removal' % (what, self.uids[i], at, p))
            else:
                if x < 1:
                    self.fails.append('%s: the space does not hold the point of %s' % (what, self.uids[i]))
                if p != s.has[i]:
                    self.fails.append('%s: the point of %s is %s, expected %s' % (what, self.uids[i], p, s.has[i]))
                m[2] = p
        for j, u in enumerate(self.tups.info):
            if self.tups.objs[j] != u:
                self.fails.append('%s: uid %s became %s' % (what, u, self.tups.objs[j]))

    def end(self):
        for k in range(3):
            if self.slots[k] is not None:
                self.destroy(k)
        self.check('at the end')
        del self.iters[:]
        self.pts.drop(lambda m: False)
        self.ag.drop(lambda m: False)
        gc.collect()
        for i in range(self.n):
            if self.weak[i]() is not None:
                self.fails.append('at the end: agent %s is still alive' % (self.uids[i],))
        for name, h in (('coordinates', self.arrs), ('unique id tuple', self.tups)):
            for j in range(len(h.objs)):
                x = h.others(j) - SELF
                if x:
                    self.fails.append('at the end: there are %+d references to the %s of a freed %s' % (
                        x, name, 'point' if h is self.arrs else 'agent'))


class Stop(Exception):
    pass


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in
                'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = MallInfo
MEASURED = os.environ.get('PYTHONMALLOC') == 'malloc_debug'


def used():
    """The bytes allocated; Python's own objects are among them, given MEASURED."""
    gc.collect()
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd


def growth(comm, prog):
    """The least growth per repetition, and what is allowed: MPI and communicator objects of shared spaces, and noise."""
    once(comm, prog)
    shared = sum(1 for o in prog['ops'] if o[0] == 'new' and o[3] & 2)
    least = None
    for _ in range(4):
        u = used()
        for _ in range(4):
            once(comm, prog)
        g = (used() - u) / 4
        least = g if least is None else min(g, least)
        if least <= 0:
            break
    return least, 64 + 400 * shared


def run(comm, prog):
    fails, labels = once(comm, prog)
    if prog.get('grow') and MEASURED and not fails:
        labels.append('repeated')
        got, most = growth(comm, prog)
        if got > most:
            fails.append('repeating the history takes %d more bytes each time' % got)
    return [fails, labels]


def once(comm, prog):
    r = Run(comm, prog)
    try:
        for k, op in enumerate(prog['ops']):
            what = 'op %d %s' % (k, op)
            r.op(k, op, what)
            r.check(what)
            if r.fails:
                break
        else:
            r.end()
    except Stop:
        pass
    return [r.fails[:4], sorted(r.labels)]

import os
import shutil
from hypothesis import strategies as st
from core import Check, Result

NAMES = ['a.csv', 'a', '.hid', 'a.tar.gz', 'a b.txt', 'a_1.csv', 'n.1']


def variant(name, k):
    """The k-th numbered variant by the documented rule: the number goes before the last suffix."""
    i = name.rfind('.')
    if i <= 0:
        return '%s_%d' % (name, k)
    return '%s_%d%s' % (name[:i], k, name[i:])


class C26(Check):
    ID = 'C26'
    POOL = 3
    SHARDS = 6
    RULE = ('A directory with generated existing files (the name, numbered variants with gaps, directories) and a sequence of '
            'loggers, data sets, parameter dumps and free-name queries for names that may collide, given as absolute or '
            'relative paths, bare names and paths with missing parents. The directory tree afterwards must be the old one, '
            'unchanged, plus exactly the predicted new files. Non-trivial: a name existed. Distinct by case.')
    CASES = {'quick': 900, 'thorough': 12000}
    PRELOAD = 'logs'
    ASSUMPTIONS = ['one process creates each output; no symbolic links']

    def strategy(self, tier):
        ex = st.tuples(st.integers(0, 6), st.integers(0, 4), st.integers(0, 5))
        mk = st.tuples(st.sampled_from(['tabular', 'reducing', 'dump', 'free']), st.integers(0, 6), st.integers(0, 3))
        return st.tuples(st.lists(ex, max_size=8), st.lists(mk, min_size=1, max_size=6), st.integers(1, 3))

    def run(self, case, pool):
        existing, makes, n = case
        if any(m[0] in ('dump', 'free') for m in makes):
            n = 1
        d = os.path.join(pool.dir, 'case')
        shutil.rmtree(d, ignore_errors=True)
        for s in ('w', 'w/sub', 'p'):
            os.makedirs(os.path.join(d, s))
        work = os.path.join(d, 'w')
        with open(os.path.join(d, 'p', 'in.yaml'), 'w') as f:
            f.write('x: 1\n')
        model = {'sub': None}
        for name, k, where in existing:
            rel = NAMES[name] if k == 0 else variant(NAMES[name], k)
            rel = os.path.join('sub', rel) if where % 2 else rel
            if rel in model:
                continue
            if where == 4:
                os.makedirs(os.path.join(work, rel))
                model[rel] = None
            else:
                model[rel] = 'old %s\n' % rel
                with open(os.path.join(work, rel), 'w') as f:
                    f.write(model[rel])
        conc, frees, collided = [], [], 0
        for k, (what, name, form) in enumerate(makes):
            dirn = ['', '', 'sub', 'new/deep'][form]
            if what in ('dump', 'free') and form == 3:
                dirn = 'sub'
            rel = os.path.join(dirn, NAMES[name])
            path = os.path.join(work, rel) if form == 0 else rel
            conc.append([what, path, 0])
            tgt, j = rel, 0
            while tgt in model:
                j += 1
                tgt = os.path.join(dirn, variant(NAMES[name], j))
            collided += j > 0
            if what == 'free':
                frees.append(os.path.join(work, tgt) if form == 0 else tgt)
                continue
            for i in range(1, len(tgt.split('/'))):
                model.setdefault('/'.join(tgt.split('/')[:i]), None)
            model[tgt] = {'tabular': ['h%d' % k] + ['row%d' % k] * n, 'reducing': ['tick,s%d' % k, '%d,0' % k],
                          'dump': ['k: %d' % k, 'x: 1']}[what]
        res = pool.run('logs', {'do': 'files', 'cwd': work, 'makes': conc, 'params': os.path.join(d, 'p', 'in.yaml')}, n)[0]
        fails = []
        if res != frees:
            fails.append('free names %s, expected %s' % (res, frees))
        got = {}
        for dp, ds, fs in os.walk(work):
            for x in ds + fs:
                p = os.path.join(dp, x)
                if os.path.isdir(p):
                    got[os.path.relpath(p, work)] = None
                else:
                    with open(p) as f:
                        t = f.read()
                    rel = os.path.relpath(p, work)
                    got[rel] = t if isinstance(model.get(rel), str) else t.split()
        for rel in sorted(set(got) | set(model)):
            if rel not in got:
                fails.append('%s was not made' % rel)
            elif rel not in model:
                fails.append('%s was made' % rel)
            else:
                m = model[rel]
                m = [y for x in m for y in x.split()] if isinstance(m, list) else m
                if got[rel] != m:
                    fails.append('%s holds %r, expected %r' % (rel, got[rel], m))
        return Result(fails[:4], collided > 0, ['%d ranks' % n, '%d collisions' % min(collided, 4)] + sorted({m[0] for m in makes}))


CHECK = C26()

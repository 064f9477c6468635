import json
import os
import shutil
from hypothesis import strategies as st
from core import Check, Result

KEYS = ['a', 'b.c', 'random.seed', 'world.width', 'null', 'yes', '1', 'é', 'a b', 'on: x', "q'", '# h']


class C27(Check):
    ID = 'C27'
    SHARDS = 6
    TECHNIQUE = 'property-based testing (Hypothesis) against a dictionary model and a differential seed comparison'
    RULE = ('A generated parameter dictionary written as YAML (block or flow style), an override dictionary as JSON (none, '
            'empty or given), with a seed in either, both or none, through init_params or the argument parser, with or '
            'without a dump. Non-trivial: the override changes a value of the file or a seed is given. Distinct by case.')
    CASES = {'quick': 1500, 'thorough': 20000}
    PRELOAD = 'logs'
    ASSUMPTIONS = ['the file is a non-empty mapping; values are JSON-like; seeds are integers from 0 to 2**32-1']

    def strategy(self, tier):
        text = st.text(st.characters(exclude_categories=['Cs', 'Cc']), max_size=6)
        leaf = st.one_of(st.integers(-2**40, 2**40), st.floats(allow_nan=False, allow_infinity=False, width=32), st.booleans(), st.none(),
                         text, st.sampled_from(['', 'yes', 'null', '1.0', '1e3', '~', 'a: b', '2020-01-01', '0x1f', '- a']))
        val = st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(text, c, max_size=3)), max_leaves=4)
        d = st.dictionaries(st.sampled_from(KEYS[:2] + KEYS[3:]), val, max_size=5)
        seed = st.one_of(st.none(), st.integers(0, 2**32 - 1), st.integers(0, 3))
        return st.tuples(d, st.one_of(st.none(), d, d), seed, seed, st.booleans(), st.integers(0, 2), st.booleans(), st.integers(0, 99))

    def run(self, case, pool):
        import yaml
        base, over, s1, s2, flow, dump, cmd, before = case
        base = dict(base)
        if s1 is not None:
            base['random.seed'] = s1
        if not base:
            base['z'] = 0
        if over is None and s2 is not None:
            over = {}
        if over is not None and s2 is not None:
            over = dict(over)
            over['random.seed'] = s2
        exp = dict(base)
        exp.update(over or {})
        seed = exp.get('random.seed')
        d = os.path.join(pool.dir, 'case')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        f = os.path.join(d, 'in.yaml')
        with open(f, 'w', encoding='utf-8') as fo:
            yaml.safe_dump(base, fo, default_flow_style=flow, allow_unicode=True, sort_keys=False)
        dumpf = [None, os.path.join(d, 'out.yaml'), os.path.join(d, 'in.yaml')][dump]
        res = pool.run('logs', {'do': 'params', 'file': f, 'json': None if over is None else json.dumps(over), 'dump': dumpf,
                                'seed': seed, 'cmd': cmd, 'before': before})[0]
        fails = []
        if json.dumps(res['params'], sort_keys=True) != json.dumps(exp, sort_keys=True):
            fails.append('parameters are %s, expected %s' % (res['params'], exp))
        types = {k: type(v).__name__ for k, v in exp.items()}
        if res['types'] != types:
            fails.append('value types are %s, expected %s' % (res['types'], types))
        if not res['same']:
            fails.append('parameters.params is not the returned dictionary')
        if dumpf:
            out = dumpf if dump == 1 else os.path.join(d, 'in_1.yaml')
            got = yaml.safe_load(open(out, encoding='utf-8')) if os.path.exists(out) else 'no file'
            if json.dumps(got, sort_keys=True, default=str) != json.dumps(exp, sort_keys=True):
                fails.append('the dump holds %s, expected %s' % (got, exp))
        if seed is not None:
            if res['seed'] != seed:
                fails.append('random.seed is %s, expected %s' % (res['seed'], seed))
            if res['draws'] != res['expect']:
                fails.append('seeding by parameter gives %s, directly %s' % (res['draws'], res['expect']))
        changed = over is not None and any(k in base and base[k] != v for k, v in over.items())
        return Result(fails, changed or seed is not None, ['override' if changed else 'no override', 'seed' if seed is not None else 'no seed',
                                                           'dump%d' % dump, 'parser' if cmd else 'direct'])


CHECK = C27()

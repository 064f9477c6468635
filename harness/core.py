"""The driver: runs one property's check (see DESIGN.md, "Runner").

    core.py ID                    the check: shards, confirmation, evidence, verdict
    core.py ID --shard K --out F  one shard (internal)
    core.py ID --replay FILE      runs the case in FILE, bypassing Hypothesis
"""
import atexit
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'checks'))

import build  # noqa: E402
from pool import Pool, CaseError, HarnessError  # noqa: E402

SEED = int(os.environ.get('VERIF_SEED') or '1')
TIER = os.environ.get('VERIF_TIER') or 'quick'


class Result:
    """What one case showed. fails: descriptions of violations; key: what makes it distinct."""

    def __init__(self, fails=(), nontrivial=True, labels=(), key=None):
        self.fails, self.nontrivial, self.labels, self.key = list(fails), nontrivial, list(labels), key


def histories(op, n, lo=3):
    """Lists of operations of all lengths up to n (plain lists() makes mostly short ones)."""
    from hypothesis import strategies as st
    return st.one_of(st.lists(op, min_size=lo, max_size=n), st.lists(op, min_size=n // 2, max_size=n),
                     st.lists(op, min_size=n - n // 4, max_size=n))


class Check:
    ID = None
    RULE = ''
    POOL = 1            # ranks of a shard's pool
    SHARDS = 6
    POOLS = None        # instead: the ranks of each shard's pool, per tier
    CASES = {'quick': 300, 'thorough': 6000}    # per shard
    BUDGET = {'quick': 40, 'thorough': 600}     # seconds; a cap, cases come first
    PRELOAD = ''
    VARIANT = ''
    TIMEOUT = 40
    MAX_CASES = 400     # cases per pool life
    ENV = {}
    ASSUMPTIONS = []

    def strategy(self, tier):
        raise NotImplementedError

    def run(self, case, pool):
        """Executes a case and judges it; returns a Result. CaseError means a violation."""
        raise NotImplementedError

    def sample(self, case):
        return case

    def env(self, src):
        return dict(self.ENV)


class StopRun(KeyboardInterrupt):
    pass


def load(pid, k=None):
    chk = importlib.import_module(pid.lower()).CHECK
    if chk.POOLS:
        sizes = chk.POOLS[TIER]
        chk.SHARDS, chk.POOL = len(sizes), max(sizes) if k is None else sizes[k]
    return chk


def canon(case):
    return json.loads(json.dumps(case))


def digest(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def make_pool(chk, src):
    p = Pool(chk.POOL, src, preload=chk.PRELOAD, timeout=chk.TIMEOUT, max_cases=chk.MAX_CASES, env=chk.env(src))
    atexit.register(p.close)
    return p


def judge(chk, case, pool):
    try:
        return chk.run(case, pool)
    except CaseError as e:
        return Result(['%s %s' % (e.kind, e.detail)], True, ['error:' + e.kind])
    except (LookupError, ValueError, TypeError, AttributeError, FileNotFoundError):
        # what the library returned or wrote does not have the form it is judged by
        return Result(['results of another form than expected: ' + traceback.format_exc()[-700:]], True, ['error:form'])


def shard(chk, k, out):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, Verbosity
    src = build.ensure(chk.VARIANT)
    pool = make_pool(chk, src)
    st = {'evaluations': 0, 'keys': set(), 'labels': {}, 'samples': [], 'failing': [], 'error': None,
          'notes': [], 'capped': False}
    t0 = time.time()
    budget = chk.BUDGET[TIER]
    state = {'first_fail': None, 'hist': []}
    shrink_budget = 40 if TIER == 'quick' else 120

    def one(case):
        case = canon(case)
        r = judge(chk, case, pool)
        st['evaluations'] += 1
        if r.nontrivial:
            st['keys'].add(digest(r.key if r.key is not None else case))
            if len(st['samples']) < 3 and st['evaluations'] % 7 == 0:
                st['samples'].append(chk.sample(case))
        for lb in r.labels:
            st['labels'][lb] = st['labels'].get(lb, 0) + 1
        if r.fails and any(f.startswith('hang') for f in r.fails) and state['first_fail'] is None:
            # decide a hang on a fresh pool, with more time
            pool.stop()
            pool.timeout = 2 * chk.TIMEOUT
            r = judge(chk, case, pool)
            pool.timeout = chk.TIMEOUT
            if not r.fails:
                st['notes'].append('one case took more than %d s and passed when run again' % chk.TIMEOUT)
            elif any(f.startswith('hang') for f in r.fails):
                pool.timeout = 5
        if r.fails:
            if state['first_fail'] is None:
                state['first_fail'] = time.time()
                state['hist_at'] = list(state['hist'])
            st['failing'].append((len(json.dumps(case)), case, r.fails[:5]))
        state['hist'] = (state['hist'] + [case])[-30:]
        return r

    def body(case):
        now = time.time()
        if state['first_fail'] is not None:
            if now - state['first_fail'] > shrink_budget:
                raise StopRun
        elif now - t0 > budget:
            st['capped'] = True
            raise StopRun
        r = one(case)
        if r.fails:
            raise AssertionError('violation')

    try:
        if k == 0:
            p = os.path.join(ROOT, 'corpus', chk.ID + '.json')
            for case in (json.load(open(p)) if os.path.exists(p) else []):
                if one(case).fails:
                    raise StopRun
        sd = int(hashlib.sha256(('%d/%s/%d' % (SEED, chk.ID, k)).encode()).hexdigest()[:12], 16)
        test = hypothesis.given(chk.strategy(TIER))(body)
        test = settings(max_examples=chk.CASES[TIER], database=None, deadline=None, print_blob=False,
                        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                        phases=(Phase.generate, Phase.shrink), verbosity=Verbosity.quiet)(test)
        test = hypothesis.seed(sd)(test)
        test()
    except StopRun:
        pass
    except HarnessError as e:
        st['error'] = str(e)
    except BaseException:
        if not st['failing']:
            st['error'] = traceback.format_exc()
    st['failing'].sort(key=lambda x: x[0])
    st['failing'] = st['failing'][:4]
    st['hist'] = state.get('hist_at', [])
    st['keys'] = sorted(st['keys'])
    st['wall'] = time.time() - t0
    with open(out, 'w') as f:
        json.dump(st, f)
    pool.close()


def known(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['known'] if k['property'] == pid]


def replay_cases(chk, cases, pool):
    """The last case's failures, after running the others before it in the same pool."""
    r = None
    for c in cases:
        r = judge(chk, c, pool)
    return r.fails


def main():
    pid = sys.argv[1]
    if '--shard' in sys.argv:
        k = int(sys.argv[sys.argv.index('--shard') + 1])
        return shard(load(pid, k), k, sys.argv[sys.argv.index('--out') + 1])
    chk = load(pid)
    if '--replay' in sys.argv:
        f = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        pool = make_pool(chk, build.ensure(chk.VARIANT))
        fails = replay_cases(chk, f.get('prelude', []) + [f['case']], pool)
        pool.close()
        for x in fails:
            print(x)
        print('replay: %s' % ('FAILS' if fails else 'passes'))
        return 1 if fails else 0
    t0 = time.time()
    src = build.ensure(chk.VARIANT)
    tmp = tempfile.mkdtemp(prefix='r4pychk-')
    atexit.register(lambda: shutil.rmtree(tmp, ignore_errors=True))
    procs = []
    for k in range(chk.SHARDS):
        out = os.path.join(tmp, '%d.json' % k)
        procs.append((k, out, subprocess.Popen([sys.executable, os.path.abspath(__file__), pid, '--shard', str(k),
                                                '--out', out], stdin=subprocess.DEVNULL)))

    def killall(*_):
        for _, _, p in procs:
            if p.poll() is None:
                p.send_signal(signal.SIGTERM)
    atexit.register(killall)
    limit = t0 + (chk.BUDGET[TIER] + 300)
    shards, errors = [], []
    for k, out, p in procs:
        try:
            p.wait(max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            p.terminate()
            errors.append('shard %d did not finish' % k)
            continue
        if not os.path.exists(out):
            errors.append('shard %d ended with %s' % (k, p.returncode))
            continue
        s = json.load(open(out))
        if s['error']:
            errors.append('shard %d: %s' % (k, s['error']))
        shards.append(s)
    failing = sorted((tuple(f) + (s['hist'],) for s in shards for f in s['failing']), key=lambda x: x[0])
    violation, notes = None, [n for s in shards for n in s['notes']]
    pool = make_pool(chk, src)
    if failing:
        pool.timeout = 60
        for size, case, fails, hist in failing[:6]:
            pool.stop()
            f2 = replay_cases(chk, [case], pool)
            if f2:
                violation = ({'property': pid, 'case': case, 'fails': f2}, f2)
                break
        if violation is None:
            for size, case, fails, hist in failing[:2]:
                pool.stop()
                f2 = replay_cases(chk, hist + [case], pool)
                if f2:
                    violation = ({'property': pid, 'prelude': hist, 'case': case, 'fails': f2}, f2)
                    break
        if violation is None:
            notes.append('a failure did not reproduce on a fresh process: %s' % (failing[0][2],))
            print('unreproduced failure: %s\n%s' % (failing[0][2], json.dumps(failing[0][1])), file=sys.stderr)
    kf = []
    if violation is None:
        for kn in known(pid):
            pool.stop()
            fails = replay_cases(chk, [kn['case']], pool)
            kf.append((kn, bool(fails)))
    pool.close()
    keys, labels, samples = set(), {}, []
    for s in shards:
        keys.update(s['keys'])
        samples += s['samples'][:1]
        for lb, n in s['labels'].items():
            labels[lb] = labels.get(lb, 0) + n
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(s['evaluations'] for s in shards), 'distinct_nontrivial': len(keys),
            'rule': chk.RULE, 'samples': samples[:3], 'classes': dict(sorted(labels.items())),
            'shards': len(shards), 'shards_capped_by_time': sum(1 for s in shards if s['capped']),
            'known_findings_replayed': len(kf), 'notes': notes[:5],
        },
        'assumptions': chk.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 1), 'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if violation:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join('replays', '%s-%s.json' % (pid, digest(violation[0]['case'])))
        with open(os.path.join(ROOT, path), 'w') as f:
            json.dump(violation[0], f, indent=1)
        for x in violation[1][:5]:
            print(x)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    for kn, still in kf:
        if still:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn['what']))
        else:
            print('note: a listed finding no longer fails: %s' % kn['what'])
    if errors:
        for e in errors:
            print(e, file=sys.stderr)
        return 2
    print('%s: held on %d cases (%d distinct non-trivial) in %.0f s' % (
        pid, ev['coverage']['evaluations'], len(keys), time.time() - t0))
    return 0


if __name__ == '__main__':
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))
    sys.exit(main())

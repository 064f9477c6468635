"""The base of the checks that run world programs (worldmodel.py, ex/world.py)."""
from hypothesis import strategies as st
from core import Check, Result
import worldmodel as wm

ASSUME = ['the buffer size is at most the smallest local extent in a buffered dimension',
          'an edge edited in different ways from both its ends in one step may end either way, but the same way on both ranks',
          'spaces of one context have the same bounds; an agent is moved to corresponding places in all of them',
          'the unique id of a removed agent is not reused before the next synchronization']


class WorldCheck(Check):
    POOLS = {'quick': [5, 5, 8], 'thorough': [5, 8, 8]}      # 8 ranks: the first number with z divided
    CASES = {'quick': 700, 'thorough': 12000}
    BUDGET = {'quick': 60, 'thorough': 600}
    PRELOAD = 'world'
    TIMEOUT = 30
    ASPECTS = ()
    PROFILES = ()       # keyword arguments of wm.programs
    NEED = ()           # a case is non-trivial if it shows one of these labels
    ASSUMPTIONS = ASSUME

    def size(self, tier):
        return {'maxn': self.POOL, 'minn': 6 if tier == 'quick' and self.POOL == 8 else 1}

    def strategy(self, tier):
        return st.one_of(*[wm.programs(tier, **dict(self.size(tier), **p)) for p in self.PROFILES])

    def run(self, case, pool):
        w = wm.execute(pool, case, case['n'], set(self.ASPECTS))
        return Result(w.fails[:5], bool(set(self.NEED) & w.labels), sorted(w.labels) + ['%d ranks' % case['n']])

from worldcheck import WorldCheck, ASSUME


class C19(WorldCheck):
    ID = 'C19'
    ASPECTS = ('net',)
    PROFILES = (
        dict(spaces=(0, 0), nets=(1, 2), ends=('sync', 'sync', 'move', 'nosync'), readd=True, few=True, steps=7),
        dict(spaces=(0, 0), nets=(1, 2), ends=('sync', 'move'), readd=True, both=True, again=True),
        dict(spaces=(0, 0), nets=(1, 1), ends=('sync', 'sync', 'move', 'nosync'), both=True, few=True),
        dict(spaces=(1, 2), nets=(1, 2), ends=('sync', 'sync', 'nosync'), readd=True, both=True, late=True),
    )
    NEED = ('crossing',)
    RULE = ('World programs (see C09) with one or two networks, whose edges are added, re-added, updated and removed from either '
            'end, between local agents, buffered agents and requested agents. After each synchronization the edges of each '
            'rank that touch a local agent are compared with the global network, as are nodes and edge counts. Non-trivial: an '
            'edge crossed ranks. Distinct by case.')


CHECK = C19()

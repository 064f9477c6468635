from worldcheck import WorldCheck, ASSUME


class C11(WorldCheck):
    ID = 'C11'
    ASPECTS = ('ghost',)
    PROFILES = (
        dict(spaces=(0, 0), nets=(1, 2), ends=('sync', 'sync', 'move'), readd=True, few=True, steps=7),
        dict(spaces=(0, 0), nets=(0, 2), ends=('sync', 'move'), readd=True, late=True, again=True),
        dict(spaces=(1, 2), nets=(0, 1), ends=('sync', 'sync', 'nosync')),
        dict(spaces=(1, 2), nets=(0, 2), ends=('sync', 'sync', 'nosync'), late=True, again=True, both=True),
        dict(spaces=(0, 2), nets=(1, 1), ends=('sync',), readd=True, both=True),
    )
    NEED = ('buffered', 'requested', 'crossing')
    RULE = ('World programs (see C09). After each synchronization the ghosts, network nodes and space contents of each rank are '
            'compared with the originals: state, and absence of the removed; requested ghosts stay while the original exists '
            'elsewhere. Non-trivial: an agent was ghosted through a buffer, an edge or a request. Distinct by case.')


CHECK = C11()

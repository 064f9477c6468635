from worldcheck import WorldCheck, ASSUME


class C10(WorldCheck):
    ID = 'C10'
    ASPECTS = ('buffer',)
    PROFILES = (
        dict(spaces=(1, 1), nets=(0, 0), ends=('sync',), request=False, single=False),
        dict(spaces=(1, 2), nets=(0, 1), ends=('sync', 'sync', 'nosync')),
        dict(spaces=(2, 2), nets=(0, 1), ends=('sync', 'sync', 'nosync'), late=True, again=True),
    )
    NEED = ('buffered',)
    RULE = ('World programs (see C09) with at least one shared space. After each synchronization of ghosts, every agent visible '
            'in each space on each rank, with its location and what is found there, is compared with the local agents and those '
            'within the buffer of the local bounds. Non-trivial: a remote agent was to be seen in a buffer. Distinct by case.')


CHECK = C10()

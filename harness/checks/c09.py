from worldcheck import WorldCheck, ASSUME


class C09(WorldCheck):
    ID = 'C09'
    ASPECTS = ('place',)
    PROFILES = (
        dict(spaces=(1, 2), nets=(0, 1), ends=('sync', 'sync', 'nosync')),
        dict(spaces=(1, 2), nets=(0, 1), ends=('sync', 'sync', 'nosync'), again=True, late=True),
        dict(spaces=(1, 1), nets=(0, 0), ends=('sync', 'nosync'), request=False, single=False),
        dict(spaces=(0, 0), nets=(0, 1), ends=('move', 'move', 'sync', 'nosync')),
    )
    NEED = ('migrated', 'moved')
    RULE = ('On 1-8 ranks, programs of several steps: each rank adds agents, changes their state, moves them in up to two '
            'shared spaces (grid or continuous, 1-3 dimensions, any border, buffer 0-2, any occupancy), edits edges, requests '
            'and removes agents, and then synchronizes, with or without ghosts, or moves agents explicitly between ranks. After '
            'each, the local agents of each rank, with state and locations, are compared with the model. Non-trivial: an agent '
            'became local on another rank. Distinct by case.')


CHECK = C09()

from worldcheck import WorldCheck, ASSUME


class C06(WorldCheck):
    ID = 'C06'
    ASPECTS = ('ckpspace',)
    PROFILES = (
        dict(spaces=(1, 2), nets=(0, 0), ends=('ckp', 'sync'), request=False, again=True),
        dict(spaces=(1, 2), nets=(0, 0), ends=('ckp', 'none', 'nosync'), request=False),
        dict(spaces=(1, 2), nets=(0, 1), ends=('ckp', 'sync')),
    )
    NEED = ('restored agent',)
    RULE = ('World programs (see C09) whose steps may end with saving agents, spaces and networks in a checkpoint (with or without '
            'a synchronization before it, with the model changed between the save and the pickling or not), and continuing with '
            'a new context and new projections restored from the unpickled checkpoint. On every rank the locations and the '
            'contents of the restored spaces are compared with those before the save. '
            'Non-trivial: a located agent was restored. Distinct by case.')
    ASSUMPTIONS = ASSUME + ['every saved agent has a location in every space']


CHECK = C06()

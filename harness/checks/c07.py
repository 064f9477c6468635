from worldcheck import WorldCheck, ASSUME


class C07(WorldCheck):
    ID = 'C07'
    ASPECTS = ('ckpnet', 'restored net')
    PROFILES = (
        dict(spaces=(0, 0), nets=(1, 2), ends=('ckp', 'sync'), readd=True, both=True),
        dict(spaces=(0, 0), nets=(1, 2), ends=('ckp', 'sync', 'move'), readd=True),
        dict(spaces=(1, 2), nets=(1, 2), ends=('ckp', 'sync'), readd=True, both=True, again=True),
    )
    NEED = ('restored crossing',)
    RULE = ('World programs (see C09) whose steps may end with a synchronization, saving agents, spaces and networks in a checkpoint, '
            'and continuing with a new context and new projections restored from the unpickled checkpoint. On every rank the edges '
            'of the restored networks are compared with those before the save, and after every later synchronization with the '
            'model (as in C19). Non-trivial: an edge between ranks was restored. Distinct by case.')
    ASSUMPTIONS = ASSUME + ['networks are saved on all ranks after a synchronization',
                            'a network is added to the context before or immediately after it is restored']


CHECK = C07()

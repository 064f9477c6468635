from c22 import C22


class C23(C22):
    ID = 'C23'
    KIND = 'rw'
    RULE = ('A read-write layer (as in C22) on 1 to 6 ranks and a history of sets by owners, swaps and synchronizations (some without ghosts), with both layers '
            'read in full on every rank after each synchronization and at other points, judged against two global dictionaries '
            'and each rank\'s last synchronized view of them; neighbourhoods are compared with the read layer. Non-trivial: at '
            'least 2 ranks and a set in another rank\'s buffered area. Distinct by program.')
    CASES = {'quick': 350, 'thorough': 8000}


CHECK = C23()

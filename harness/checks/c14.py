import c13


class C14(c13.C13):
    ID = 'C14'
    RULE = ('A history as in C13, in which boxes (inside, overlapping and beyond the bounds, with agents on their faces) are '
            'queried, run in three spaces that differ in the tree threshold (1, generated, 50). Non-trivial: as in C13, and '
            'some box held some but not all located agents. Distinct by history.')


CHECK = C14()

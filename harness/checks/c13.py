import c12


class C13(c12.C12):
    ID = 'C13'
    KINDS = ['cspace', 'scspace']
    MIND = 2
    RULE = c12.C12.RULE.replace('1-D to 3-D grid', '2-D or 3-D continuous space').replace('Grid and SharedGrid', 'ContinuousSpace and SharedCSpace')
    ASSUMPTIONS = c12.C12.ASSUMPTIONS + ['continuous spaces have 2 or 3 dimensions (1-D is marked TODO in the code)',
                                         'bounds of magnitude up to 1e6; a sticky border clamps to within 1e-6 of the upper bound']


CHECK = C13()

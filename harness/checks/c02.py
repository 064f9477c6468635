import c01


class C02(c01.C01):
    ID = 'C02'
    SEL = 'time'
    RULE = ('A schedule program as in C01, over integer and fractional ticks with repeating, stop, end and void '
            'operations before and during the run; non-trivial: at least 2 ticks and 3 executions. Distinct by program.')
    ASSUMPTIONS = ['ticks and intervals are multiples of a power of 2 (1/4 to 2**-42) below 2**41, so repeat times are exact',
                   'interval > 0; a stop is always scheduled']


CHECK = C02()

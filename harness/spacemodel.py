"""The reference model of one-process spaces: border rules, occupancy, box queries."""
from hypothesis import strategies as st

UIDS = [(i, t, r) for i in range(3) for t in range(3) for r in range(2)]


def periodic(x, lo, ext):
    """x shifted by a whole number of extents into [lo, lo+ext)."""
    return lo + (x - lo) % ext


def sticky_ok(got, x, lo, ext, disc):
    hi = lo + ext
    if disc:
        return got == max(lo, min(hi - 1, x))
    if x < lo:
        return got == lo
    if x >= hi:
        return hi - 1e-6 < got < hi
    return got == x or (x > hi - 1e-7 and hi - 1e-6 < got < hi)


def periodic_ok(got, x, lo, ext, disc):
    hi = lo + ext
    if not (lo <= got < hi):
        return False
    if disc:
        return got == periodic(x, lo, ext)
    if lo <= x < hi:
        return got == x
    # a whole number of extents, to within rounding
    k = round((x - got) / ext)
    scale = max(abs(x), abs(lo), abs(hi), ext)
    d = abs(x - got - k * ext)
    return d <= 1e-12 * scale + 1e-300 or abs(d - ext) <= 1e-12 * scale


def dims(bounds):
    return 3 if bounds[5] > 0 else 2 if bounds[3] > 0 else 1


def transform_ok(got, pt, bounds, per, disc):
    """Is got the right place for an agent moved to pt?"""
    n = dims(bounds)
    for k in range(3):
        lo, ext = bounds[2 * k], bounds[2 * k + 1]
        if k >= n:
            if got[k] != pt[k]:
                return False
        elif not (periodic_ok if per else sticky_ok)(got[k], pt[k], lo, ext, disc):
            return False
    return True


# ----- generation of bounds and coordinates

def bounds_st(mind, maxd, maxext=(12, 8, 5), big=False):
    def mk(t):
        n, mins, exts = t
        out = []
        for k in range(3):
            if k < n:
                out += [mins[k], 1 + exts[k] % maxext[k]]
            else:
                out += [0, 0]
        return out
    mins = st.tuples(*[st.one_of(st.just(0), st.integers(-20, 20), st.just(0)) for _ in range(3)])
    exts = st.tuples(*[st.integers(0, 60) for _ in range(3)])
    return st.tuples(st.integers(mind, maxd), mins, exts).map(mk)


COORD = st.one_of(st.tuples(st.just(0), st.integers(0, 60)), st.tuples(st.just(0), st.integers(0, 60)),
                  st.tuples(st.integers(0, 3), st.integers(0, 60)))


def coord(c, lo, ext, disc):
    kind, n = c
    if kind == 0:
        x = lo + n % ext
        return x if disc else x + ((n // ext) % 4) * 0.25
    if kind == 1:
        x = lo - 1 - n
        return x if disc else x + (n % 4) * 0.25
    if kind == 2:
        x = lo + ext + n
        return x if disc else x + (n % 4) * 0.25
    if disc:
        return [lo, lo + ext - 1, lo + ext, lo - 1, lo + ext * 3, lo - ext * 3, lo + ext * 2 - 1, lo - ext - 1][n % 8]
    return [lo, lo + ext - 0.5, lo + ext, lo - 0.001, lo + ext * 3, lo - ext * 3, lo - 1e-17, lo + 0.1, lo + ext / 3.,
            lo - 1e-9, lo + ext + 0.3, lo - ext * 1.7][n % 12]


def point(cs, bounds, disc):
    n = dims(bounds)
    p = [coord(cs[k], bounds[2 * k], bounds[2 * k + 1], disc) if k < n else 0 for k in range(3)]
    return p if disc else [float(x) for x in p]

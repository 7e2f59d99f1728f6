"""Generators shared by the checks. All produce JSON-able data."""
from hypothesis import strategies as st

PRINTABLE = ''.join(chr(c) for c in range(33, 127))


def words(alphabet, min_size=1, max_size=8):
    return st.text(alphabet=alphabet, min_size=min_size, max_size=max_size)


def floats(lo=-1e6, hi=1e6):
    return st.floats(min_value=lo, max_value=hi, allow_nan=False, allow_infinity=False)


def nice_floats():
    """floats over a wide range of magnitudes, exactly representable in short decimal text often enough"""
    return st.one_of(st.integers(-1000, 1000).map(float),
                     st.tuples(st.integers(-9999, 9999), st.integers(-12, 12)).map(lambda p: float('%de%d' % p)),
                     floats())


param_names = st.one_of(
    st.sampled_from(['a', 'b', 'omegabh2', 'H0', 'sigma8', 'chi2_x', 'A_planck', 'ns', 'theta', 'w', 'wa', 'm.x']),
    words('abcdefgXYZ0123456789_', 1, 6).filter(lambda s: s[0].isalpha()))


def name_list(min_size=1, max_size=6):
    return st.lists(param_names, min_size=min_size, max_size=max_size, unique=True)


seeds = st.integers(0, 2 ** 31 - 1)

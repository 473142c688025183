"""generators shared by the property modules

A point in time is an integer `n` in a case and turned into a date object of
the kind of the case: float (n/64 of a year, exact), int (n years), date,
datetime, BusinessDate (n days after a base date).
"""
import datetime
import random

from hypothesis import strategies as st

import businessdate as bd
import dcf
from dcf import interpolation as ip

DAYS = 365.25
BASES = [20160229, 20161231, 20191231, 20200131, 20201031, 20210630,
         20211201, 20220212, 20240229]

KINDS = ['float', 'int', 'date', 'datetime', 'bd']


def base_date(ymd):
    return datetime.date(ymd // 10000, ymd // 100 % 100, ymd % 100)


class Clock(object):
    """turns integers into dates of one kind, and knows year fractions"""

    def __init__(self, kind, base=20200131):
        self.kind = kind
        self.base = base
        b = base_date(base)
        if kind == 'date':
            self.zero = b
        elif kind == 'datetime':
            self.zero = datetime.datetime(b.year, b.month, b.day)
        elif kind == 'bd':
            self.zero = bd.BusinessDate(base)
        elif kind == 'float':
            self.zero = 0.0
        elif kind == 'int':
            self.zero = 0
        else:
            raise ValueError(kind)
        self._b = b

    def __call__(self, n):
        if n is None:
            return None
        if isinstance(n, (list, tuple)):
            return [self(i) for i in n]
        if self.kind == 'float':
            return n / 64.0
        if self.kind == 'int':
            return n
        if self.kind == 'bd':
            d = self._b + datetime.timedelta(days=n)
            return bd.BusinessDate(d.year * 10000 + d.month * 100 + d.day)
        return self.zero + datetime.timedelta(days=n)

    def offset(self, n):
        """a period of n units which can be added to dates of this kind"""
        if self.kind == 'float':
            return n / 64.0
        if self.kind == 'int':
            return n
        if self.kind == 'bd':
            return bd.BusinessPeriod(days=n)
        return datetime.timedelta(days=n)

    def yf(self, s, e):
        """year fraction of default day count between integers s and e"""
        if self.kind == 'float':
            return e / 64.0 - s / 64.0
        if self.kind == 'int':
            return float(e - s)
        return (e - s) / DAYS

    def frac(self, s, e):
        """default year fraction between dates of this kind"""
        if self.kind in ('float', 'int'):
            return float(e - s)
        if self.kind == 'bd':
            s, e = s.to_date(), e.to_date()
        return (e - s).days / DAYS

    def step(self):
        """typical grid step in integers"""
        return {'float': 16, 'int': 1}.get(self.kind, 91)

    def num(self, d):
        """inverse: integer of date d"""
        if self.kind == 'float':
            return d * 64
        if self.kind == 'int':
            return d
        if self.kind == 'bd':
            return (d.to_date() - self._b).days
        return (d - self.zero).days


def clock(case):
    return Clock(case['kind'], case.get('base', 20200131))


kinds = st.sampled_from(KINDS)
bases = st.sampled_from(BASES)


def dec(lo, hi, unit):
    """decimal numbers lo, lo+unit, ..., hi (as floats)"""
    n = int(round(1 / unit))
    return st.integers(int(round(lo * n)), int(round(hi * n))).map(
        lambda i: i / n)


def real(lo, hi, unit=1e-4):
    """mixture of decimals and arbitrary floats of [lo, hi]"""
    return st.one_of(dec(lo, hi, unit),
                     st.floats(lo, hi, allow_nan=False,
                               allow_subnormal=False))


rates = st.one_of(dec(-0.05, 0.15, 1e-4), dec(-0.05, 0.15, 1e-4),
                  st.just(0.0),
                  st.floats(-0.05, 0.15, allow_nan=False,
                            allow_subnormal=False))
pos_rates = st.one_of(dec(0.0, 0.3, 1e-4), st.just(0.0),
                      st.floats(0.0, 0.3, allow_nan=False,
                                allow_subnormal=False))
notionals = st.one_of(
    st.sampled_from([1.0, 100.0, 1e6, -1e6, 1, 100, 1000000]),
    dec(-1000, 1000, 0.01), st.integers(-1000000, 1000000))


def axis(min_size=1, max_size=6, lo=0, hi=4000, order='any'):
    """distinct integer time points, a lot of them once in a while"""
    s = st.lists(st.integers(lo, hi), min_size=min_size, max_size=max_size,
                 unique=True)
    if max_size >= 5 and hi - lo >= 120:
        s = rarely(many(12, 40, lo, hi), s)
    return s.map(sorted) if order == 'sorted' else s


@st.composite
def rarely(draw, rare, usual, odds=24):
    return draw(rare if draw(st.integers(0, odds)) == odds else usual)


@st.composite
def many(draw, least, most, lo, hi):
    """least to most distinct integers, given by a seed to be short"""
    r = random.Random(draw(st.integers(0, 2 ** 20)))
    n = draw(st.integers(least, most))
    xs = r.sample(range(lo, hi + 1), n)
    how = draw(st.sampled_from(['given', 'sorted', 'reversed', 'spread']))
    if how == 'spread':  # gaps of very different size
        xs = sorted({lo + int((hi - lo) * (x - lo) ** 3 / (hi - lo + 1) ** 3)
                     for x in xs} | {hi})
        if len(xs) < least:
            xs = sorted(set(xs) | set(range(lo, lo + least)))
    elif how != 'given':
        xs = sorted(xs, reverse=how == 'reversed')
    return xs


def steps_axis(min_size=1, max_size=6, lo=0, hi=400, gaps=st.integers(1, 700)):
    """strictly increasing integers built from gaps"""
    return st.tuples(st.integers(lo, hi),
                     st.lists(gaps, min_size=max(0, min_size - 1),
                              max_size=max_size - 1)).map(_cum)


def _cum(t):
    out = [t[0]]
    for g in t[1]:
        out.append(out[-1] + g)
    return out


# ---- day counts -----------------------------------------------------------

def _dc_365(s, e):
    return _days(s, e) / 365.0


def _dc_360(s, e):
    return _days(s, e) / 360.0


def _ymd(d):
    if hasattr(d, 'to_date'):
        d = d.to_date()
    return d.year, d.month, d.day


def _dc_30360(s, e):
    y1, m1, d1 = _ymd(s)
    y2, m2, d2 = _ymd(e)
    d1 = min(d1, 30)
    d2 = 30 if (d2 == 31 and d1 == 30) else d2
    return (360 * (y2 - y1) + 30 * (m2 - m1) + d2 - d1) / 360.0


def _days(s, e):
    if hasattr(s, 'diff_in_days'):
        return float(s.diff_in_days(e))
    diff = e - s
    if hasattr(diff, 'days'):
        return float(diff.days)
    return float(diff) * 365.25


DAY_COUNTS = {'act365': _dc_365, 'act360': _dc_360, '30360': _dc_30360}


def day_count(name):
    return DAY_COUNTS[name] if name else None


def day_counts(date_like_only=False, additive=True):
    names = [None, None, 'act365', 'act360']
    if not additive:
        names.append('30360')
    return st.sampled_from(names)


def yf(name, c, s, e):
    """oracle year fraction between integers s, e under day count name"""
    if name is None:
        return c.yf(s, e)
    if name == '30360':
        return _dc_30360(c(s), c(e))
    days = c.yf(s, e) * DAYS if c.kind in ('float', 'int') else float(e - s)
    return days / {'act365': 365.0, 'act360': 360.0}[name]


def frac(name, c, s, e):
    """oracle year fraction between dates of clock c"""
    return DAY_COUNTS[name](s, e) if name else c.frac(s, e)


# ---- payment schedules ------------------------------------------------------

@st.composite
def schedules(draw, kind, min_size=1, max_size=8, lo=0):
    """strictly increasing integers, about regular or not"""
    unit = {'int': 1, 'float': 16}.get(kind, 91)
    n = draw(st.integers(min_size, max_size))
    if max_size >= 8 and draw(st.integers(0, 24)) == 24:
        n = draw(st.integers(13, 60))
    gap = draw(st.sampled_from([1, 2, 4] if n < 13 else [1])) * unit
    if draw(st.booleans()):
        gaps = [gap] * n
    else:
        top = {'int': 3, 'float': 128}.get(kind, 800)
        if n > 12 and kind != 'int':
            top = top // 8
        gaps = draw(st.lists(st.integers(1, top), min_size=n, max_size=n))
    x = draw(st.integers(lo, lo + 4 * unit))
    out = []
    for g in gaps:
        x += g
        out.append(x)
    return out


def offsets(kind):
    """spec of a time difference, see offset"""
    if kind == 'bd':
        return st.sampled_from([None, None, '1d', '2d', '5d', '1m', 3])
    if kind == 'float':
        return st.sampled_from([None, None, 1, 2, 16])
    if kind == 'int':
        return st.sampled_from([None, None, 1])
    return st.sampled_from([None, None, 1, 2, 5, 30])


def offset(c, spec):
    if spec is None:
        return None
    if isinstance(spec, str):
        return bd.BusinessPeriod(spec)
    return c.offset(spec)

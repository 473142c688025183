"""P06 compounding and rate functions"""
from math import exp, log, log1p

from hypothesis import strategies as st

from dcf import compounding as cp
from vlib.core import Facet, close, true
from vlib import gen

NAMED = {1: 'annually_compounding', 2: 'semi_compounding',
         4: 'quarterly_compounding', 12: 'monthly_compounding',
         365: 'daily_compounding'}


def pw(x, e):
    """(1 + x) ** e"""
    return exp(e * log1p(x))


def functions(case):
    """name, factor(r, t), rate(df, t), formula(r, t)"""
    kind, m = case['conv'], case['m']
    if kind == 'simple':
        return (cp.simple_compounding, cp.simple_rate,
                lambda r, t: 1.0 / (1.0 + r * t))
    if kind == 'continuous':
        return (cp.continuous_compounding, cp.continuous_rate,
                lambda r, t: exp(-r * t))
    if kind == 'periodic':
        return (lambda r, t: cp.periodic_compounding(r, t, m),
                lambda df, t: cp.periodic_rate(df, t, m),
                lambda r, t: pw(r / m, -t * m))
    f = getattr(cp, NAMED[m])
    return (f, lambda df, t: cp.periodic_rate(df, t, m),
            lambda r, t: pw(r / m, -t * m))


def check(case, rec):
    df, rate, formula = functions(case)
    what = '%s(m=%s)' % (case['conv'], case['m'])
    m = case['m']
    r, t = case['r'], case['t']
    if case['conv'] == 'simple' and r < 0:
        t = min(t, 0.9 / -r)
    rec.label(case['conv'], 'm=%s' % case['m'] if case['conv'] == 'named'
              else '')
    rec.nt(r != 0 and t != 0)
    # rounding of a growth factor next to 1 is amplified by its exponent
    eps = 0.0 if case['conv'] in ('simple', 'continuous') else 4e-16 * t * m
    x = close(df(r, t), formula(r, t), what + ' factor', rel=1e-12 + eps)
    true(x > 0, '%s factor %r is not positive', what, x)
    close(df(0, t), 1.0, what + ' factor of zero rate', abs_=0, rel=0)
    close(df(0.0, t), 1.0, what + ' factor of zero rate', abs_=0, rel=0)
    close(df(r, 0), 1.0, what + ' factor of zero maturity', abs_=0, rel=0)
    close(df(r, 0.0), 1.0, what + ' factor of zero maturity', abs_=0, rel=0)
    if t >= 1e-3:
        back = rate(x, t)
        close(back, r, what + ' rate of factor', rel=1e-9,
              abs_=1e-14 / t * max(1, case['m']) * max(1, 1 / x))
        d = exp(-case['df'] * t)
        y = close(rate(d, t), {
            'simple': (1.0 / d - 1.0) / t,
            'continuous': -log(d) / t}.get(
                case['conv'], (exp(-log(d) / (t * case['m'])) - 1)
                * case['m']),
            what + ' rate', rel=1e-9, abs_=1e-11)
        close(df(y, t), d, what + ' factor of rate', rel=1e-9)
        close(rate(1.0, t), 0.0, what + ' rate of factor 1', abs_=0)
    dr, dt = case['dr'], case['dt']
    if t > 0:
        true(df(r + dr, t) < x, '%s factor does not decrease in rate: '
             'f(%r)=%r, f(%r)=%r', what, r, x, r + dr, df(r + dr, t))
    if r > 0 and r * dt > 1e-9:
        true(df(r, t + dt) < x, '%s factor does not decrease in maturity',
             what)
    # before the start it accumulates
    if case['conv'] != 'simple':
        close(df(r, -t) * x, 1.0, what + ' factor times accumulation',
              rel=1e-11)


cases = st.fixed_dictionaries({
    'conv': st.sampled_from(['simple', 'continuous', 'periodic', 'periodic',
                             'named', 'named']),
    'm': st.sampled_from([1, 2, 4, 12, 365]),
    'r': st.one_of(gen.real(-0.2, 0.5), gen.real(-0.05, 0.15),
                   st.just(0.0), st.sampled_from([-0.01, 0.01, 0.05]),
                   st.sampled_from([0, 1])),
    't': st.one_of(gen.dec(0.0, 50.0, 0.01), st.integers(0, 50),
                   st.floats(0.001, 50.0)),
    'df': st.floats(-0.2, 0.5),
    'dr': gen.dec(0.0001, 0.2, 0.0001), 'dt': gen.dec(0.01, 20, 0.01)})
cases = st.builds(lambda c, m, p: dict(c, m=m if c['conv'] == 'periodic' and p
                                       else c['m']),
                  cases, st.integers(1, 365), st.booleans())


def check_order(case, rec):
    r, t, m, k = case['r'], case['t'], case['m'], case['k']
    rec.nt(r != 0)
    e = cp.continuous_compounding(r, t)
    p = cp.periodic_compounding(r, t, m)
    q = cp.periodic_compounding(r, t, m * k)
    eps = 1e-12 + 8e-16 * t * m * k
    true(p >= e * (1 - eps), 'periodic factor %r below continuous %r', p, e)
    true(e * (1 - eps) <= q <= p * (1 + eps),
         'more periods do not lead closer to continuous compounding: '
         '%r, %r, %r', p, q, e)
    if r >= 0 and t * m >= 1:
        s = cp.simple_compounding(r, t)
        true(p <= s * (1 + eps), 'periodic factor %r above simple %r', p, s)
    n = int(t * m) or 1
    w = 1.0
    for _ in range(min(n, 700)):
        w *= cp.simple_compounding(r, 1.0 / m)
    if n <= 700:
        close(cp.periodic_compounding(r, n / m, m), w,
              'periods of simple growth', rel=1e-10)
    big = cp.periodic_compounding(r, t, 10 ** 6)
    close(big, e, 'periodic factor of many periods', rel=1e-5 * max(1, r * r
                                                                   * t))


order_cases = st.fixed_dictionaries({
    'r': gen.real(-0.2, 0.5), 't': gen.dec(0.01, 50.0, 0.01),
    'm': st.integers(1, 365), 'k': st.integers(2, 30)})

FACETS = [
    Facet('inverse', cases, check, 8000, rule='rate and maturity not zero'),
    Facet('order', order_cases, check_order, 2000, rule='rate not zero'),
]

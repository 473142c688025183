"""P14 payment plans"""
from hypothesis import strategies as st

from dcf import plans
from vlib.core import Facet, close, same, true, untouched
from vlib import gen

ASSUMPTIONS = ['plans are plain lists of numbers, number of payments at '
               'least 1']
nums = st.one_of(st.integers(1, 12), st.integers(1, 120),
                 st.integers(1, 120), st.integers(121, 600))
amounts = st.one_of(
    st.sampled_from([1.0, 100.0, 1e6, 1e-6, 0.0, -250.0, 7, -3, 1000000]),
    gen.dec(-1000, 1000, 0.01), st.integers(-10**9, 10**9),
    st.floats(1e-6, 1e12), st.floats(-1e12, -1e-6))
rates = st.one_of(gen.dec(-0.05, 0.3, 1e-4), gen.dec(-0.05, 0.3, 1e-2),
                  st.just(0.0), st.just(0),
                  st.floats(-0.05, 0.3, allow_subnormal=False),
                  st.floats(-1e-8, 1e-8, allow_subnormal=False))

plan_cases = st.fixed_dictionaries({
    'plan': st.sampled_from(['same', 'bullet', 'amortize', 'annuity',
                             'annuity', 'consumer', 'consumer']),
    'n': nums, 'amount': amounts, 'rate': rates,
    'default': st.sampled_from(['none', 'none', 'none', 'amount', 'rate'])})


def make(case):
    n, a, r = case['n'], case['amount'], case['rate']
    f = getattr(plans, case['plan'])
    d = case['default']
    if d == 'amount':
        return f(n), n, 1.0, 0.01
    if case['plan'] in ('annuity', 'consumer'):
        if d == 'rate':
            return f(n, a), n, a, 0.01
        return f(n, a, r), n, a, r
    return f(n, a), n, a, None


def check(case, rec):
    plan, n, a, r = make(case)
    name = case['plan']
    rec.label(name)
    rec.nt(n > 1 and a != 0)
    same(len(plan), n, 'number of payments')
    total = {'same': n * a, 'consumer': a + n * a * (r or 0.0)}.get(name, a)
    scale = max(abs(a), max(map(abs, plan)))
    close(sum(plan), total, 'sum of payments', rel=1e-9,
          scale=scale * (n if name == 'same' else 1))
    for i, x in enumerate(plan):
        w = 'payment %d of %d' % (i + 1, n)
        if name == 'same':
            close(x, a, w)
        elif name == 'bullet':
            close(x, a if i == n - 1 else 0.0, w, rel=1e-12)
        elif name == 'amortize':
            close(x, a / n, w, rel=1e-12)
        elif name == 'consumer':
            close(x, total / n, w, rel=1e-12)
    if name == 'annuity':
        # independent recursion: constant payment c, redemption by rest
        rest = a
        c = plan[0] + a * r
        for i, x in enumerate(plan):
            close(x + rest * r, c, 'redemption plus interest %d' % (i + 1),
                  rel=1e-9, scale=scale)
            rest -= x
        close(rest, 0.0, 'rest', abs_=1e-9 * scale)
    out = untouched(plans.outstanding, plan, a)
    same(len(out), n, 'number of outstanding amounts')
    rest = a
    for i, x in enumerate(out):
        close(x, rest, 'outstanding %d' % (i + 1), rel=1e-11,
              scale=scale * n)
        rest -= plan[i]
    if name in ('bullet', 'amortize', 'annuity'):
        close(out[-1], plan[-1], 'outstanding before last payment', rel=1e-9,
              scale=scale)
        if name == 'annuity' and r:
            c = plan[0] + a * r
            for o, x in zip(out, plan):
                close(o * r + x, c, 'interest on outstanding plus redemption',
                      rel=1e-9, scale=scale)


out_cases = st.fixed_dictionaries({
    'plan': st.one_of(st.lists(amounts, min_size=1, max_size=20),
                      st.lists(amounts, min_size=20, max_size=60)), 'amount': amounts,
    'sign': st.sampled_from([None, False, True, 0, 1]),
    'tuple': st.booleans(), 'default': st.booleans()})


def check_outstanding(case, rec):
    plan = tuple(case['plan']) if case['tuple'] else list(case['plan'])
    before = list(plan)
    kw = {} if case['sign'] is None else {'sign': case['sign']}
    a = 1.0 if case['default'] else case['amount']
    if case['default']:
        out = untouched(plans.outstanding, plan, **kw)
    else:
        out = untouched(plans.outstanding, plan, a, **kw)
    same(list(plan), before, 'plan')
    same(len(out), len(plan), 'number of outstanding amounts')
    s = 1 if case['sign'] else -1
    rec.nt(len(plan) > 1)
    rec.label('plus' if s == 1 else 'minus')
    scale = abs(a) + sum(map(abs, plan))
    for i, x in enumerate(out):
        close(x, a + s * sum(plan[:i]), 'outstanding %d' % i, rel=1e-12,
              scale=scale)
    # additive over splitting the plan
    if len(plan) > 2:
        k = len(plan) // 2
        again = plans.outstanding(plan[k:], out[k], **kw)
        for x, y in zip(again, out[k:]):
            close(x, y, 'outstanding of rest', rel=1e-12, scale=scale)


FACETS = [
    Facet('plans', plan_cases, check, 8000,
          rule='more than one payment of a non-zero amount'),
    Facet('outstanding', out_cases, check_outstanding, 4000,
          rule='more than one payment'),
]

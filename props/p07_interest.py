"""P07 interest rate curves: rates and discount factors of a period agree"""
from math import exp

from hypothesis import strategies as st

from vlib.core import Facet, close, close2, same, true, raises, untouched, Undefined
from vlib import gen, oracle, build

ASSUMPTIONS = [
    'short rate curves over several steps with BusinessDates only, as the '
    'elementary step of the curve is the string 1D',
    'additive day counts (default, act/365, act/360)']


# ---- reference discount factors ---------------------------------------------

def step_integral(spec, s, e):
    """integral of the short rate from s to e (integers)"""
    knots = sorted({s, e} | {x for x in spec['xs'] if s < x < e})
    if spec['ip']:
        # piecewise linear
        return sum((build.stored(spec, a) + build.stored(spec, b)) / 2
                   * build.tau(spec, a, b)
                   for a, b in zip(knots[:-1], knots[1:]))
    return sum(build.stored(spec, a) * build.tau(spec, a, b)
               for a, b in zip(knots[:-1], knots[1:]))


def slack(spec, s, e):
    """short rates which are not constant are taken day by day"""
    if not spec['ip'] or spec['cls'] not in ('ShortRateCurve',
                                             'HazardRateCurve'):
        return 0.0
    knots = sorted({s, e} | {x for x in spec['xs'] if s < x < e})
    ys = [build.stored(spec, n) for n in knots]
    return sum(abs(a - b) for a, b in zip(ys[:-1], ys[1:])) / 360


def ref_df(spec, s, e, c=None):
    """reference discount factor from integers s to e"""
    cls = spec['cls']
    if s == e:
        return 1.0
    if cls == 'DiscountFactorCurve':
        o = build.origin_of(spec)
        a = 1.0 if s == o else build.stored(spec, s)
        return build.stored(spec, e) / a
    if cls == 'ZeroRateCurve':
        a = build.stored(spec, s) * build.tau(spec, s)
        b = build.stored(spec, e) * build.tau(spec, e)
        return exp(a - b)
    if cls == 'ShortRateCurve':
        return exp(-step_integral(spec, s, e))
    raise KeyError(cls)


@st.composite
def cases(draw):
    spec = draw(build.rate_specs(build.IR, origins='mixed',
                                 ips=st.sampled_from([None, None, None,
                                                      'own'])))
    cls, kind = spec['cls'], spec['kind']
    if cls == 'DiscountFactorCurve' and build.origin_of(spec) in spec['xs']:
        # discount factor at origin is one
        i = spec['xs'].index(build.origin_of(spec))
        spec['ys'][i] = 1.0
        if len(spec['xs']) == 1:
            spec['origin'] = spec['xs'][0] - build.step_of(kind)
    if spec['ip'] == 'own':
        spec['ip'] = draw(st.sampled_from({
            'DiscountFactorCurve': ['log_linear_scheme', 'linear_scheme'],
            'ZeroRateCurve': ['constant', 'right', 'linear'],
            'ShortRateCurve': ['linear_scheme'],
            'CashRateCurve': ['constant', 'right']}[cls]))
        if cls == 'DiscountFactorCurve' and build.origin_of(spec) not in \
                spec['xs']:
            spec['xs'] = spec['xs'] + [build.origin_of(spec)]
            spec['ys'] = spec['ys'] + [1.0]
    span = build.span_of(kind)
    lim = {'bd': 800, 'float': 200, 'int': 5}.get(kind, 800)
    xs = spec['xs']
    anchor = draw(st.sampled_from(xs + [build.origin_of(spec)]))
    near = st.integers(anchor - lim, anchor + lim)
    wide = st.integers(min(xs) - span // 4, max(xs) + span // 4)
    if cls == 'ShortRateCurve':
        near = st.integers(anchor - lim // 4, anchor + lim // 4)
    if cls in ('ShortRateCurve', 'CashRateCurve'):
        wide = near
    pick = st.one_of(st.sampled_from(xs), st.just(build.origin_of(spec)),
                     wide, near, wide, near)
    return dict(spec, dates=draw(st.lists(pick, min_size=3,
                                                max_size=3, unique=True)),
                steps=draw(st.integers(1, 6)),
                sched=draw(st.lists(st.integers(1, max(1, lim // 4)),
                                    min_size=1, max_size=6)))


def longest(spec):
    """longest period (in integers), as some curves go step by step"""
    days = {'ShortRateCurve': 420, 'CashRateCurve': 1700}.get(
        spec['cls'], 10 ** 6)
    return days * build.step_of(spec['kind']) / 91


def check(case, rec):
    c = gen.clock(case)
    cls = case['cls']
    f = build.build(case)
    a, b, d = sorted(case['dates'])
    rec.label(cls, case['kind'], 'ip=%s' % case['ip'])
    o = build.origin_of(case)
    if a < o:
        rec.label('before-origin')
    if d > max(case['xs']):
        rec.label('beyond-last')
    rec.nt(a < b < d and len(case['xs']) > 1)

    # the stored quantity at the points
    tenor = case['tenor'] is not None or case['kind'] == 'bd'
    for n, y in zip(case['xs'], case['ys']):
        x = c(n)
        if cls == 'DiscountFactorCurve':
            got = f.get_discount_factor(x)
        elif cls == 'ZeroRateCurve':
            got = f.get_zero_rate(x) if n != o or case['ip'] is None else y
        elif cls == 'ShortRateCurve':
            got = f.get_short_rate(x)
        elif tenor:
            got = f.get_cash_rate(x)
        else:
            got = y
        close(got, y, '%s at its point %r' % (cls, x), rel=1e-8, abs_=1e-9)

    # empty periods
    for n in (a, o):
        close(f.get_discount_factor(c(n), c(n)), 1.0,
              'discount factor of empty period', rel=1e-12)

    long_short = cls == 'ShortRateCurve' and case['kind'] != 'bd'
    if long_short or (cls == 'CashRateCurve' and not tenor):
        return
    ordered = cls in ('ShortRateCurve', 'CashRateCurve')
    periods = [(a, b), (b, d), (a, d), (o, b)]
    if not ordered:
        periods += [(d, a), (b, a), (b, o)]
    for s, e in periods:
        if s == e or (ordered and s > e):
            continue
        if ordered and e - s > longest(case):
            continue
        x, y = c(s), c(e)
        w = '(%r, %r)' % (x, y)
        t = build.tau(case, s, e)
        df = f.get_discount_factor(x, y)
        true(df > 0, 'discount factor %s is %r', w, df)
        z = f.get_zero_rate(x, y)
        close(df, exp(-z * t), 'exp(-zero rate * t) ' + w, rel=1e-9)
        r = f.get_cash_rate(x, y)
        close(r, (1.0 / df - 1.0) / t, 'cash rate ' + w, rel=1e-7,
              abs_=1e-9 + 1e-15 / abs(t))
        if case['kind'] == 'bd' and e > s:
            step = '%dd' % (e - s)
            close2(f.get_cash_rate(x, step=step), r, 'cash rate by step ' + w)
            close2(f.get_cash_rate(x, y, step), r,
                   'cash rate by end and step ' + w)
            raises(AssertionError, lambda: f.get_cash_rate(
                x, y, '%dd' % (e - s + 1)), 'cash rate of end not at step')
        if cls != 'CashRateCurve':
            close(df, ref_df(case, s, e), 'discount factor ' + w,
                  rel=1e-8 + 2 * slack(case, s, e))
        if s == o:
            close2(f.get_discount_factor(y), df, 'discount factor of single '
                   'date %r' % y, rel=1e-12)
            close2(f.get_zero_rate(y), z, 'zero rate of single date %r' % y,
                   rel=1e-12)
    if tenor:
        # single date means one tenor period
        s = c(a)
        e = s + f.forward_tenor
        close(f.get_cash_rate(s), (1.0 / f.get_discount_factor(s, e) - 1)
              / f.day_count(s, e), 'cash rate of tenor period from %r' % s,
              rel=1e-7, abs_=1e-10)
        if case['tenor'] is not None:
            same(e, s + build.tenor(case['tenor'], c), 'end of tenor period')
        elif case['kind'] == 'bd':
            same(e, s + '3m', 'end of default tenor period')

    # chaining
    if cls == 'CashRateCurve':
        grid = [c(a)]
        for _ in range(case['steps']):
            grid.append(grid[-1] + f.forward_tenor)
        product = ref = 1.0
        for s, e in zip(grid[:-1], grid[1:]):
            product *= f.get_discount_factor(s, e)
            n, m = int(c.num(s)), int(c.num(e))
            ref /= 1.0 + build.stored(case, n) * build.tau(case, n, m)
            close(f.get_discount_factor(grid[0], e), product,
                  'chain of discount factors', rel=1e-9)
            close(f.get_discount_factor(grid[0], e), ref,
                  'product of cash rates', rel=1e-9)
        if len(grid) > 2:
            x, y, z = grid[0], grid[len(grid) // 2], grid[-1]
            close(f.get_discount_factor(x, y) * f.get_discount_factor(y, z),
                  f.get_discount_factor(x, z), 'chain of discount factors',
                  rel=1e-9)
    else:
        triples = [(a, b, d)]
        if not ordered:
            triples += [(b, a, d), (d, a, b), (a, o, d), (o, a, b)]
        for x, y, z in triples:
            if ordered and z - x > longest(case):
                continue
            p = f.get_discount_factor(c(x), c(y)) \
                * f.get_discount_factor(c(y), c(z))
            close(p, f.get_discount_factor(c(x), c(z)),
                  'chain of discount factors %r' % ((c(x), c(y), c(z)),),
                  rel=1e-8)

    # short rates
    s = sorted(case['xs'])
    if cls == 'ShortRateCurve':
        for n in (a, b, d):
            close(f.get_short_rate(c(n)), build.stored(case, n),
                  'short rate at %r' % c(n), rel=1e-9)
    else:
        for n in (a, b, d):
            for x, y in zip(s[:-1], s[1:]):
                if not x <= n < y:
                    continue
                if y - x > longest(case):
                    continue
                rec.label('short-rate-between')
                close2(f.get_short_rate(c(n)), f.get_zero_rate(c(x), c(y)),
                       'short rate at %r' % c(n), rel=1e-9)
        if case['kind'] == 'bd' and len(s) > 1 and s[-1] - s[-2] > 1:
            # last interval continues
            if s[-1] - s[-2] < longest(case):
                close2(f.get_short_rate(c(s[-1] + 5)),
                       f.get_zero_rate(c(s[-2]), c(s[-1])),
                       'short rate beyond last point', rel=1e-9)
        if len(s) > 1 and s[1] - s[0] < longest(case):
            close2(f.get_short_rate(c(s[0] - 3)),
                   f.get_zero_rate(c(s[0]), c(s[1])),
                   'short rate before first point', rel=1e-9)
    if len(s) == 1 and cls in ('ZeroRateCurve', 'ShortRateCurve'):
        close(f.get_short_rate(c(a)), case['ys'][0],
              'short rate of flat curve', rel=1e-9, abs_=1e-12)


def check_annuity(case, rec):
    c = gen.clock(case)
    f = build.build(case)
    o = build.origin_of(case)
    cls = case['cls']
    if cls in ('ShortRateCurve', 'CashRateCurve') and case['kind'] != 'bd':
        return
    sched = [min(case['dates'])]
    if sched[0] < o:
        rec.label('before-origin')
    if cls in ('ShortRateCurve', 'CashRateCurve'):
        sched = [o + (min(case['dates']) - o) % 900]
    for k in case['sched']:
        sched.append(sched[-1] + k)
    dates = [c(n) for n in sched]
    rec.label(cls, case['kind'])
    rec.nt(len(sched) > 2)
    want = sum(f.get_discount_factor(c(e)) * build.tau(case, s, e)
               for s, e in zip(sched[:-1], sched[1:]))
    close(untouched(f.get_swap_annuity, dates), want,
          'annuity of %r' % dates, rel=1e-9)
    close(f.get_swap_annuity(tuple(dates)), want, 'annuity', rel=1e-9)
    if cls != 'CashRateCurve' and not (
            cls == 'ShortRateCurve' and case['ip']):
        ref = sum(ref_df(case, o, e) * build.tau(case, s, e)
                  for s, e in zip(sched[:-1], sched[1:]))
        close(want, ref, 'annuity against reference', rel=1e-8)
    if len(dates) > 2:
        close(f.get_swap_annuity(dates[:2]) + f.get_swap_annuity(dates[1:]),
              want, 'annuity is additive', rel=1e-9)
    same(f.get_swap_annuity(dates[:1]), 0, 'annuity of no period')


FACETS = [
    Facet('agree', cases(), check, 5000,
          rule='three different dates and at least two points'),
    Facet('annuity', cases(), check_annuity, 1000,
          rule='at least two periods'),
]

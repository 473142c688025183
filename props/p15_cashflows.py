"""P15 fixed and rate cashflow lists, legs"""
from hypothesis import strategies as st

import dcf
from dcf.models import IntrinsicOptionPayOffModel
from vlib.core import Facet, close, close2, same, true, raises
from vlib import gen, build

ASSUMPTIONS = [
    'payment dates are distinct, those of rate cashflows increase',
    'a rate cashflow list of a single payment has an origin',
    'adding offsets to dates is left to the date objects']
amounts = gen.notionals


# ---- amounts -----------------------------------------------------------------

@st.composite
def fixed_cases(draw):
    kind = draw(gen.kinds)
    xs = draw(gen.axis(1, 8, -50, 400))
    one = draw(st.booleans())
    return {'kind': kind, 'base': draw(gen.bases), 'xs': xs,
            'ys': draw(amounts) if one else
            draw(st.lists(amounts, min_size=len(xs), max_size=len(xs))),
            'origin': draw(st.one_of(st.none(), st.integers(-60, 400))),
            'cls': draw(st.sampled_from(['CashFlowList', 'FixedCashFlowList',
                                         'payoffs', 'copy'])),
            'tuple': draw(st.booleans()),
            'other': draw(st.lists(st.integers(-60, 420), max_size=4)),
            'legs': draw(st.integers(1, 3)),
            'bad': draw(st.integers(1, 3))}


def make_fixed(case):
    c = gen.clock(case)
    seq = tuple if case['tuple'] else list
    ds = seq(c(n) for n in case['xs'])
    ys = case['ys'] if not isinstance(case['ys'], list) else seq(case['ys'])
    kw = {}
    if case['origin'] is not None:
        kw['origin'] = c(case['origin'])
    cls = case['cls']
    if cls == 'CashFlowList':
        return dcf.CashFlowList(ds, ys, **kw)
    if cls == 'FixedCashFlowList':
        return dcf.FixedCashFlowList(ds, ys, **kw)
    if cls == 'copy':
        return dcf.FixedCashFlowList(dcf.CashFlowList(ds, ys, **kw))
    one = not isinstance(case['ys'], list)
    return dcf.CashFlowList(ds, seq(dcf.FixedCashFlowPayOff(
        ys if one else ys[i]) for i in range(len(ds))), **kw)


def check_fixed(case, rec):
    c = gen.clock(case)
    f = make_fixed(case)
    xs, ys = case['xs'], case['ys']
    rec.label(case['cls'], case['kind'])
    rec.nt(len(xs) > 1 and isinstance(ys, list) and len(set(ys)) > 1)
    if not isinstance(ys, list):
        ys = [ys] * len(xs)
    pay = dict(zip(xs, ys))
    same(list(f.domain), [c(n) for n in xs], 'domain')
    o = case['origin'] if case['origin'] is not None else xs[0]
    same(f.origin, c(o), 'origin')
    for n in xs + case['other']:
        close(f[c(n)], pay.get(n, 0.0), 'cashflow at %r' % c(n), rel=0,
              abs_=0)
    every = [c(n) for n in xs + case['other']]
    same([float(x) for x in f[every]], [float(pay.get(n, 0.0))
                                        for n in xs + case['other']],
         'cashflows of a list of dates')
    same([float(x) for x in f[tuple(every)]],
         [float(x) for x in f[every]], 'cashflows of a tuple of dates')
    same([float(x) for x in f[f.domain]], [float(y) for y in ys],
         'cashflows of domain')
    g = f()
    same(list(g.domain), list(f.domain), 'domain of list called')
    same(g.origin, f.origin, 'origin of list called')
    same([float(g[d]) for d in g.domain], [float(y) for y in ys],
         'cashflows of list called')
    t = f.table
    same(tuple(t[0]), ('cashflow', 'pay date'), 'table header')
    same([(float(a), d) for a, d in t[1:]],
         [(float(y), c(n)) for n, y in zip(xs, ys)], 'table rows')
    # different number of dates and amounts
    raises(ValueError, lambda: dcf.CashFlowList(
        every[:len(xs)], list(ys) + [1.0] * case['bad']),
        'more amounts than dates')
    if len(xs) > 1:
        raises(ValueError, lambda: dcf.FixedCashFlowList(
            every[:len(xs)], list(ys)[:-1]), 'more dates than amounts')
    # legs
    k = case['legs']
    parts = [dcf.FixedCashFlowList([c(n) for n in xs[i::k]], ys[i::k],
                                   origin=c(min(xs) - i))
             for i in range(k) if xs[i::k]] + [f]
    check_legs(c, parts, [c(n) for n in xs + case['other']])
    # terms of one payment
    if case['cls'] != 'CashFlowList':
        k = case['bad'] % len(xs)
        f.payoff(c(xs[k])).amount += 1
        for i, (n, y) in enumerate(zip(xs, ys)):
            close(f[c(n)], y + (i == k), 'cashflow at %r after changing that '
                  'at %r' % (c(n), c(xs[k])), rel=0, abs_=0)
            close(g[c(n)], y, 'cashflow at %r of list called before' % c(n),
                  rel=0, abs_=0)


def check_legs(c, parts, dates):
    given = list(parts)
    legs = dcf.CashFlowLegList(given)
    build.scrap(given)
    same(len(legs.legs), len(parts), 'number of legs')
    for a, b in zip(legs.legs, parts):
        true(a is b, 'legs are those given')
    every = set()
    for p in parts:
        every.update(p.domain)
    same(list(legs.domain), sorted(every), 'domain of legs')
    same(legs.origin, min(p.origin for p in parts), 'origin of legs')
    want = {}
    for d in list(every) + list(dates):
        want[d] = sum(float(p[d]) for p in parts)
        scale = sum(abs(float(p[d])) for p in parts)
        close(legs[d], want[d], 'sum of legs at %r' % d, rel=1e-12,
              scale=scale)
    ds = sorted(want)
    for a, d in zip(legs[ds], ds):
        close(a, want[d], 'sum of legs at %r' % d, rel=1e-12,
              abs_=1e-9)
    nested = dcf.CashFlowLegList(iter([parts[-1], legs]))
    same(list(nested.domain), list(legs.domain), 'domain of nested legs')
    for d in nested.domain:
        close(nested[d], want[d] + float(parts[-1][d]), 'nested legs at %r'
              % d, rel=1e-12, abs_=1e-9)
    g = legs()
    same(list(g.domain), list(legs.domain), 'domain of legs called')
    same(g.origin, legs.origin, 'origin of legs called')
    for d in g.domain:
        close(g[d], want[d], 'legs called at %r' % d, rel=1e-12, abs_=1e-9)
    t = legs.table
    i, j = t[0].index('cashflow'), t[0].index('pay date')
    same([r[j] for r in t[1:]], list(legs.domain), 'pay dates of legs table')
    for r in t[1:]:
        close(r[i], want[r[j]], 'legs table at %r' % r[j], rel=1e-12,
              abs_=1e-9)
    return legs


# ---- rates -------------------------------------------------------------------

def curve_specs(kind, base):
    return build.discount_specs(kind, base, max_size=3)


@st.composite
def rate_cases(draw, kind=None, base=None):
    kind, base = kind or draw(gen.kinds), base or draw(gen.bases)
    xs = draw(gen.schedules(kind, lo=draw(st.integers(0, 50))))
    unit = build.step_of(kind)
    origin = xs[0] - draw(st.integers(1, 4 * unit))
    if len(xs) > 1 and draw(st.booleans()):
        origin = None
    elif draw(st.integers(0, 9)) == 0:
        xs = [x - origin for x in xs]
        origin = 0
    plan = draw(st.booleans())
    fwd = draw(st.sampled_from(['none', 'number', 'function', 'curve',
                                'curve']))
    spec = None
    if fwd == 'number':
        spec = draw(st.one_of(gen.rates, st.integers(0, 1)))
    elif fwd == 'function':
        spec = draw(st.integers(1, 60))
    elif fwd == 'curve':
        spec = draw(curve_specs(kind, base))
    return {'kind': kind, 'base': base, 'xs': xs, 'origin': origin,
            'ys': [draw(amounts) for _ in xs] if plan else draw(amounts),
            'dc': draw(gen.day_counts(additive=kind in ('float', 'int'))),
            'fix': draw(gen.offsets(kind)), 'pay': draw(gen.offsets(kind)),
            'rate': draw(st.one_of(gen.rates, gen.rates, st.just(0))),
            'how': fwd, 'fwd': spec, 'tuple': draw(st.booleans())}


def forward(case, c):
    """forward estimator and the rate it gives at a date"""
    how, x = case['how'], case['fwd']
    if how == 'none':
        return None, None
    if how == 'number':
        return x, lambda d: float(x)
    if how == 'function':
        def fn(d):
            return (c.num(d) % x) / 1000.0 - 0.01
        return fn, fn
    f = build.build(x)
    return f, f.get_cash_rate


def make_rates(case, **extra):
    c = gen.clock(case)
    seq = tuple if case['tuple'] else list
    kw = {'day_count': gen.day_count(case['dc']),
          'fixing_offset': gen.offset(c, case['fix']),
          'pay_offset': gen.offset(c, case['pay']),
          'fixed_rate': case['rate']}
    if case['origin'] is not None:
        kw['origin'] = c(case['origin'])
    kw['forward_curve'] = forward(case, c)[0]
    kw.update(extra)
    kw = {k: v for k, v in kw.items() if v is not None}
    ys = case['ys'] if not isinstance(case['ys'], list) else seq(case['ys'])
    ds = seq(c(n) for n in case['xs'])
    cfs = dcf.RateCashFlowList(ds, ys, **kw)
    build.scrap(ds)
    build.scrap(ys if ys is not case['ys'] else None)
    return cfs


def periods(case):
    """pay date, notional, start, end, year fraction, fixing date"""
    c = gen.clock(case)
    ds = [c(n) for n in case['xs']]
    pay, fix = gen.offset(c, case['pay']), gen.offset(c, case['fix'])
    ys = case['ys']
    if not isinstance(ys, list):
        ys = [ys] * len(ds)
    out = []
    for i, d in enumerate(ds):
        if i:
            s = ds[i - 1]
        elif case['origin'] is None:
            s = ds[0] - (ds[1] - ds[0])
        else:
            s = c(case['origin'])
        e = d
        if pay is not None:
            e = e - pay
            if i or case['origin'] is None:
                s = s - pay
        fd = s if fix is None else s - fix
        out.append((d, ys[i], s, e, gen.frac(case['dc'], c, s, e), fd))
    return out


def check_rates(case, rec):
    c = gen.clock(case)
    f = make_rates(case)
    ps = periods(case)
    _, fwd = forward(case, c)
    rec.label(case['kind'], case['how'], 'dc=%s' % case['dc'],
              *[k for k in ('pay', 'fix') if case[k] is not None])
    rec.nt(len(ps) > 1 and (case['how'] != 'none' or case['rate'] != 0))
    verify(case, f, ps, case['rate'], fwd, 'constructed')

    # dates without payment
    for n in (case['xs'][0] - 1, case['xs'][-1] + 1, case['xs'][-1] + 77):
        if n not in case['xs']:
            same(float(f[c(n)]), 0.0, 'cashflow at other date')

    # table
    t = f.table
    h = t[0]
    col = {k: i for i, k in enumerate(h)}
    same(len(t), len(ps) + 1, 'rows of table')
    for row, (d, n, s, e, yf, fd) in zip(t[1:], ps):
        same(len(row), len(h), 'length of row')
        same(row[col['pay date']], d, 'pay date in table')
        close(row[col['cashflow']], f[d], 'cashflow in table', rel=1e-12)
        same(row[col['notional']], n, 'notional in table')
        same(row[col['start date']], s, 'start date in table')
        same(row[col['end date']], e, 'end date in table')
        close(row[col['year fraction']], yf, 'year fraction in table')
        same(row[col['fixed rate']], case['rate'], 'fixed rate in table')
        if fwd and case['fwd']:
            close(row[col['forward rate']], fwd(fd), 'forward rate in table')
            same(row[col['fixing date']], fd, 'fixing date in table')

    # called
    g = f()
    same(list(g.domain), [p[0] for p in ps], 'domain of list called')
    same(g.origin, f.origin, 'origin of list called')
    for d in g.domain:
        close(g[d], f[d], 'list called at %r' % d, rel=1e-12)

    # payoffs
    ds = [p[0] for p in ps]
    for seq in (list, tuple):
        same(list(f.payoff(seq(ds))), [f.payoff(d) for d in ds],
             'payoffs of many dates')
    for d, n, s, e, yf, fd in ps:
        p = f.payoff(d)
        same((p.start, p.end, p.amount, p.fixed_rate),
             (s, e, n, case['rate']), 'terms of payoff')
    same(f.payoff(c(case['xs'][-1] + 77)), None, 'payoff of other date')
    # as fixed cashflows
    for k in (None, case['origin'], 0, case['xs'][0] - 1):
        kw = {} if k is None else {'origin': c(k)}
        g = dcf.FixedCashFlowList(f, **kw)
        same(list(g.domain), ds, 'domain of fixed cashflows')
        same(g.origin, f.origin if k is None else c(k),
             'origin of fixed cashflows')
        same([float(g[d]) for d in ds], [float(f[d]) for d in ds],
             'fixed cashflows')

    # setting fixed rate and forward curve afterwards
    same(f.fixed_rate, case['rate'], 'fixed rate')
    for r in (0.0125, case['rate']):
        f.fixed_rate = r
        same(f.fixed_rate, r, 'fixed rate')
        verify(case, f, ps, r, fwd, 'fixed rate set')
    est = forward(case, c)[0]
    g = make_rates(dict(case, how='none'), fixed_rate=None)
    verify(case, g, ps, 0.0, None, 'no fixed rate')
    g.forward_curve = est
    g.fixed_rate = case['rate']
    verify(case, g, ps, case['rate'], fwd, 'forward curve set')
    f.forward_curve = None
    verify(case, f, ps, case['rate'], None, 'forward curve removed')
    if est is not None:
        # called with another forward curve resp. model
        f.forward_curve = 0.07
        m = IntrinsicOptionPayOffModel(c(0), forward_curve=est)
        for arg in (est, m):
            g = f(arg)
            verify(case, g, ps, case['rate'], fwd, 'called with estimator')
    # terms of one payment
    f.forward_curve = est
    k = case['xs'][-1] % len(ps)
    d, n, _, _, yf, fd = ps[k]
    old = [f[x] for x in ds]
    f.payoff(d).fixed_rate += 0.5
    close(f[d], old[k] + 0.5 * n * yf, 'cashflow with own fixed rate',
          rel=1e-12, scale=abs(n) * yf)
    if len(ps) > 1:
        same(f.fixed_rate, None, 'fixed rate of different payments')
    for i, x in enumerate(ds):
        if i != k:
            same(f[x], old[i], 'cashflow at %r after changing that at %r'
                 % (x, d))


def verify(case, f, ps, rate, fwd, w):
    same(list(f.domain), [p[0] for p in ps], 'domain')
    o = gen.clock(case)(case['origin'])
    same(f.origin, ps[0][0] if o is None else o, 'origin')
    for d, n, s, e, yf, fd in ps:
        r = rate + (fwd(fd) if fwd else 0.0)
        close(f[d], n * yf * r, '%s: cashflow at %r' % (w, d), rel=1e-10,
              scale=abs(n * yf) * (abs(rate) + abs(r)))


# ---- legs --------------------------------------------------------------------

@st.composite
def leg_cases(draw):
    kind, base = draw(gen.kinds), draw(gen.bases)
    legs = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.booleans()):
            legs.append(draw(rate_cases(kind, base)))
        else:
            xs = draw(gen.schedules(kind))
            legs.append({'cls': 'FixedCashFlowList', 'kind': kind,
                         'base': base, 'xs': xs,
                         'ys': [draw(amounts) for _ in xs],
                         'origin': draw(st.one_of(st.none(), st.integers(
                             -10, 100))), 'tuple': draw(st.booleans())})
        if len(legs) > 1 and draw(st.booleans()):
            # pay dates in common
            a, b = legs[-2:]
            b['xs'] = (a['xs'] * 2)[:len(b['xs'])] if \
                len(b['xs']) <= len(a['xs']) else b['xs']
    return {'kind': kind, 'base': base, 'legs': legs,
            'nest': draw(st.integers(0, 3)), 'est': draw(gen.rates),
            'other': draw(st.lists(st.integers(-60, 500), max_size=3))}


def check_leglist(case, rec):
    c = gen.clock(case)
    parts = [make_fixed(x) if 'cls' in x else make_rates(x)
             for x in case['legs']]
    rec.label('legs=%d' % len(parts))
    ds = set()
    for p in parts:
        rec.nt(bool(ds & set(p.domain)))
        ds.update(p.domain)
    other = [c(n) for n in case['other']]
    legs = check_legs(c, parts, other)
    k = case['nest']
    if 0 < k <= len(parts):
        rec.label('nested')
        check_legs(c, [dcf.CashFlowLegList(parts[:k])] + parts[k:], other)
    if case['est']:
        g = legs(case['est'])
        want = [p(case['est']) for p in parts]
        for d in legs.domain:
            close(g[d], sum(float(p[d]) for p in want),
                  'legs called with estimator at %r' % d, rel=1e-12,
                  abs_=1e-9)
    raises(ValueError, lambda: dcf.CashFlowLegList(parts + [1.0]),
           'leg which is no cashflow list')



# ---- no payments -------------------------------------------------------------

EMPTY = ['CashFlowList', 'FixedCashFlowList', 'RateCashFlowList',
         'ContingentCashFlowList', 'OptionCashflowList',
         'OptionStrategyCashflowList', 'ContingentRateCashFlowList']


@st.composite
def empty_cases(draw):
    return {'kind': draw(gen.kinds), 'base': draw(gen.bases),
            'cls': draw(st.sampled_from(EMPTY)), 'amount': draw(st.one_of(
                st.none(), amounts)), 'tuple': draw(st.booleans()),
            'origin': draw(st.one_of(st.none(), st.integers(-60, 400))),
            'rate': draw(gen.rates), 'dates': draw(st.lists(
                st.integers(-60, 400), min_size=1, max_size=4)),
            'leg': draw(amounts)}


def check_empty(case, rec):
    """a list without payments pays nothing"""
    c = gen.clock(case)
    cls = case['cls']
    rec.label(cls)
    rec.nt(case['origin'] is not None)
    kw = {}
    if case['origin'] is not None:
        kw['origin'] = c(case['origin'])
    if 'Rate' in cls:
        kw['fixed_rate'] = case['rate']
    args = [() if case['tuple'] else []]
    if cls in ('CashFlowList', 'FixedCashFlowList', 'RateCashFlowList',
               'ContingentRateCashFlowList') and case['amount'] is not None:
        args.append(case['amount'])
    elif cls == 'ContingentCashFlowList' and case['amount'] is not None:
        args.append([])
    f = getattr(dcf, cls)(*args, **kw)
    same(tuple(f.domain), (), 'domain')
    same(f.origin, kw.get('origin'), 'origin')
    ds = [c(n) for n in case['dates']]
    same([float(f[d]) for d in ds], [0.0] * len(ds), 'cashflows')
    same([float(x) for x in f[ds]], [0.0] * len(ds), 'cashflows')
    same(list(f.table[1:]), [], 'table')
    same(tuple(f().domain), (), 'domain of list called')
    curve = dcf.ZeroRateCurve([c(0)], [0.02])
    same(float(dcf.get_present_value(f, curve, c(0))), 0.0, 'present value')
    same(float(dcf.get_interest_accrued(f, ds[0])), 0.0, 'accrued interest')
    if 'origin' in kw:
        g = dcf.FixedCashFlowList(sorted(set(ds)), case['leg'])
        legs = dcf.CashFlowLegList([f, g])
        same(list(legs.domain), list(g.domain), 'domain of legs')
        same([float(legs[d]) for d in g.domain],
             [float(g[d]) for d in g.domain], 'cashflows of legs')
        same(legs.origin, min(f.origin, g.origin), 'origin of legs')


FACETS = [
    Facet('fixed', fixed_cases(), check_fixed, 3000,
          rule='payments of different amounts'),
    Facet('rates', rate_cases(), check_rates, 3000,
          rule='more than one payment with a fixed or forward rate'),
    Facet('legs', leg_cases(), check_leglist, 1500,
          rule='two legs with a common payment date'),
    Facet('empty', empty_cases(), check_empty, 300,
          rule='a list with origin'),
]

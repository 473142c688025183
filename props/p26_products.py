"""P26 bonds and swaps"""
import calendar
import datetime

import businessdate as bd
from businessdate import daycount as bdc
from hypothesis import strategies as st

import dcf
from vlib.core import Facet, close, same, true, raises
from vlib import gen, build

ASSUMPTIONS = [
    'periods are at least one month, thus adjusted dates do not coincide',
    'schedules of which the first date is adjusted back to or before the '
    'start are skipped',
    'the day count names mean those of the businessdate package, and apply '
    'to dates only']
MONTHS = {'1m': 1, '3m': 3, '6m': 6, '1y': 12, '2y': 24, '4m': 4, '18m': 18}
NAMED = {'thirty360': bdc.get_30_360, 'actact': bdc.get_act_act,
         'act_360': bdc.get_act_360}


# ---- dates from scratch ------------------------------------------------------

def add_months(d, n):
    y, m = divmod(d.year * 12 + d.month - 1 + n, 12)
    return datetime.date(y, m + 1, min(d.day, calendar.monthrange(
        y, m + 1)[1]))


def easter(y):
    a, b, c = y % 19, y // 100, y % 100
    d, e = divmod(b, 4)
    g = (8 * b + 13) // 25
    h = (19 * a + b - d - g + 15) % 30
    i, k = divmod(c, 4)
    el = (32 + 2 * e + 2 * i - h - k) % 7
    m = (a + 11 * h + 19 * el) // 433
    n = (h + el - 7 * m + 90) // 25
    return datetime.date(y, n, (h + el - 7 * m + 33 * n + 19) % 32)


def is_target(d):
    e = easter(d.year)
    return (d.month, d.day) in ((1, 1), (5, 1), (12, 25), (12, 26)) or \
        (d - e).days in (-2, 1)


def adjust(d, convention, off):
    one = datetime.timedelta(1)

    def go(x, step):
        while x.weekday() > 4 or off(x):
            x += step
        return x
    name = convention.lower()
    if name == 'no':
        return d
    if name == 'follow':
        return go(d, one)
    if name == 'previous':
        return go(d, -one)
    if name == 'mod_follow':
        x = go(d, one)
        return x if x.month == d.month else go(d, -one)
    x = go(d, -one)
    return x if x.month == d.month else go(d, one)


def schedule(c, start, end, period, convention, off):
    """payment dates as objects of clock c, and unadjusted end"""
    if c.kind != 'bd':
        out, k = [], 0
        e, p, s = c(end), c.offset(period), c(start)
        while e - p * k > s:
            out.append(e - p * k)
            k += 1
        return out[::-1], e
    s = c(start).to_date()
    e = add_months(s, int(end[:-1]) * (12 if end[-1] == 'y' else 1)) \
        if isinstance(end, str) else c(end).to_date()
    out, k = [], 0
    while add_months(e, -MONTHS[period] * k) > s:
        out.append(add_months(e, -MONTHS[period] * k))
        k += 1
    return [bd.BusinessDate(adjust(d, convention, off))
            for d in out[::-1]], bd.BusinessDate(e)


# ---- cases -------------------------------------------------------------------

def periods(kind):
    if kind == 'bd':
        return st.sampled_from(sorted(MONTHS))
    if kind == 'int':
        return st.integers(1, 4)
    if kind == 'float':
        return st.sampled_from([16, 32, 64, 96, 128, 5])
    return st.sampled_from([30, 91, 182, 365, 100, 730])


@st.composite
def legs(draw, kind, base):
    how = draw(st.sampled_from(['none', 'none', 'number', 'function',
                                'curve']))
    fwd = None
    if how == 'number':
        fwd = draw(gen.rates)
    elif how == 'function':
        fwd = draw(st.integers(1, 60))
    elif how == 'curve':
        fwd = draw(build.discount_specs(kind, base, short=False,
                                        max_size=3))
    return {'rate': draw(st.one_of(st.none(), gen.rates)), 'how': how,
            'fwd': fwd, 'period': draw(periods(kind)),
            'dc': draw(st.sampled_from(['default', 'default', None, 'act365',
                                        'act360', 'named']))}


@st.composite
def cases(draw):
    kind, base = draw(st.one_of(st.just('bd'), gen.kinds)), draw(gen.bases)
    start = draw(st.integers(0, {'int': 5, 'float': 200}.get(kind, 2000)))
    unit = {'int': 1, 'float': 64}.get(kind, 365)
    if draw(st.booleans()):
        length = draw(st.integers(1, 15)) * unit
    else:
        length = draw(st.integers(1, 15 * unit))
    end = start + length
    if kind == 'bd' and draw(st.booleans()):
        end = '%d%s' % ((draw(st.integers(1, 15)), 'y') if draw(
            st.booleans()) else (draw(st.integers(1, 100)), 'm'))
    leg, rec = draw(legs(kind, base)), draw(legs(kind, base))
    bare = kind == 'float' and draw(st.booleans())
    if bare:
        # default dates and periods
        start, end, leg['period'], rec['period'] = 0, 640, 64, 16
    elif kind == 'float' and draw(st.integers(0, 3)) == 0:
        # any (decimal) fraction of a year as period, starting at zero, since
        # end minus all periods is zero then
        p = draw(st.one_of(st.integers(1, 40).map(lambda i: i / 20),
                           st.integers(1, 24).map(lambda i: i / 12)))
        k = draw(st.integers(1, 40))
        start, leg['period'] = 0, p * 64
        end = p * k * 64
        rec['period'] = draw(st.sampled_from([1, 2, 4])) * p * 64
        if rec['period'] / leg['period'] > 1 and k % 4:
            rec['period'] = p * 64
    what = draw(st.sampled_from(['bond', 'plan', 'swap', 'swap']))
    return {'kind': kind, 'base': base, 'start': start, 'end': end,
            'endhow': draw(st.sampled_from(['own', 'date', 'period'])),
            'periodhow': draw(st.booleans()), 'what': what,
            'conv': draw(st.sampled_from([
                None, 'no', 'follow', 'previous', 'mod_follow',
                'mod_previous', 'MOD_FOLLOW'])),
            'hol': draw(st.one_of(
                st.sampled_from(['none', 'none', 'target', 'targetobj']),
                st.lists(st.integers(0, 8000), max_size=40))),
            'n': draw(st.one_of(st.none(), gen.notionals)),
            'plan': draw(st.lists(gen.notionals, min_size=8, max_size=8)),
            'leg': leg, 'rec': rec, 'bare': bare,
            'pay': draw(gen.offsets(kind)), 'fix': draw(gen.offsets(kind)),
            'tuple': draw(st.booleans())}


def forward(leg, c):
    how, x = leg['how'], leg['fwd']
    if how == 'none':
        return None, lambda d: 0.0
    if how == 'number':
        return x, lambda d: x
    if how == 'function':
        def fn(d):
            return (c.num(d) % x) / 1000.0 - 0.01
        return fn, fn
    f = build.build(x)
    return f, f.get_cash_rate


def day_count(leg, default, c):
    """argument (if any) and function"""
    dc = leg['dc']
    if dc is None:
        return {'day_count': None}, c.frac
    if dc in ('default', 'named'):
        name = default if dc == 'default' else 'act_360'
        f = NAMED[name]
        if c.kind in ('int', 'float'):
            f = c.frac
        g = f
        if c.kind in ('date', 'datetime'):
            g = lambda s, e: f(bd.BusinessDate(s), bd.BusinessDate(e))
        return ({} if dc == 'default' else {'day_count': name}), g
    return {'day_count': gen.day_count(dc)}, gen.day_count(dc)


def coupons(c, leg, dc, fwd, start, dates, amounts, rate, pay, fix):
    """date, cashflow, its size"""
    out = []
    s = start
    for i, (d, n) in enumerate(zip(dates, amounts)):
        a, e = s, d
        if pay is not None:
            e = e - pay
            if i:
                a = a - pay
        fd = a if fix is None else a - fix
        tau = dc(a, e)
        out.append((d, n * tau * (rate + fwd(fd)), a, e, fd))
        s = d
    return out


def check(case, rec):
    c = gen.clock(case)
    kind, what = case['kind'], case['what']
    kw = {'start_date': c(case['start'])}
    end = case['end']
    if isinstance(end, str):
        kw['end_date'] = bd.BusinessPeriod(end) \
            if case['endhow'] == 'period' else end
    else:
        kw['end_date'] = c(end)
        if kind == 'bd' and case['endhow'] == 'date':
            kw['end_date'] = kw['end_date'].to_date()
    conv = case['conv'] or 'mod_follow'
    if case['conv']:
        kw['convention'] = case['conv']
    hol = case['hol']
    off = is_target  # default of date package as well
    if hol == 'target':
        kw['holidays'], off = 'target', is_target
    elif hol == 'targetobj':
        kw['holidays'] = bd.businessholidays.TargetHolidays()
        off = is_target
    elif isinstance(hol, list):
        if kind == 'bd':
            days = [c(n).to_date() for n in hol]
        else:
            days = hol
        kw['holidays'] = bd.BusinessHolidays(days) if kind == 'bd' and \
            case['tuple'] else days
        off = set(days).__contains__
    n = 1.0
    if case['n'] is not None:
        kw['notional_amount'] = n = case['n']

    def per(x):
        if kind == 'bd':
            return bd.BusinessPeriod(x) if case['periodhow'] else x
        return c.offset(x)
    leg = case['leg']
    kw['period'] = per(leg['period'])
    start = c(case['start'])
    dates, last = schedule(c, case['start'], end, leg['period'], conv, off)
    if not start < dates[0]:
        rec.label('adjusted to start')
        return
    pay, fix = gen.offset(c, case['pay']), gen.offset(c, case['fix'])
    if pay is not None:
        kw['pay_offset'] = pay
    if fix is not None:
        kw['fixing_offset'] = fix
    arg, dc = day_count(leg, 'thirty360', c)
    kw.update(arg)
    fobj, fwd = forward(leg, c)
    if fobj is not None:
        kw['forward_curve'] = fobj
    rate = 0.0
    if leg['rate'] is not None:
        kw['fixed_rate'] = rate = leg['rate']
    rec.label(what, kind)
    m = len(dates)
    if what == 'swap':
        r = case['rec']
        kw['rec_leg_period'] = per(r['period'])
        arg, rdc = day_count(r, 'actact', c)
        kw.update(('rec_leg_' + k, v) for k, v in arg.items())
        robj, rfwd = forward(r, c)
        if robj is not None:
            kw['rec_leg_forward_curve'] = robj
        rrate = 0.0
        if r['rate'] is not None:
            kw['rec_leg_fixed_rate'] = rrate = r['rate']
        rdates, _ = schedule(c, case['start'], end, r['period'], conv, off)
        if not start < rdates[0]:
            rec.label('adjusted to start')
            return
        if case['bare']:
            for k in ('start_date', 'end_date', 'period', 'rec_leg_period'):
                kw.pop(k)
        obj = dcf.interest_rate_swap(**kw)
        want = [coupons(c, leg, dc, fwd, start, dates, [-n] * m, rate, pay,
                        fix),
                coupons(c, r, rdc, rfwd, start, rdates, [n] * len(rdates),
                        rrate, pay, fix)]
        notes = [None, None]
        true(obj.legs[0].forward_curve is fobj, 'forward curve of pay leg')
        true(obj.legs[1].forward_curve is robj, 'forward curve of rec leg')
    else:
        if what == 'plan':
            plan = [case['plan'][i % 8] for i in range(m)]
            kw['notional_amount'] = (tuple if case['tuple'] else list)(plan)
            ns, rest = [], sum(plan)
            for x in plan:
                ns.append(rest)
                rest -= x
            flows = [(start, -sum(plan))] + list(zip(dates, plan))
            raises(ValueError, lambda: dcf.bond(**dict(
                kw, notional_amount=plan + [1.0])), 'plan which is too long')
        else:
            ns = [n] * m
            flows = [(start, -n), (last, n)]
        if case['bare']:
            for k in ('start_date', 'end_date', 'period'):
                kw.pop(k)
        obj = dcf.bond(**kw)
        want = [[x + (None,) * 3 for x in flows],
                coupons(c, leg, dc, fwd, start, dates, ns, rate, pay, fix)]
        true(obj.legs[1].forward_curve is fobj, 'forward curve')
    true(isinstance(obj, dcf.CashFlowLegList), 'type of product')
    same(len(obj.legs), 2, 'number of legs')
    total = {}
    for k, (got, w) in enumerate(zip(obj.legs, want)):
        same(list(got.domain), sorted(x[0] for x in w),
             'dates of leg %d' % k)
        same(got.origin, start, 'origin of leg %d' % k)
        for d, x, s, e, fd in w:
            close(got[d], x, 'cashflow of leg %d at %r' % (k, d), rel=1e-9,
                  abs_=1e-9 * max(abs(n), 1))
            total[d] = total.get(d, 0.0) + x
    same(list(obj.domain), sorted(total), 'dates')
    same(obj.origin, start, 'origin')
    for d in total:
        close(obj[d], total[d], 'cashflow at %r' % d, rel=1e-9,
              abs_=1e-8 * max(abs(n), 1) * (10 if what == 'plan' else 1))
    joins(obj, want, start, case)
    if kind == 'bd':
        rec.label('adjusted' if any(x.to_date() != y for x, y in zip(
            dates, [d.to_date() for d in schedule(
                c, case['start'], end, leg['period'], 'no', off)[0]]))
            else 'not adjusted')
    rec.nt(m > 1 and any(x[1] for x in want[1]))


def joins(obj, want, start, case):
    """accrual periods as shown in the table follow one another"""
    for got, w in zip(obj.legs, want):
        if w and w[0][3] is None:
            continue
        head, rows = got.table[0], got.table[1:]
        same(len(rows), len(w), 'rows of table')
        s = [r[head.index('start date')] for r in rows]
        e = [r[head.index('end date')] for r in rows]
        same(s, [x[2] for x in w], 'start dates')
        same(e, [x[3] for x in w], 'end dates')
        same(s[0], start, 'first start date')
        if case['pay'] is None:
            same(e[:-1], s[1:], 'end and next start dates')


FACETS = [
    Facet('products', cases(), check, 5000,
          rule='more than one interest date and interest not zero'),
]

"""P24 curve fit"""
from math import sqrt

from hypothesis import strategies as st

import dcf
from vlib.core import Facet, close, same, true, untouched
from vlib import gen, build, products

ASSUMPTIONS = [
    'fitted curves have their default interpolation (as the shift on top) and '
    'points which are points of the grid, or are flat',
    'prices are sensitive: each grid point has one product (or some which '
    'agree) that depends on its value and not on later ones, and lies '
    'in between the prices at the bounds',
    'what precision leaves off in one value does not pile up to more than '
    '0.01 in later ones',
    'start and true values and their differences are within the bounds']
GAPS = {'int': (2, 5), 'float': (32, 128)}


@st.composite
def grids(draw, kind, lo, short=False):
    a, b = GAPS.get(kind, (70, 180 if short else 700))
    n = draw(gen.rarely(st.integers(5, 9), st.integers(1, 4)))
    out = []
    x = lo
    for g in draw(st.lists(st.integers(a, b), min_size=n, max_size=n)):
        x += g
        out.append(x)
    return out


def put(draw, lo, hi):
    """integer of upper half of lo < . <= hi"""
    return draw(st.one_of(st.just(hi), st.integers((lo + hi) // 2 + 1, hi)))


def small(kind, gap):
    if kind == 'bd':
        return '1M'
    return max(1, min(gap // 2, {'int': 1, 'float': 16}.get(kind, 30)))


@st.composite
def start(draw, kind, grid, values, how):
    """points and values of curve to fit"""
    if how == 'grid':
        xs = list(grid)
    elif how == 'flat':
        xs = [draw(st.integers(grid[0] - 40, grid[-1] + 10))]
    else:
        xs = sorted(draw(st.sets(st.sampled_from(grid), min_size=1)))
    flat = draw(st.booleans())
    ys = [draw(values)] * len(xs) if flat else [draw(values) for _ in xs]
    return xs, ys


@st.composite
def cases(draw):
    kind, base = draw(gen.kinds), draw(gen.bases)
    lo = draw(st.integers(0, 40))
    cls = draw(st.sampled_from(['ZeroRateCurve', 'CashRateCurve']))
    grid = draw(grids(kind, lo, cls == 'CashRateCurve'))
    mode = draw(st.sampled_from(['discount', 'discount', 'forward', 'single',
                                 'vol']))
    gaps = [b - a for a, b in zip([lo] + grid, grid)]
    tenor = small(kind, min(gaps))
    values = gen.dec(-0.03, 0.06, 1e-4)
    bounds = draw(st.sampled_from([None, (-0.1, 0.2), [-0.12, 0.1]]))
    scale = 'rate'
    if mode == 'vol':
        cls = 'TerminalVolatilityCurve'
        model = draw(st.sampled_from(['NormalOptionPayOffModel',
                                      'LogNormalOptionPayOffModel']))
        scale = 'price' if 'Log' in model else 'rate'
        values = gen.dec(0.1, 0.15, 0.01) if 'Log' in model else \
            gen.dec(0.02, 0.03, 0.0005)
        goals = gen.dec(0.06, 0.2, 0.01) if 'Log' in model else \
            gen.dec(0.012, 0.03, 0.0005)
        bounds = draw(st.sampled_from([None, (-0.1, 0.2)])) \
            if 'Log' in model else (-0.02, 0.03)
    if mode == 'single':
        values = gen.dec(0.0, 0.04, 1e-4)
        bounds = (-0.05, 0.05)
    if mode != 'vol':
        goals = values
    how = draw(st.sampled_from(['grid', 'grid', 'flat', 'subset']))
    xs, ys = draw(start(kind, grid, values, how))
    origin = lo if mode == 'vol' else draw(st.one_of(
        st.just(lo), st.integers(lo - 50, lo)))
    curve = {'cls': cls, 'kind': kind, 'base': base, 'xs': xs, 'ys': ys,
             'origin': min([origin] + xs) if mode != 'vol' else origin,
             'dc': draw(gen.day_counts(additive=kind in ('float', 'int'))),
             'ip': None, 'tenor': tenor, 'tuple': draw(st.booleans())}
    true_ = dict(curve, xs=grid, ys=[draw(goals) for _ in grid])
    other = None
    if mode in ('forward', 'vol'):
        other = draw(build.discount_specs(
            kind, base, ['ZeroRateCurve', 'DiscountFactorCurve']))
    case = {'kind': kind, 'base': base, 'mode': mode, 'lo': lo,
            'curve': curve, 'true': true_, 'disc': other,
            'grid': None if how == 'grid' and draw(st.booleans()) else grid,
            'bounds': bounds, 'products': [],
            'prec': draw(st.sampled_from([None, None, 1e-4, 1e-9])),
            'how': draw(st.sampled_from(['list', 'tuple', 'zero', 'number'])),
            'order': draw(st.sampled_from(['up', 'down'])),
            'gorder': draw(st.sampled_from(['up', 'up', 'down'])),
            'val': draw(st.booleans())}
    sign = draw(st.sampled_from([1, 1, -1]))
    for i, g in enumerate(grid):
        prev = grid[i - 1] if i else lo
        for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
            p = {'kind': kind, 'base': base, 'tuple': draw(st.booleans())}
            amount = sign * draw(st.sampled_from(
                [1.0, 100, 1e4, 1e6] if case['prec'] != 1e-4 else [1e4, 1e6]))
            if mode == 'discount' and draw(st.booleans()):
                last = put(draw, prev, g)
                ds = sorted(draw(st.sets(st.integers(lo - 20, last - 1),
                                         max_size=3))) + [last]
                p.update(type='fixed', xs=ds, origin=None, cls='CashFlowList',
                         ys=[amount * draw(st.integers(1, 9)) / 10.0
                             for _ in ds])
                if draw(st.booleans()):
                    # payments in any order
                    p['xs'] = draw(st.permutations(ds))
            elif mode == 'vol':
                last = put(draw, prev, g)
                p.update(type='option', xs=[last], origin=lo, pay=None,
                         fix=None, ys=amount, z=draw(st.integers(
                             -8, 8)) / 10.0, put=draw(st.booleans()))
                p['m'] = {'cls': model, 'kind': kind, 'base': base,
                          'scale': scale, 'bump': None, 'val': lo,
                          'disp': 0.0, 'dc': draw(gen.day_counts()),
                          'fwd': {'how': 'number', 'y': 100.0 if scale ==
                                  'price' else 0.03},
                          'vol': dict(true_, how='terminal')}
            else:
                mid = (prev + g + 1) // 2
                ds = [x for x in grid[:i] if draw(st.booleans())]
                ds += [mid, g]
                ds = sorted(set(ds))
                leg = dict(p, type='rate', xs=ds, origin=draw(
                    st.sampled_from([lo, lo - 1])), ys=amount,
                    dc=draw(gen.day_counts(additive=kind in (
                        'float', 'int'))),
                    fix=None, pay=None, rate=0.0, how='none', fwd=None)
                if mode == 'discount':
                    leg['rate'] = draw(gen.dec(0.01, 0.2, 0.001))
                    if draw(st.booleans()):
                        p.update(type='legs', nest=False, legs=[leg, dict(
                            p, type='fixed', xs=[g], ys=[amount],
                            origin=None, cls='CashFlowList')])
                    else:
                        p = leg
                else:
                    leg.update(how='curve', fwd=true_)
                    p.update(type='legs', nest=False, legs=[leg])
                    if mode == 'single':
                        p['legs'].append(dict(
                            leg, how='none', fwd=None, ys=-amount,
                            rate=draw(gen.dec(0.0, 0.05, 0.001))))
                    elif draw(st.booleans()):
                        leg['rate'] = draw(gen.rates)
                        p = leg
            case['products'].append(p)
    return case


def with_curve(p, spec, mode):
    """product spec which depends on the curve spec"""
    if p['type'] == 'legs':
        return dict(p, legs=[with_curve(x, spec, mode) for x in p['legs']])
    if p['type'] == 'rate' and p['how'] == 'curve':
        return dict(p, fwd=spec)
    if p['type'] == 'option':
        return dict(p, m0=p.get('m0', p['m']),
                    m=dict(p['m'], vol=dict(spec, how='terminal')))
    return p


def reprice(case, p, spec):
    c, mode, at = gen.clock(case), case['mode'], case['lo']
    disc = case['disc'] or spec
    curve = build.build(disc)
    parts = [curve.get_discount_factor(c(at), c(n)) * a
             for n, a in products.flows(with_curve(p, spec, mode), at)]
    return sum(parts), sum(abs(x) for x in parts)


def link(obj, curve):
    """sets curve to be fitted as curve of the products"""
    if isinstance(obj, dcf.CashFlowLegList):
        for x in obj.legs:
            link(x, curve)
    elif getattr(obj, 'forward_curve', None) is not None:
        obj.forward_curve = curve


def make(p, curve):
    """product on the very curve"""
    c = gen.clock(p)
    if p['type'] == 'option':
        from vlib import options
        m = options.Model(p['m']).obj
        model = type(m)(
            valuation_date=m.valuation_date, forward_curve=m.forward_curve,
            volatility_curve=curve, day_count=gen.day_count(p['m']['dc']))
        return products.make(p, model=model)
    obj = products.make(p)
    if p['type'] == 'legs':
        for x, y in zip(obj.legs, p['legs']):
            if y.get('how') == 'curve':
                x.forward_curve = curve
    elif p.get('how') == 'curve':
        obj.forward_curve = curve
    return obj


def monotone(case, pv):
    """prices rise with each value one after another"""
    true_, (lo, hi) = case['true'], case['bounds']
    for i, n in enumerate(true_['xs']):
        old = None
        y = build.stored(case['curve'], n)
        some = [p for p in case['products'] if max(products.dates(p)) == n]
        for k in range(11):
            ys = list(true_['ys'])
            ys[i] = y + lo + k * (hi - lo) / 10
            xs = [reprice(case, p, dict(true_, ys=ys))[0] for p in some]
            if old and len({a < b for a, b in zip(old, xs)} | sign) > 1:
                return False
            if not old:
                sign = set()
            else:
                sign = {a < b for a, b in zip(old, xs)}
            old = xs
    return True


def check(case, rec):
    c, mode = gen.clock(case), case['mode']
    true_, at = case['true'], case['lo']
    grid = true_['xs']
    spec = case['curve']
    ps = case['products']
    prices = [reprice(case, p, true_) for p in ps]
    pv = [x for x, _ in prices]
    curve = build.build(spec)
    disc = build.build(case['disc']) if case['disc'] else curve
    objs = [make(p, curve) for p in ps]
    rec.label(mode, case['how'], spec['cls'], case['prec'])
    seq = list
    if case['how'] in ('zero', 'number'):
        # price is paid up front
        off = 0.0 if case['how'] == 'zero' else 12.5 - len(grid) % 2 / 2
        off = int(off) if off == 12 else off
        objs = [dcf.CashFlowLegList([x, dcf.CashFlowList(
            [c(at)], [off - y])]) for x, y in zip(objs, pv)]
        pvs = off
    else:
        seq = tuple if case['how'] == 'tuple' else list
        pvs = seq(pv)
    if case['order'] == 'down':
        objs = objs[::-1]
        if isinstance(pvs, (list, tuple)):
            pvs = pvs[::-1]
    kw = {}
    if case['how'] != 'zero':
        kw['present_value'] = pvs
    if case['disc'] or case['val'] or build.origin_of(spec) != at:
        kw['valuation_date'] = c(at)
    if case['disc'] or case['val']:
        kw['fitting_curve'] = curve
    order = list(grid)
    if case['grid']:
        if case['gorder'] == 'down':
            order = order[::-1]
        kw['fitting_grid'] = seq(c(n) for n in order)
    if case['bounds'] is not None:
        kw['bounds'] = case['bounds']
    if mode == 'single' and not monotone(case, pv):
        rec.label('not monotone')
        return
    prec = 1e-7
    if case['prec'] is not None:
        kw['precision'] = prec = case['prec']
    # how far off values can be, by rows of derivatives of the prices
    rows = []
    for p, (want, scale) in zip(ps, prices):
        row = []
        for j in range(len(grid)):
            h = 1e-6
            ys = list(true_['ys'])
            ys[j] += h
            row.append((reprice(case, p, dict(true_, ys=ys))[0] - want) / h)
        rows.append(row)
    noise = sum(1e-11 * (x + 25) for _, x in prices)
    if mode == 'vol':
        noise += sum(1e-13 * abs(p['ys']) * p['m']['fwd']['y'] for p in ps)
    groups, e = [], []
    for i, n in enumerate(grid):
        prev = grid[i - 1] if i else None
        some = [k for k, p in enumerate(ps)
                if max(products.dates(p)) <= n and (
                    prev is None or max(products.dates(p)) > prev)]
        groups.append(some)
        row = [sum(rows[k][j] for k in some) for j in range(i + 1)]
        if not row[i]:
            break
        tol = 2 * prec + noise + sum(abs(s) * x for s, x in zip(row, e))
        x = 2 * tol / abs(row[i]) + 1e-9
        if x > 1e-2 and i + 1 < len(grid):
            # what is left by precision piles up from value to value
            rec.label('ill conditioned')
            return
        e.append(x)
    got = untouched(dcf.get_curve_fit, objs, disc, **kw)
    same(type(got), tuple, 'type')
    same(len(got), len(grid), 'number of values')
    back = dict(true_, xs=order, ys=list(got))
    tol = 2 * prec + noise
    for n, some in zip(grid, groups):
        for k in some if len(some) == 1 else ():
            x, _ = reprice(case, ps[k], back)
            close(x, prices[k][0], 'price of product maturing %r' % c(n),
                  rel=1e-11, abs_=tol)
    good = len(e) == len(grid) and max(e) <= 1e-3
    for i, x in enumerate(e):
        if x > 1e-3:
            break
        close(got[order.index(grid[i])], true_['ys'][i],
              'value at %r' % c(grid[i]), rel=1e-9, abs_=x)
    rec.nt(good and any(abs(a - b) > 1e-6 for a, b in zip(
        true_['ys'], (build.stored(spec, n) for n in grid))))


FACETS = [
    Facet('fit', cases(), check, 480, thorough=16000,
          rule='all fitted values are determined by the prices and at least '
               'one differs from the start'),
]

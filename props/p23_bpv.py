"""P23 basis point value and buckets"""
from math import exp

from hypothesis import strategies as st

import dcf
from vlib.core import Facet, close, same, true, untouched
from vlib import gen, build, products
from props import p15_cashflows as p15

ASSUMPTIONS = [
    'shifted curves are zero, cash or short rate curves with their default '
    'interpolation, so a shift of values is a shift of rates',
    'delta grids are increasing']
RATES = ['ZeroRateCurve', 'CashRateCurve']


@st.composite
def cases(draw):
    kind, base = draw(gen.kinds), draw(gen.bases)
    mode = draw(st.sampled_from(['default', 'default', 'discount', 'forward',
                                 'both', 'same', 'same', 'other']))
    how = draw(st.sampled_from(['before', 'before', 'any']))
    spec = draw(build.discount_specs(kind, base, RATES, origins=how,
                                     max_size=6))
    if mode in ('forward', 'both', 'same'):
        fwd = spec if mode == 'same' else draw(
            build.discount_specs(kind, base, RATES))
        if draw(st.integers(0, 3)) == 0:
            p = draw(products.contingent_specs(kind, base, ('collar',)))
            p['m'].update(cls='NormalOptionPayOffModel', disp=0.0,
                          fwd=dict(fwd, how='rate'))
            if p['m']['vol']['how'] == 'number':
                p['m']['vol']['y'] = 0.01
        else:
            p = dict(draw(products.rate_specs(kind, base)), how='curve',
                     fwd=fwd)
    else:
        p = draw(products.specs(kind, base, ('fixed', 'rate', 'legs')))
    span = build.span_of(kind) // 2
    return {'kind': kind, 'base': base, 'p': p, 'c': spec, 'mode': mode,
            'v': draw(st.one_of(st.none(), st.integers(0, 64))),
            'shift': draw(st.sampled_from([None, None, 1e-4, -1e-4, 1e-3,
                                           0.01, -0.02])),
            'grid': draw(st.one_of(st.none(), gen.axis(
                1, 6, -span // 8, span, order='sorted'))),
            'extra': draw(st.booleans()),
            'tuple': draw(st.booleans())}


def triangle(grid, j):
    """j-th function of the partition of unity (integers to numbers)"""
    def f(n):
        if len(grid) == 1:
            return 1.0
        if n <= grid[0]:
            return 1.0 if j == 0 else 0.0
        if n >= grid[-1]:
            return 1.0 if j == len(grid) - 1 else 0.0
        for i in range(len(grid) - 1):
            a, b = grid[i], grid[i + 1]
            if a <= n <= b:
                if j == i:
                    return (b - n) / (b - a)
                if j == i + 1:
                    return (n - a) / (b - a)
        return 0.0
    return f


def shifted(spec, func, grid=()):
    """spec of the curve with func added (linear between points of grid)"""
    xs = sorted(set(spec['xs']) | set(grid))
    ys = []
    for n in xs:
        y = build.stored(spec, n) if n not in spec['xs'] else \
            spec['ys'][spec['xs'].index(n)]
        ys.append(y + func(n))
    return dict(spec, xs=xs, ys=ys, origin=build.origin_of(spec))


def reprice(p, spec, at):
    """present value from scratch and its scale"""
    c = gen.clock(p)
    curve = build.build(spec)
    parts = [curve.get_discount_factor(c(at), c(n)) * a
             for n, a in products.flows(p, at)]
    return sum(parts), sum(abs(x) for x in parts)


def with_forward(p, fwd):
    if p['type'] == 'collar':
        return dict(p, m0=p['m'], m=dict(p['m'], fwd=dict(fwd, how='rate')))
    return dict(p, fwd=fwd)


def check(case, rec):
    c = gen.clock(case)
    p, spec, mode = case['p'], case['c'], case['mode']
    curve = build.build(spec)
    if mode in ('forward', 'both', 'same'):
        fspec = p['m']['fwd'] if p['type'] == 'collar' else p['fwd']
        obj = products.make(p)
        if mode == 'same':
            if p['type'] == 'collar':
                obj.payoff_model.forward_curve = curve
            else:
                obj.forward_curve = curve
        fwd = curve if mode == 'same' else obj.payoff_model.forward_curve \
            if p['type'] == 'collar' else obj.forward_curve
    else:
        fspec = fwd = None
        obj = products.make(p)
    other = build.build(spec)
    delta = {'default': None, 'discount': curve, 'forward': fwd,
             'both': [curve, fwd], 'same': curve, 'other': other}[mode]
    if mode == 'both' and case['tuple']:
        delta = tuple(delta)
    if mode in ('default', 'same', 'discount') and case['extra']:
        delta = [curve]
    if mode == 'same' and not case['extra'] and case['tuple']:
        delta = None
    xs = products.dates(p)
    kw = {} if case['v'] is None else {'valuation_date': c(
        products.valuation_dates(xs, [case['v']])[0])}
    at = build.origin_of(spec) if case['v'] is None else \
        products.valuation_dates(xs, [case['v']])[0]
    if delta is not None:
        kw['delta_curve'] = delta
    shift = 1e-4
    if case['shift'] is not None:
        kw['shift'] = shift = case['shift']
    rec.label(mode, p['type'], spec['cls'])

    def moved(func, grid):
        """present value with func added to the curves chosen"""
        a, b = spec, p
        if mode in ('default', 'discount', 'both', 'same'):
            a = shifted(spec, func, grid)
        if mode in ('forward', 'both', 'same'):
            b = with_forward(p, shifted(
                spec if mode == 'same' else fspec, func, grid))
        return reprice(b, a, at)
    pv, scale = reprice(p, spec, at)
    if p['type'] == 'collar':
        # options are larger than what is left of them
        ys = p['ys'] if isinstance(p['ys'], list) else [p['ys']]
        scale += 0.02 * max(map(abs, ys))

    def diff(func, grid):
        x, s = moved(func, grid)
        tol = 2e-12 * (scale + s) / abs(shift) * 1e-4 + 1e-15
        return (x - pv) / shift * 1e-4, tol

    got = dcf.get_basis_point_value(obj, curve, **kw)
    want, tol = diff(lambda n: shift, ())
    close(got, want, 'basis point value', rel=1e-8, abs_=tol)
    rec.nt(abs(want) > 100 * tol)
    # buckets
    first = delta[0] if isinstance(delta, (list, tuple)) else delta
    if case['grid'] is None:
        gspec = spec if first in (None, curve, other) else fspec
        if isinstance(delta, (list, tuple)):
            gspec = spec
        grid = sorted(gspec['xs'])
    else:
        grid = case['grid']
        kw['delta_grid'] = (tuple if case['tuple'] else list)(
            c(n) for n in grid)
    buckets = untouched(dcf.get_bucketed_delta, obj, curve, **kw)
    same(len(buckets), len(grid), 'number of buckets')
    total = 0.0
    for j, b in enumerate(buckets):
        tri = triangle(grid, j)
        w, t = diff(lambda n: shift * tri(n), grid)
        close(b, w, 'bucket %d of %r' % (j, [c(n) for n in grid]), rel=1e-8,
              abs_=t)
        total += b
    if len(grid) == 1:
        close(total, got, 'single bucket', rel=1e-9, abs_=tol)
    if mode in ('default', 'discount') and spec['cls'] == 'ZeroRateCurve':
        # partition: differs from parallel shift by cross terms only
        horizon = max(abs(gen.yf(spec['dc'], c, a, b))
                      for a in (at, build.origin_of(spec))
                      for b in (xs[0], xs[-1], at)) + 1
        s2 = moved(lambda n: abs(shift), ())[1] + scale
        if horizon * abs(shift) < 0.05:
            close(total, got, 'sum of buckets', rel=0, abs_=len(grid) *
                  (tol + 4 * s2 * horizon ** 2 * abs(shift) * 1e-4))
    # same again: nothing left behind
    close(dcf.get_basis_point_value(obj, curve, **{
        k: x for k, x in kw.items() if k != 'delta_grid'}), got,
        'basis point value again', rel=1e-12)


# ---- short rates -------------------------------------------------------------

@st.composite
def short_cases(draw):
    base = draw(gen.bases)
    xs = draw(gen.axis(1, 4, 0, 150))
    return {'kind': 'bd', 'base': base,
            'p': {'type': 'fixed', 'kind': 'bd', 'base': base, 'xs': xs,
                  'ys': [draw(gen.notionals) for _ in xs], 'origin': None,
                  'cls': 'CashFlowList', 'tuple': False},
            'c': draw(build.rate_specs('ShortRateCurve', 'bd', base,
                                       xs=draw(gen.axis(1, 4, 0, 150)),
                                       need_tenor=True)),
            'v': draw(st.integers(-10, 100)),
            'shift': draw(st.sampled_from([1e-4, -1e-4, 1e-3])),
            'grid': draw(gen.axis(1, 5, -20, 180, order='sorted'))}


def check_short(case, rec):
    c = gen.clock(case)
    p, spec, at, shift = case['p'], case['c'], case['v'], case['shift']
    obj, curve = products.make(p), build.build(spec)
    top = max(p['xs'])
    ks = range(min(at, top), top)
    rate = {i: build.stored(spec, i) for i in ks}
    tau = {i: build.tau(spec, i, i + 1) for i in ks}

    def pv(func):
        out = scale = 0.0
        for n, a in zip(p['xs'], p['ys']):
            if n >= at:
                x = a * exp(-sum((rate[i] + func(i)) * tau[i]
                                 for i in range(at, n)))
                out += x
                scale += abs(x)
        return out, scale
    zero, scale = pv(lambda n: 0.0)
    tol = 1e-11 * scale / abs(shift) * 1e-4 + 1e-15
    w = (pv(lambda n: shift)[0] - zero) / shift * 1e-4
    got = dcf.get_basis_point_value(obj, curve, c(at), shift=shift)
    close(got, w, 'basis point value', rel=1e-7, abs_=tol)
    rec.nt(abs(w) > 100 * tol)
    grid = case['grid']
    buckets = untouched(
        dcf.get_bucketed_delta, obj, curve, c(at), delta_grid=[c(n) for n in grid], shift=shift)
    same(len(buckets), len(grid), 'number of buckets')
    for j, b in enumerate(buckets):
        tri = triangle(grid, j)
        w = (pv(lambda n: shift * tri(n))[0] - zero) / shift * 1e-4
        close(b, w, 'bucket %d' % j, rel=1e-7, abs_=tol)


FACETS = [
    Facet('bpv', cases(), check, 2500,
          rule='a basis point value that is large against its tolerance'),
    Facet('short_rates', short_cases(), check_short, 250,
          rule='a basis point value that is large against its tolerance'),
]

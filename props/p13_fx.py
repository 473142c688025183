"""P13 fx container"""
from hypothesis import strategies as st

import dcf
from vlib.core import Facet, close, close2, same, true, raises
from vlib import gen, build

CUR = ['USD', 'EUR', 'GBP', 'JPY', 'CHF']
spot = st.one_of(gen.dec(0.01, 200, 0.01), st.floats(0.001, 1000))


@st.composite
def cases(draw):
    kind, base = draw(gen.kinds), draw(gen.bases)
    curves = [draw(build.discount_specs(
        kind, base, cls=['DiscountFactorCurve', 'ZeroRateCurve',
                         'ZeroRateCurve', 'ZeroRateCurve', 'DiscountFactorCurve',
                         'CashRateCurve'], max_size=3))
        for _ in range(draw(st.integers(2, 5)))]
    add = st.tuples(st.integers(1, 4), st.integers(0, 4), spot,
                    st.sampled_from(['add', 'add', 'item']),
                    st.lists(st.tuples(st.integers(-60, 100),
                                       gen.dec(0.5, 2, 0.01)).map(list),
                             max_size=3, unique_by=lambda x: x[0]))
    return {'kind': kind, 'base': base, 'curves': curves,
            'ops': draw(gen.rarely(
                st.lists(add.map(list), min_size=9, max_size=25),
                st.lists(add.map(list), min_size=1, max_size=8))),
            'qs': draw(st.lists(st.integers(-20, 100), min_size=1,
                                max_size=3))}


def check(case, rec):
    c = gen.clock(case)
    curves = [build.build(s) for s in case['curves']]
    base = curves[0]
    o = build.origin_of(case['curves'][0])
    fx = dcf.FxContainer(CUR[0], base)
    model = {CUR[0]: (1.0, base)}
    rec.label(case['kind'])
    unit = max(1, build.span_of(c.kind) // 128)
    dates = sorted({o + q * unit for q in case['qs']} | {o})
    verify(c, fx, model, base, o, dates)
    for i, (n, k, s, how, pts) in enumerate(case['ops']):
        cur, curve = CUR[n], curves[k % len(curves)]
        if cur in model:
            rec.label('added again')
        if how == 'add':
            fx.add(cur, curve, s)
        else:
            rec.label('by item')
            ds, ys, kw = [c(o)], [s], {}
            # points around the spot date
            for k, y in pts:
                if k:
                    ds.append(c(o + k * unit))
                    ys.append(s * y)
            if len(ds) > 1:
                rec.label('forward points')
            fx[cur] = dcf.FxForwardCurve(ds, ys, domestic_curve=base,
                                         foreign_curve=curve)
        model[cur] = (s, curve)
        if i % 4 == 2:
            verify(c, fx, model, base, o, dates)
    verify(c, fx, model, base, o, dates)
    rec.nt(len(model) > 2 and len(case['ops']) > 2)


def verify(c, fx, model, base, o, dates):
    names = sorted(model)
    pairs = {(a, b) for a in names for b in names if a != b}
    pairs.add((CUR[0], CUR[0]))
    same(sorted(fx), sorted(pairs), 'pairs of the container')
    same(len(fx), len(pairs), 'number of pairs')
    for a in names:
        d = fx[a]
        same(sorted(d), sorted(f for x, f in pairs if x == a),
             'pairs of %s' % a)
        for f in d:
            true(d[f] is fx[a, f], 'container[%r][%r]', a, f)
    for n in dates:
        x = c(n)
        rate = {}
        for a, b in pairs:
            rate[a, b] = fx[a, b](x)
            if n == dates[-1]:
                close2(fx.get_forward_price(a, b, x), rate[a, b],
                       'forward price', rel=0, abs_=0)
        df = {}
        if n > o:
            df = {a: model[a][1].get_discount_factor(c(o), x) for a in names}
        close(rate[CUR[0], CUR[0]], 1.0, 'rate of base to itself')
        for a, b in pairs:
            want = model[b][0] / model[a][0]
            if n > o:
                want *= df[a] / df[b]
            w = '%s/%s at %r' % (a, b, x)
            close(rate[a, b], want, w, rel=1e-9)
            close(rate[a, b] * rate[b, a], 1.0, 'reciprocal ' + w, rel=1e-9)
            for d in names:
                if (a, d) in pairs and (d, b) in pairs:
                    close(rate[a, d] * rate[d, b], rate[a, b],
                          'triangle %s ' % d + w, rel=1e-9)


reject_cases = st.fixed_dictionaries({
    'what': st.sampled_from(['curve', 'spot', 'currency', 'pair', 'value',
                             'key', 'domestic', 'zero', 'negative', 'again']), 'spot': st.integers(1, 9)})


def check_reject(case, rec):
    """arguments of the wrong kind are rejected and change nothing"""
    base = dcf.ZeroRateCurve([0.0], [0.02])
    other = dcf.ZeroRateCurve([0.0], [0.01])
    fx = dcf.FxContainer('USD', base)
    fx.add('EUR', other, 1.25)
    before = sorted(fx), fx['USD', 'EUR'](1.0), fx['EUR', 'USD'](1.0)
    what, s = case['what'], float(case['spot'])
    good = dcf.FxForwardCurve([0.0], [s], domestic_curve=base,
                              foreign_curve=other)
    bad = {
        'curve': lambda: fx.add('GBP', 0.02, s),
        'spot': lambda: fx.add('GBP', other, str(s)),
        'zero': lambda: fx.add('GBP', other, 0.0),
        'negative': lambda: fx.add('GBP', other, -s),
        'again': lambda: fx.add('EUR', base, -s),
        'currency': lambda: fx.add(7, other, s),
        'pair': lambda: fx.__setitem__(('USD', 7), good),
        'value': lambda: fx.__setitem__(('USD', 'GBP'), s),
        'key': lambda: fx[7],
        'domestic': lambda: fx.__setitem__('GBP', dcf.FxForwardCurve(
            [0.0], [s], domestic_curve=other, foreign_curve=other)),
    }[what]
    rec.nt()
    raises((AssertionError, TypeError, ValueError, KeyError,
            ArithmeticError), bad, what)
    same((sorted(fx), fx['USD', 'EUR'](1.0), fx['EUR', 'USD'](1.0)), before,
         'container after rejected ' + what)


@st.composite
def pair_cases(draw):
    case = draw(cases())
    case['ops'] = [[n, k, s, 'add', []] for n, k, s, _, _ in draw(
        st.permutations(case['ops']))[:6]]
    case['pair'] = draw(st.one_of(
        st.sampled_from([[x[0], 0] for x in case['ops']]),
        st.lists(st.integers(0, 4), min_size=2, max_size=2, unique=True)))
    case['pts'] = draw(st.lists(st.tuples(
        st.integers(-60, 100), gen.dec(0.5, 2, 0.01)).map(list), min_size=1,
        max_size=3, unique_by=lambda x: x[0]))
    case['new'] = [draw(st.integers(1, 4)), draw(st.integers(0, 4)),
                   draw(spot)]
    return case


def check_pair(case, rec):
    """pairs set on their own"""
    c = gen.clock(case)
    curves = [build.build(s) for s in case['curves']]
    o = build.origin_of(case['curves'][0])
    unit = max(1, build.span_of(c.kind) // 128)
    fx = dcf.FxContainer(CUR[0], curves[0])
    spots = {CUR[0]: 1.0}
    for n, k, s, _, _ in case['ops']:
        fx.add(CUR[n], curves[k % len(curves)], s)
        spots[CUR[n]] = s
    a, b = (CUR[i] for i in case['pair'])
    before = dict(fx)
    rates = {k: v(c(o)) for k, v in before.items()}
    ds = [c(o + k * unit) for k, _ in case['pts']]
    ys = [y for _, y in case['pts']]
    new = dcf.FxForwardCurve(ds, ys, domestic_curve=curves[-1],
                             foreign_curve=curves[0])
    fx[a, b] = new
    true(fx[a, b] is new, 'pair set')
    same(sorted(fx), sorted(set(before) | {(a, b)}), 'pairs of container')
    for k, v in before.items():
        if k != (a, b):
            true(fx[k] is v, 'pair %r after setting another one', k)
            same(v(c(o)), rates[k], 'rate of %r' % (k,))
    for k in case['qs']:
        x = c(o + k * unit)
        same(fx.get_forward_price(a, b, x), new.get_forward_price(x),
             'forward price of pair set at %r' % x)
    # cross rates of currencies added later
    n, k, s = case['new']
    f = CUR[n]
    rates[a, b] = new(c(o))
    true((a, b) in fx, 'pair is kept')
    fx.add(f, curves[k % len(curves)], s)
    for d in sorted(spots):
        if d == f:
            continue
        want = s if d == CUR[0] else rates[d, CUR[0]] * s
        close(fx[d, f](c(o)), want, 'rate of %s/%s added later' % (d, f),
              rel=1e-9)
        close(fx[f, d](c(o)), 1 / want, 'rate of %s/%s added later' % (f, d),
              rel=1e-9)
    if f not in (a, b):
        true(fx[a, b] is new, 'pair set, after adding another currency')
    rec.label('to base' if b == CUR[0] else 'other')
    rec.nt(b == CUR[0] and a in spots and a != f)


FACETS = [
    Facet('history', cases(), check, 1600,
          rule='three currencies and three additions at least'),
    Facet('pairs', pair_cases(), check_pair, 1000,
          rule='a pair to the base currency is set, which is in the '
               'container and not added afterwards'),
    Facet('reject', reject_cases, check_reject, 60, 60),
]

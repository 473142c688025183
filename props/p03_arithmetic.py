"""P03 pointwise arithmetic and shifting of curves"""
import operator
from math import exp

from hypothesis import strategies as st

from dcf import DateCurve, ZeroRateCurve

from vlib.core import Facet, close, close2, same, true, raises
from vlib import gen, oracle, build

CLS = ['Curve', 'DateCurve', 'DateCurve', 'ZeroRateCurve', 'ShortRateCurve',
       'ForwardCurve', 'FxForwardCurve']
PRICE = ('ForwardCurve', 'FxForwardCurve')
IPS = [None, None, 'linear', 'linear_scheme', 'constant', 'nearest', 'right']
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '/': operator.truediv}


rate = gen.dec(-0.05, 0.1, 0.01)
val64 = st.integers(1, 400).map(lambda i: i / 64.0)


def operand(s):
    c = gen.clock(s)
    kw = {}
    if s.get('yield') is not None:
        kw['yield_curve'] = s['yield']
    if s['cls'] == 'FxForwardCurve':
        d, f = (ZeroRateCurve([c(0)], [r]) for r in s['fx'])
        kw.update(domestic_curve=d, foreign_curve=f)
    f = build.build(s, **kw)
    for n, v in s.get('fix', ()):
        f.fixings[c(n)] = v
    if s.get('spread'):
        f.spread = DateCurve([c(0)], [s['spread']], origin=c(0))
    return f


def growth(s, last, n):
    """of the last price"""
    if s['cls'] == 'FxForwardCurve':
        d, f = s['fx']
        return exp((f - d) * gen.clock(s).yf(last, n))
    return exp((s.get('yield') or 0.0) * (
        build.tau(s, n) - build.tau(s, last)))


def value(s, n):
    """value of the operand at a point"""
    if s['cls'] in PRICE and n > max(s['xs']):
        last = max(s['xs'])
        return value(s, last) * growth(s, last, n)
    fix = dict(map(tuple, s.get('fix', ())))
    return fix[n] if n in fix and n in s['xs'] else build.stored(s, n)


def spec(draw, cls, kind, base, pos):
    xs = draw(gen.axis(1, 6, 0, draw(st.sampled_from([12, 300, 3000]))))
    lo = 1 if pos else -300
    val = st.integers(lo, 400).map(lambda i: i / 64.0)
    ys = draw(st.lists(val, min_size=len(xs), max_size=len(xs)))
    return {'cls': cls, 'kind': kind, 'base': base, 'xs': xs, 'ys': ys,
            'origin': None if cls == 'Curve' else draw(st.one_of(
                st.none(), st.integers(-300, 3000))),
            'dc': None if cls == 'Curve' else draw(gen.day_counts()),
            'ip': draw(st.sampled_from(IPS)),
            'iphow': draw(st.sampled_from(['name', 'class'])),
            'tenor': draw(build.tenors(kind)) if cls in build.RATE else None,
            'yield': draw(st.one_of(st.none(), rate))
            if cls == 'ForwardCurve' else None,
            'fx': draw(st.tuples(rate, rate))
            if cls == 'FxForwardCurve' else None,
            'tuple': draw(st.booleans())}


@st.composite
def cases(draw):
    ca = draw(st.sampled_from(CLS))
    cb = ca
    if ca == 'DateCurve':
        cb = draw(st.sampled_from(['DateCurve', 'DateCurve', 'ZeroRateCurve',
                                   'ForwardCurve', 'FxForwardCurve']))
    kind = draw(st.sampled_from(['float', 'int'] if ca == 'Curve'
                                else gen.KINDS))
    base = draw(gen.bases)
    pos = ca in PRICE or cb in PRICE
    a = spec(draw, ca, kind, base, pos)
    b = spec(draw, cb, kind, base, pos)
    for s in (a, b):
        if pos and s['ip'] == 'linear':
            s['ip'] = 'linear_scheme'   # stays positive beyond the points
    if ca in build.RATE:
        b['ip'] = None  # as operands of rate curves are casted
        b['dc'] = a['dc'] if draw(st.booleans()) else b['dc']
    if draw(st.booleans()):  # some joint points
        k = draw(st.integers(1, len(a['xs'])))
        for x in a['xs'][:k]:
            if x not in b['xs']:
                b['xs'].append(x)
                b['ys'].append(draw(st.integers(1, 400)) / 64.0)
    for s in (a, b):
        # recorded fixings and spreads are part of the values of an operand
        # (casting the right operand of rate curves makes them points)
        s['fix'] = [] if ca == 'Curve' or (
            s is b and ca in build.RATE) else draw(st.one_of(
            st.just([]), st.lists(st.tuples(
                st.sampled_from(s['xs']), val64), min_size=1, max_size=2,
                unique_by=lambda t: t[0])))
        s['spread'] = draw(st.one_of(st.just(0), st.just(0), val64)) \
            if s['cls'] in build.RATE else 0
    op = draw(st.sampled_from('+-*/'))
    if pos and op == '-':
        op = '+'
    return {'a': a, 'b': b, 'op': op, 'qs': draw(build.qs)}


def state(curve):
    return (list(curve.domain), list(curve(list(curve.domain))),
            getattr(curve, 'origin', None))


def check(case, rec):
    a, b = case['a'], case['b']
    c = gen.clock(a)
    f, g = operand(a), operand(b)
    rec.label(a['cls'], a['kind'], case['op'])
    op = OPS[case['op']]
    before = state(f), state(g)
    union = sorted(set(a['xs']) | set(b['xs']))
    rec.nt(set(a['xs']) != set(b['xs']) and len(union) > 2)
    if len(set(a['xs']) & set(b['xs'])):
        rec.label('joint-points')
    for s in (a, b):
        rec.label(*[k for k in ('fix', 'spread') if s.get(k)])
    ref_a, ref_b = {}, {}
    for n in union:
        ref_a[n] = value(a, n) + a.get('spread', 0)
        ref_b[n] = value(b, n) + b.get('spread', 0)
        close(f(c(n)), ref_a[n], 'left operand', rel=1e-9, abs_=1e-9,
              scale=10)
        close(g(c(n)), ref_b[n], 'right operand', rel=1e-9, abs_=1e-9,
              scale=10)
    if case['op'] == '/':
        small = [n for n in union if abs(g(c(n))) < 1e-3]
        if small:
            if any(g(c(n)) == 0 for n in small):
                rec.label('zero-division')
                raises(ZeroDivisionError, lambda: op(f, g),
                       'division by curve vanishing at a point')
                same((state(f), state(g)), before, 'operands')
            return
    h = op(f, g)
    same(list(h.domain), [c(n) for n in union], 'points of result')
    true(type(h) is type(f), 'type of result is %r', type(h))
    vals = []
    for n in union:
        want = op(ref_a[n], ref_b[n])
        vals.append(want)
        close(h(c(n)), want, '(a %s b)(%r)' % (case['op'], c(n)), rel=1e-8,
              abs_=1e-8, scale=max(abs(ref_a[n]), abs(ref_b[n])))
    if a['cls'] != 'Curve':
        same(h.origin, c(build.origin_of(a)), 'origin of result')
        for n in union:
            close(h.day_count(c(n)), build.tau(a, n), 'year fraction',
                  abs_=1e-10)
    if a['cls'] in build.RATE:
        close(h.day_count(c(0), c(0) + h.forward_tenor),
              f.day_count(c(0), c(0) + f.forward_tenor), 'forward tenor') \
            if a['tenor'] is not None else None
    # interpolation is the one of the left operand
    if a['cls'] in PRICE:
        # beyond the last point it grows as the left operand
        last = max(union)
        for k in case['qs'][:2]:
            n = last + 1 + abs(k)
            close(h(c(n)), vals[-1] * growth(a, last, n),
                  'growth of (a %s b) up to %r' % (case['op'], c(n)),
                  rel=1e-7)
    else:
        res = dict(a, xs=union, ys=vals, origin=None if a['cls'] == 'Curve'
                   else build.origin_of(a))
        for n in build.queries(union, case['qs']):
            try:
                want = build.stored(res, n)
            except oracle.Undefined:
                continue
            close(h(c(n)), want, '(a %s b)(%r)'
                  % (case['op'], c(n)), rel=1e-7, abs_=1e-7,
                  scale=max(map(abs, vals)))
    same((state(f), state(g)), before, 'operands')
    if case['op'] in '+*' and a['cls'] == b['cls'] == 'DateCurve':
        k = op(g, f)
        for n in union:
            close2(h(c(n)), k(c(n)), 'commutativity', rel=1e-8, abs_=1e-8)
    if case['op'] == '+' and a['cls'] in ('Curve', 'DateCurve'):
        k = h - g
        for n in union:
            close(k(c(n)), ref_a[n], '(a + b) - b', rel=1e-7, abs_=1e-7,
                  scale=20 + abs(ref_b[n]))


@st.composite
def shift_cases(draw):
    cls = draw(st.sampled_from(CLS + ['CashRateCurve', 'HazardRateCurve',
                                      'DiscountFactorCurve',
                                      'TerminalVolatilityCurve',
                                      'DefaultProbabilityCurve',
                                      'MarginalDefaultProbabilityCurve']))
    kind = draw(st.sampled_from(['float', 'int'] if cls == 'Curve'
                                else gen.KINDS))
    log = 'log' in build.DEFAULT_IP[cls]
    s = spec(draw, cls, kind, draw(gen.bases), log)
    if log:
        s['ip'] = 'log_linear_scheme'
        if cls in build.PROB:
            s['ys'] = [y / 8.0 for y in s['ys']]
            s['ys'] = [y if y < 1 else 0.5 for y in s['ys']]
    return dict(s, delta=draw(st.one_of(st.integers(-400, 400), st.just(0))),
                spread=draw(st.booleans()), qs=draw(build.qs))


def check_shift(case, rec):
    c = gen.clock(case)
    f = operand(dict(case, spread=0))
    rec.label(case['cls'], case['kind'])
    rec.nt(len(case['xs']) > 1 and case['delta'] != 0)
    before = state(f)
    k = case['delta']
    g = f.shifted(c.offset(k)) if k else (
        f.shifted() if case['spread'] else f.shifted(c.offset(0)))
    same(list(g.domain), [c(n + k) for n in sorted(case['xs'])],
         'points of shifted curve')
    true(type(g) is type(f), 'type of shifted curve is %r', type(g))
    for n in case['xs']:
        close2(g(c(n + k)), f(c(n)), 'shifted value of %r' % c(n), rel=1e-9,
               abs_=1e-9)
    if case['cls'] in PRICE:
        last = max(case['xs']) + k
        for q in case['qs'][:2]:
            n = last + 1 + abs(q)
            close(g(c(n)), f(c(last - k)) * growth(case, last, n),
                  'growth of shifted curve up to %r' % c(n), rel=1e-7)
    if case['origin'] is None:
        for n in build.queries(case['xs'], case['qs']):
            if case['cls'] in PRICE and n > max(case['xs']):
                continue
            close2(g(c(n + k)), f(c(n)), 'value of curve without origin '
                   'shifted to %r' % c(n + k), rel=1e-7, abs_=1e-7)
    same(state(f), before, 'curve shifted')


FACETS = [
    Facet('arithmetic', cases(), check, 5000,
          rule='operands have different points, at least three in total'),
    Facet('shifted', shift_cases(), check_shift, 3000,
          rule='at least two points and a shift other than zero'),
]

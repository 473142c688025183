"""P02 curves behave like sorted mappings under updates"""
from hypothesis import strategies as st

import dcf
from vlib.core import Facet, close, close2, same, true, raises, fail
from vlib import gen, oracle, build

LIN = ['Curve', 'DateCurve', 'ZeroRateCurve', 'ShortRateCurve',
       'CashRateCurve', 'FlatIntensityCurve', 'HazardRateCurve',
       'TerminalVolatilityCurve', 'InstantaneousVolatilityCurve']
POS = ['ForwardCurve', 'DiscountFactorCurve', 'SurvivalProbabilityCurve',
       'MarginalSurvivalProbabilityCurve']
IPS = [None, None, 'linear', 'linear_scheme', 'constant', 'left', 'right',
       'nearest', 'zero', 'log_linear_scheme', 'zero_linear_scheme']


@st.composite
def cases(draw):
    cls = draw(st.sampled_from(LIN + LIN + POS))
    kind = draw(st.sampled_from(
        ['float', 'int'] if cls == 'Curve' else gen.KINDS))
    ipn = draw(st.sampled_from(IPS))
    name = ipn or build.DEFAULT_IP[cls]
    span = draw(st.sampled_from([10, 100, 3000]))
    pool = draw(gen.rarely(gen.many(12, 20 if span < 100 else 40,
                                    -span, span), st.lists(
        st.integers(-span, span), min_size=1, max_size=8, unique=True)))
    k = draw(st.integers(1, len(pool)))
    prob = cls in build.PROB
    pos = 'log' in name or cls in POS
    val = st.integers(1, 99).map(lambda i: i / 100.0) if prob else (
        st.integers(1, 400).map(lambda i: i / 64.0) if pos else
        st.integers(-400, 400).map(lambda i: i / 64.0))
    ys = draw(st.lists(val, min_size=k, max_size=k))
    if cls == 'Curve':
        origin = None
    elif 'rate' in name:
        origin = draw(st.integers(-span - 20, span))
        while origin in pool:
            origin -= 1
    else:
        origin = draw(st.one_of(st.none(), st.none(),
                                st.integers(-span - 20, span + 20)))
    at = st.integers(0, max(7, len(pool) - 1))
    op = st.one_of(
        st.tuples(st.just('set'), at, val),
        st.tuples(st.just('set'), at, val),
        st.tuples(st.just('set'), at, val),
        st.tuples(st.just('fix'), st.integers(0, 9), val),
        st.tuples(st.just('unfix'), st.integers(0, 9)),
        st.tuples(st.just('spread'), st.integers(-64, 64).map(
            lambda i: i / 256.0)),
        st.tuples(st.just('unspread')),
        st.tuples(st.just('bad'), at))
    ops = draw(gen.rarely(st.lists(op.map(list), min_size=16, max_size=40),
                          st.lists(op.map(list), min_size=1, max_size=15)))
    return {'cls': cls, 'kind': kind, 'base': draw(gen.bases), 'ip': ipn,
            'iphow': draw(st.sampled_from(['name', 'class'])),
            'xs': pool[:k], 'ys': ys, 'pool': pool, 'origin': origin,
            'dc': draw(gen.day_counts()) if cls != 'Curve' else None,
            'tuple': draw(st.booleans()), 'ops': ops, 'qs': draw(build.qs)}


def snapshot(c, curve, model, overlay, spec):
    """points reported by the curve"""
    xs = sorted(model)
    same([c.num(d) for d in curve.domain], xs, 'domain')
    same(list(curve.domain), [c(x) for x in xs], 'domain')
    same([d for d in curve], [c(x) for x in xs], 'iteration')
    for n in spec['pool']:
        d = c(n)
        same(d in curve, n in model, '%r in curve' % d)
        if n not in model:
            raises(KeyError, lambda: curve[d], 'reading point %r never given'
                   % d)
            continue
        if n in overlay['fix']:
            if overlay['spread'] is None:
                close(curve[d], overlay['fix'][n], 'curve[%r] fixed' % d)
            continue
        want = model[n] + (overlay['spread'] or 0.0)
        close(curve[d], want, 'curve[%r]' % d, rel=1e-9, abs_=1e-9)


def check(case, rec):
    c = gen.clock(case)
    curve = build.build(case, lived=False)
    model = dict(zip(case['xs'], case['ys']))
    overlay = {'fix': {}, 'spread': None}
    isdate = case['cls'] != 'Curve'
    israte = case['cls'] in build.RATE
    snapshot(c, curve, model, overlay, case)
    new = over = under = 0
    pos = 'log' in (case['ip'] or build.DEFAULT_IP[case['cls']])
    pool = case['pool']
    rec.label(case['cls'], case['kind'])
    for op in case['ops']:
        if op[0] == 'set':
            n = pool[op[1] % len(pool)]
            if n in model:
                over += 1
            else:
                new += 1
                if n < min(model):
                    rec.label('insert-before-first')
            if overlay['fix'] or overlay['spread'] is not None:
                under += 1
            read = curve.domain
            was = list(read)
            curve[c(n)] = op[2]
            model[n] = op[2]
            same(list(read), was, 'points read before an update')
        elif op[0] == 'bad':
            # value which is refused leaves the curve as it was
            n = pool[op[1] % len(pool)]
            raises((ValueError, TypeError), lambda: curve.__setitem__(
                c(n), -1.0 if pos else 'no number'), 'setting a bad value')
            rec.label('refused')
            origin = getattr(curve, 'origin', None)
            same(origin, None if not isdate else c(
                min(model) if case['origin'] is None else case['origin']),
                'origin after refused update')
        elif op[0] == 'fix' and isdate:
            n = pool[op[1]] if op[1] < len(pool) else max(pool) + op[1]
            curve.fixings[c(n)] = op[2]
            overlay['fix'][n] = op[2]
        elif op[0] == 'unfix' and isdate:
            n = pool[op[1]] if op[1] < len(pool) else max(pool) + op[1]
            curve.fixings.pop(c(n), None)
            overlay['fix'].pop(n, None)
        elif op[0] == 'spread' and israte:
            if overlay['spread'] is None:
                z = c(min(pool))
                curve.spread = dcf.DateCurve([z], [op[1]], 'constant')
                overlay['spread'] = op[1]
            else:
                raises(TypeError,
                       lambda: setattr(curve, 'spread', dcf.DateCurve(
                           [c(min(pool))], [op[1]])), 'second spread')
        elif op[0] == 'unspread' and israte:
            curve.spread = None
            overlay['spread'] = None
        else:
            continue
        snapshot(c, curve, model, overlay, case)
    if new:
        rec.label('insert')
    if over:
        rec.label('overwrite')
    if under:
        rec.label('update-under-overlay')
    rec.nt(new + over > 0 and len(model) > 1)

    # the points are those of a fresh curve
    if israte:
        curve.spread = None
    if isdate:
        curve.fixings.clear()
    final = dict(case, xs=sorted(model), ys=[model[n] for n in sorted(model)])
    fresh = build.build(final, lived=False)
    same(list(fresh.domain), list(curve.domain), 'domain of fresh curve')
    if isdate:
        same(curve.origin, fresh.origin, 'origin')
        same(curve.origin, c(build.origin_of(final)), 'origin')
    ys = [abs(y) for y in model.values()]
    for n in build.queries(final['xs'], case['qs']):
        d = c(n)
        try:
            want = build.stored(final, n)
        except oracle.Undefined:
            continue
        got = curve(d)
        if got is None or want is None:
            same(got, fresh(d), 'value at %r' % d)
            continue
        close2(got, fresh(d), 'value at %r' % d, rel=1e-9, abs_=1e-10,
               scale=max(ys))
        if case['cls'] == 'ForwardCurve' and n > max(model):
            want = model[max(model)]
        close(got, want, 'value at %r against reference' % d, rel=1e-8,
              abs_=1e-9, scale=max(ys))
    if isdate:
        got = curve(list(curve.domain))
        same(list(got), [curve(d) for d in curve.domain], 'curve of list')


FACETS = [
    Facet('history', cases(), check, 6000,
          rule='at least one point set after construction and two points in '
               'the end'),
]

"""cashflow lists of all types from JSON specs, for the pricing properties

spec = {type, kind, base, ...} with type
 fixed, rate (props.p15_cashflows), option, strategy, collar, legs
"""
from math import sqrt

from hypothesis import strategies as st

import dcf
from vlib import gen, build, options
from props import p15_cashflows as p15

z = st.one_of(*[st.integers(-15, 15).map(lambda i: i / 10.0)] * 6,
              st.just('zero'))


@st.composite
def fixed_specs(draw, kind, base, amounts=gen.notionals, **kw):
    xs = draw(gen.schedules(kind, lo=draw(st.integers(0, 50)), **kw))
    if draw(st.integers(0, 3)) == 0:
        xs = list(draw(st.permutations(xs)))
    return {'type': 'fixed', 'kind': kind, 'base': base, 'xs': xs,
            'ys': draw(st.lists(amounts, min_size=len(xs),
                                max_size=len(xs))),
            'origin': draw(st.one_of(st.none(), st.integers(-60, min(xs)))),
            'cls': draw(st.sampled_from(['CashFlowList',
                                         'FixedCashFlowList', 'payoffs'])),
            'tuple': draw(st.booleans())}


@st.composite
def rate_specs(draw, kind, base):
    return dict(draw(p15.rate_cases(kind, base)), type='rate')


@st.composite
def contingent_specs(draw, kind, base, types=('option', 'strategy',
                                              'collar')):
    typ = draw(st.sampled_from(types))
    xs = draw(gen.schedules(kind, lo=draw(st.integers(0, 50)), max_size=5))
    m = draw(options.model_specs(kind=kind, base=base))
    m['val'] = draw(st.integers(-70, max(xs)))
    origin = draw(st.one_of(st.none(), st.integers(-60, min(xs))))
    if origin is None and (typ == 'collar' and len(xs) == 1):
        origin = xs[0] - build.step_of(kind)
    spec = {'type': typ, 'kind': kind, 'base': base, 'xs': xs, 'm': m,
            'origin': origin, 'pay': draw(gen.offsets(kind)),
            'fix': draw(gen.offsets(kind)), 'tuple': draw(st.booleans()),
            'ys': draw(st.one_of(gen.notionals, st.lists(
                gen.notionals, min_size=len(xs), max_size=len(xs))))}
    if typ == 'option':
        spec['z'] = draw(st.one_of(z, st.lists(z, min_size=len(xs),
                                               max_size=len(xs))))
        spec['put'] = draw(st.booleans())
    elif typ == 'strategy':
        n = draw(st.integers(1, 3))
        spec['ys'] = draw(gen.notionals)
        spec['calls'] = draw(st.lists(z, min_size=n, max_size=n))
        spec['puts'] = draw(st.lists(z, max_size=2))
    else:
        spec['floor'] = draw(st.one_of(z, st.none()))
        spec['cap'] = draw(st.one_of(z, st.none()))
        spec['rate'] = draw(st.one_of(gen.rates, st.just(0)))
        spec['dc'] = draw(gen.day_counts(additive=kind in ('float', 'int')))
    return spec


@st.composite
def specs(draw, kind=None, base=None, types=('fixed', 'rate', 'contingent',
                                             'legs')):
    kind, base = kind or draw(gen.kinds), base or draw(gen.bases)
    typ = draw(st.sampled_from(types))
    if typ == 'fixed':
        return draw(fixed_specs(kind, base))
    if typ == 'rate':
        return draw(rate_specs(kind, base))
    if typ == 'contingent':
        return draw(contingent_specs(kind, base))
    if typ == 'collar':
        return draw(contingent_specs(kind, base, ('collar',)))
    sub = tuple(t for t in types if t != 'legs') or ('fixed', 'rate')
    legs = draw(st.lists(specs(kind, base, sub), min_size=1, max_size=3))
    return {'type': 'legs', 'kind': kind, 'base': base, 'legs': legs,
            'nest': draw(st.booleans())}


def seq_of(spec):
    return tuple if spec.get('tuple') else list


def _arg(spec, x):
    return seq_of(spec)(x) if isinstance(x, list) else x


def kwargs(spec):
    c = gen.clock(spec)
    kw = {}
    if spec['origin'] is not None:
        kw['origin'] = c(spec['origin'])
    for k, n in (('pay', 'pay_offset'), ('fix', 'fixing_offset')):
        o = gen.offset(c, spec[k])
        if o is not None:
            kw[n] = o
    return kw


def strike_list(spec, m, d, zs):
    t, f, v = m.tfv(d)
    cls = spec['m']['cls']
    s = v * sqrt(max(t, 0.0)) or (0.1 if 'LogNormal' in cls else
                                  0.1 * (abs(f) or 1))
    return [None if x is None else options.strike_near(
        x, f, s, cls, spec['m']['disp']) for x in zs]


def make(spec, val=None, model=None):
    """cashflow list of spec, models as of integer val if given"""
    typ = spec['type']
    if typ == 'fixed':
        return p15.make_fixed(spec)
    if typ == 'rate':
        return p15.make_rates(spec)
    if typ == 'legs':
        legs = [make(x, val) for x in spec['legs']]
        if spec['nest'] and len(legs) > 1:
            legs = [dcf.CashFlowLegList(legs[:2])] + legs[2:]
        return dcf.CashFlowLegList(legs)
    c = gen.clock(spec)
    m = options.Model(spec.get('m0', spec['m']))  # strikes are the same
    ref = c(spec['xs'][0])
    ds = _arg(spec, [c(n) for n in spec['xs']])
    kw = kwargs(spec)
    if model is None:
        sp = spec['m'] if val is None else dict(spec['m'], val=val)
        model = options.Model(sp).obj
    kw['payoff_model'] = model
    ys = _arg(spec, spec['ys'])
    if typ == 'option':
        many = isinstance(spec['z'], list)
        ks = strike_list(spec, m, ref, spec['z'] if many else [spec['z']])
        return dcf.OptionCashflowList(
            ds, ys, _arg(spec, ks) if many else ks[0], spec['put'], **kw)
    if typ == 'strategy':
        return dcf.OptionStrategyCashflowList(
            ds, ys, _arg(spec, strike_list(spec, m, ref, spec['calls'])),
            ys, _arg(spec, strike_list(spec, m, ref, spec['puts'])), **kw)
    floor, cap = strike_list(spec, m, ref, [spec['floor'], spec['cap']])
    if spec['dc']:
        kw['day_count'] = gen.day_count(spec['dc'])
    return dcf.ContingentRateCashFlowList(
        ds, ys, fixed_rate=spec['rate'], floor_strike=floor, cap_strike=cap,
        **kw)


def dates(spec):
    """integers of all payment dates"""
    if spec['type'] == 'legs':
        return sorted({n for x in spec['legs'] for n in dates(x)})
    return sorted(spec['xs'])


def leaves(spec):
    if spec['type'] == 'legs':
        return [y for x in spec['legs'] for y in leaves(x)]
    return [spec]


def flows(spec, val):
    """list of (integer, amount) as of valuation date val"""
    out = []
    c = gen.clock(spec)
    for x in leaves(spec):
        if x['type'] == 'rate':
            fwd = p15.forward(x, c)[1]
            for n, (d, y, s, e, yf, fd) in zip(x['xs'], p15.periods(x)):
                if n >= val:
                    r = x['rate'] + (fwd(fd) if fwd else 0.0)
                    out.append((n, y * yf * r))
            continue
        obj = make(x, val)
        for n in x['xs']:
            if n >= val:
                out.append((n, float(obj[c(n)])))
    return out


def discount(spec):
    """independent discount factor between integers, if simple"""
    if spec['cls'] == 'ZeroRateCurve':
        def g(n):
            return build.stored(spec, n) * build.tau(spec, n)
    elif spec['cls'] == 'DiscountFactorCurve':
        from math import log
        def g(n):
            o = build.origin_of(spec)
            return -log(build.stored(spec, n)) + log(build.stored(spec, o))
    else:
        return None
    from math import exp
    return lambda s, e: exp(g(s) - g(e))


def valuation_dates(xs, qs):
    s = sorted(xs)
    span = max(4, s[-1] - s[0])
    return sorted({s[0] - span // 4 + k * 3 * span // 128 for k in qs} |
                  {s[min(len(s) - 1, k % len(s))] + (k // 16 % 3 - 1)
                   for k in qs})

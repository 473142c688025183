"""P19 binary options"""
from math import sqrt

from hypothesis import strategies as st

from dcf import models
from dcf.models.optionpricing import (OptionPayOffModel, OptionPricingFormula,
                                      BinaryOptionPayOffModel)
from vlib.core import Facet, close, same, true, num, fail
from vlib import gen, build, options

ASSUMPTIONS = [
    'forwards and strikes of '
    'log-normal models are positive, also when shifted',
    'values are compared up to 1.6e-7 (approximated normal distribution in '
    'the code), call spreads and greeks up to cancellation and the errors of '
    'that approximation, derivatives or finite differences by the shift of '
    'the class']
NAMES = 'delta', 'gamma', 'vega', 'theta'
EPS = 2.3e-16
z = st.one_of(st.integers(-25, 25).map(lambda i: i / 10.0), st.just(0.0),
              st.just('zero'),              st.floats(-4, 4))


@st.composite
def cases(draw, classes=options.BINARY):
    spec = draw(options.model_specs(classes))
    far = build.span_of(spec['kind']) // 3
    return dict(
        spec, z=draw(st.lists(st.one_of(z, z, z, st.none()), min_size=1,
                              max_size=3)),
        exp=draw(st.one_of(st.integers(1, far), st.integers(0, far // 8),
                           st.sampled_from([0, 1, -1]))),
        shifts=draw(options.shift_specs()))


def strike(spec, zz, f, s):
    if zz is None:
        return None
    log = 'LogNormal' in spec['cls']
    return options.strike_near(
        zz, f, s or (0.1 if log else abs(f) or 0.1), spec['cls'],
        spec['disp'])


def complement(obj, d, k, w):
    """put and call"""
    x, y = obj.get_call_value(d, k), obj.get_put_value(d, k)
    close(x + y, 1.0, 'put and call, ' + w, rel=1e-12)
    got = []
    for n in NAMES:
        p = num(getattr(obj, 'get_call_' + n)(d, k), n)
        q = num(getattr(obj, 'get_put_' + n)(d, k), n)
        close(p + q, 0.0, '%s of put and call, %s' % (n, w), rel=1e-12,
              scale=p, abs_=1e-15)
        got.append(p)
    return num(x, w), got


def check_models(case, rec):
    c = gen.clock(case)
    cls, a = case['cls'], case['disp']
    m = options.Model(case)
    d = c(case['val'] + case['exp'])
    t, f, v = m.tfv(d)
    if t < 1e-3:
        case = dict(case, shifts=dict(case['shifts'], theta=None))
    attrs, at = options.attributes(case['shifts'], f, v, t, a)
    src = m.obj
    kw = {'displacement': a} if a else {}
    obj = type('Sub' + cls, (getattr(models, cls),), attrs)(
        src.valuation_date, src.forward_curve, src.volatility_curve,
        src.day_count, src.bump_greeks, **kw)
    live = bool(t > 0 and v)
    log = 'LogNormal' in cls
    h = at['DELTA_SHIFT']
    if log and f + a <= 2.0001 * h:
        return
    s = v * sqrt(max(t, 0.0))
    rec.label(options.short(cls), 'bump=%s' % case['bump'], case['scale'])
    scales = [at['DELTA_SCALE'], at['DELTA_SCALE'] ** 2, at['VEGA_SCALE'],
              at['THETA_SCALE']]
    curve = []
    for zz in case['z']:
        k = strike(case, zz, f, s)
        kk = f if k is None else k
        w = 'strike %r, time %r, forward %r, volatility %r' % (k, t, f, v)
        value, got = complement(obj, d, k, w)
        want = options.prob(cls, t, kk, f, v, a)
        flat = not live or 'Intrinsic' in cls
        close(value, want, 'binary call, ' + w, rel=0,
              abs_=1e-12 if flat else 1.6e-7)
        true(-1e-12 <= value <= 1 + 1e-12, 'binary call %r outside of [0, 1]'
             ', %s', value, w)
        curve.append((kk, value))
        if not live:
            rec.label('at expiry or without volatility')
            for n, g in zip(NAMES, got):
                close(g, 0.0, n + ', ' + w)
            continue
        rec.nt(1e-3 < value < 1 - 1e-3)
        if not flat:
            close(obj(t, kk, f, v), value, 'model called with parameters',
                  rel=1e-12)
        an = options.binary_greeks(cls, t, kk, f, v, a)
        fd = options.numeric(
            lambda t, f, v: options.prob(cls, t, kk, f, v, a), t, f, v, at)
        u = s * (f + a) if log else s
        cross = 1.1e-9 if options.crossing(cls, t, kk, f, v, a, h) else 0.0
        noise = [6 * EPS / h + 3e-6 / u + cross / h,
                 12 * EPS / h / h + 1e-4 / u / u + 2 * cross / h / h,
                 6 * EPS / at['VEGA_SHIFT'] + 1.6e-7 / at['VEGA_SHIFT'],
                 6 * EPS / at['THETA_SHIFT'] + 1.6e-7 / at['THETA_SHIFT']]
        for i, n in enumerate(NAMES):
            if not case['bump'] and i != 3 and not (i == 1 and log):
                close(got[i] / scales[i], an[i], n + ', ' + w, rel=1e-9,
                      abs_=1e-12)
                continue
            lo, hi = min(an[i], fd[i]), max(an[i], fd[i])
            tol = noise[i] + 1e-9 * max(abs(lo), abs(hi)) + 0.05 * (hi - lo)
            if not lo - tol <= got[i] / scales[i] <= hi + tol:
                fail('%s, %s: got %r, expected %r (derivative) or %r (finite '
                     'difference), tol %.3g', n, w, got[i] / scales[i],
                     an[i], fd[i], tol)
    curve.sort()
    for p, q in zip(curve, curve[1:]):
        true(q[1] <= p[1] + 3.2e-7, 'binary call increases from strike %r to '
             '%r', p[0], q[0])


# ---- call spreads ------------------------------------------------------------

@st.composite
def spread_cases(draw):
    case = draw(cases(options.VANILLA))
    return dict(case, how=draw(st.sampled_from(
        ['model', 'model', 'mine', 'function', 'formula', 'subclass'])),
        shift=draw(st.sampled_from([None, 1e-4, 1e-3, 0.01, 0.1])),
        attr=draw(st.booleans()),
        over=draw(st.lists(st.booleans(), min_size=4, max_size=4)))


def check_spread(case, rec):
    c = gen.clock(case)
    cls, a = case['cls'], case['disp']
    m = options.Model(case)
    d = c(case['val'] + case['exp'])
    t, f, v = m.tfv(d)
    if t < 1e-3:
        case = dict(case, shifts=dict(case['shifts'], theta=None))
    attrs, at = options.attributes(case['shifts'], f, v, t, a)
    src = m.obj
    log = 'LogNormal' in cls
    s = v * sqrt(max(t, 0.0))
    u = (s or 0.1) * (f + a) if log else (s or abs(f) or 0.1)
    shift, arg = 0.0001, None
    if case['shift']:
        shift = case['shift'] * u
        if case['attr']:
            attrs['STRIKE_SHIFT'] = shift
        else:
            arg = shift
    how = case['how']

    def price(time, strike, forward, volatility):
        return options.call(cls, time, strike, forward, volatility, a)
    pars = {'valuation_date': src.valuation_date,
            'forward_curve': src.forward_curve,
            'volatility_curve': src.volatility_curve,
            'day_count': src.day_count}
    inner, kw = src, {}
    if how == 'model':
        # some parameters given, others taken over
        # (volatility zero and missing are the same, too)
        other = {'valuation_date': c(case['val'] - 9),
                 'forward_curve': src.forward_curve * 1.5
                 if isinstance(src.forward_curve, (int, float)) else
                 (lambda _: 0.03),
                 'volatility_curve': 0.5,
                 'day_count': lambda s, e: 3.0}
        ikw = dict(pars)
        for (k, x), flag in zip(sorted(other.items()), case['over']):
            if flag and pars[k] is not None:
                ikw[k], kw[k] = x, pars[k]
        if a:
            ikw['displacement'] = a
        inner = type(src)(**ikw)
        kw = {k: x for k, x in kw.items() if x is not None}
    elif how == 'mine':
        inner = type('Mine', (OptionPayOffModel,),
                     {'_call_price': staticmethod(price)})(**pars)
    elif how == 'function':
        inner, kw = price, pars
    elif how == 'formula':
        typ = OptionPricingFormula.from_function(price)
        true(issubclass(typ, OptionPricingFormula), 'type from function')
        inner, kw = typ(), pars
    else:
        typ = type('Formula', (OptionPricingFormula,),
                   {'_call_price': staticmethod(price)})
        inner, kw = typ(), pars
    obj = type('Sub', (BinaryOptionPayOffModel,), attrs)(
        inner, strike_shift=arg, **kw)
    amp = 1.0 if how == 'model' and 'Intrinsic' not in cls else 0.0
    live = bool(t > 0 and v)
    h = at['DELTA_SHIFT']
    if log and f + a <= 2.0001 * h:
        return
    rec.label(options.short(cls), how)
    scales = [at['DELTA_SCALE'], at['DELTA_SCALE'] ** 2, at['VEGA_SCALE'],
              at['THETA_SCALE']]
    curve = []
    for zz in case['z']:
        k = strike(case, zz, f, s)
        kk = f if k is None else k
        if log and kk + a <= shift:
            continue
        w = 'strike %r, time %r, forward %r, volatility %r' % (k, t, f, v)
        value, got = complement(obj, d, k, w)
        p = options.prob(cls, t, kk, f, v, a)
        if not live:
            close(value, p, 'binary call, ' + w, rel=1e-12)
            for n, g in zip(NAMES, got):
                close(g, 0.0, n + ', ' + w)
            continue

        def spread(t, f, v):
            return (price(t, kk - shift / 2, f, v) -
                    price(t, kk + shift / 2, f, v)) / shift
        q = spread(t, f, v)
        lv = abs(f) + abs(kk) + 2 * abs(a) + (0.0 if log else s)
        uu = s * (min(f, kk) + a) if log else u
        r = 8 * EPS * lv / shift
        cross = options.crossing(cls, t, kk, f, v, a, shift + h)
        x = options.distance(kk, f, s, cls, a) + 1
        g = lv if log else u
        jump = 4e-9 * lv / shift if cross else 0.0
        tol = r + amp * (3e-6 * x * g / uu + jump) + 1e-9 + \
            0.05 * abs(p - q)
        if 'Intrinsic' in cls:
            close(value, q, 'call spread, ' + w, rel=0, abs_=r + 1e-9)
        elif not min(p, q) - tol <= value <= max(p, q) + tol:
            fail('call spread, %s: got %r, expected %r (probability) or %r '
                 '(spread of closed formula), tol %.3g', w, value, p, q, tol)
        # bounds follow from the prices
        true(-tol <= value <= 1 + tol, 'call spread %r outside of [0, 1], '
             '%s', value, w)
        if k is not None:
            close(obj(t, kk, f, v), value, 'called with parameters',
                  rel=1e-12)
        curve.append((kk, value, tol))
        rec.nt(tol < 1e-2 < value < 1 - 1e-2)
        if 'Intrinsic' in cls:
            continue
        an = options.binary_greeks(cls, t, kk, f, v, a)
        fd = options.numeric(spread, t, f, v, at)
        noise = [3 * r / h + amp * (1e-4 * x * g / uu / uu + jump / h),
                 6 * r / h / h + amp * (2e-3 * x * g / uu ** 3 +
                                        2 * jump / h / h),
                 3 * r / at['VEGA_SHIFT'] + amp * 6e-6 * x * g / uu /
                 at['VEGA_SHIFT'] + jump * amp / at['VEGA_SHIFT'],
                 3 * r / at['THETA_SHIFT'] + amp * 6e-6 * x * g / uu /
                 at['THETA_SHIFT'] + jump * amp / at['THETA_SHIFT']]
        for i, n in enumerate(NAMES):
            lo, hi = min(an[i], fd[i]), max(an[i], fd[i])
            tol = noise[i] + 1e-8 * max(abs(lo), abs(hi)) + 0.05 * (hi - lo)
            if not lo - tol <= got[i] / scales[i] <= hi + tol:
                fail('%s, %s: got %r, expected %r (derivative) or %r (finite '
                     'difference), tol %.3g', n, w, got[i] / scales[i],
                     an[i], fd[i], tol)
            if abs(an[i]) > 20 * tol:
                rec.label('significant ' + n)
    curve.sort()
    for p, q in zip(curve, curve[1:]):
        true(q[1] <= p[1] + p[2] + q[2], 'binary call increases from strike '
             '%r to %r', p[0], q[0])


FACETS = [
    Facet('models', cases(), check_models, 5000,
          rule='a probability between 0.001 and 0.999'),
    Facet('spreads', spread_cases(), check_spread, 5000,
          rule='a probability between 0.01 and 0.99, known better than 0.01'),
]

"""P18 greeks of vanilla models"""
from math import sqrt

from hypothesis import strategies as st

from dcf import models
from dcf.models.optionpricing import OptionPayOffModel
from vlib.core import Facet, close, same, true, num, fail
from vlib import gen, build, options
from vlib.oracle import npdf

ASSUMPTIONS = [
    'numerical greeks lie between derivative and finite difference for the '
    'shift of the class (taken of closed formulas with an exact normal '
    'distribution), up to cancellation and the errors of the approximated '
    'normal distribution in the code (7.5e-8, its derivatives 3e-6, 6e-5)',
    'the forward stays positive for log-normal models when shifted twice']
NAMES = 'delta', 'gamma', 'vega', 'theta'
z = st.one_of(st.integers(-25, 25).map(lambda i: i / 10.0), st.just(0.0),
              st.just('zero'),              st.floats(-4, 4))


@st.composite
def cases(draw):
    spec = draw(options.model_specs())
    far = build.span_of(spec['kind']) // 3
    return dict(
        spec, z=draw(st.one_of(z, z, z, st.none())),
        exp=draw(st.one_of(st.integers(1, far), st.integers(0, far // 8),
                           st.sampled_from([0, 1, -1]))),
        shifts=draw(options.shift_specs()),
        how=draw(st.sampled_from(['class', 'class', 'function', 'some'])),
        given=draw(st.lists(st.booleans(), min_size=4, max_size=4)))


def make(case, m, attrs):
    """model with class attributes of case, maybe user defined formulas"""
    cls, a = case['cls'], case['disp']
    base = getattr(models, cls)
    src = m.obj
    if case['how'] == 'class':
        kind = type('Sub' + cls, (base,), attrs)
        kw = {'displacement': a} if a else {}
    else:
        def price(time, strike, forward, volatility):
            return options.call(cls, time, strike, forward, volatility, a)
        kw = {}
        if case['how'] == 'function':
            kind = OptionPayOffModel.from_function(price)
            for k, v in attrs.items():
                setattr(kind, k, v)
        else:
            body = dict(attrs)
            body['_call_price'] = staticmethod(price)
            for i, (g, n) in enumerate(zip(case['given'], NAMES)):
                if g:
                    body['_call_' + n] = staticmethod(
                        lambda t, k, f, v, i=i: options.greeks(
                            cls, t, k, f, v, a)[i])
            kind = type('Mine', (OptionPayOffModel,), body)
    return kind(src.valuation_date, src.forward_curve, src.volatility_curve,
                src.day_count, src.bump_greeks, **kw)


def check(case, rec):
    c = gen.clock(case)
    cls, a = case['cls'], case['disp']
    m = options.Model(case)
    d = c(case['val'] + case['exp'])
    t, f, v = m.tfv(d)
    if t < 1e-3:
        case = dict(case, shifts=dict(case['shifts'], theta=None))
    attrs, at = options.attributes(case['shifts'], f, v, t, a)
    obj = make(case, m, attrs)
    live = bool(t > 0 and v)
    log = 'LogNormal' in cls
    h = at['DELTA_SHIFT']
    if log and f + a <= 2.0001 * h:
        return
    s = v * sqrt(max(t, 0.0))
    k = None
    if case['z'] is not None:
        k = options.strike_near(
            case['z'], f, s or (0.1 if log else abs(f) or 0.1), cls, a)
    kk = f if k is None else k
    scales = [at['DELTA_SCALE'], at['DELTA_SCALE'] ** 2, at['VEGA_SCALE'],
              at['THETA_SCALE']]
    got = [num(getattr(obj, 'get_call_' + n)(d, k), n) for n in NAMES]
    put = [num(getattr(obj, 'get_put_' + n)(d, k), n) for n in NAMES]
    rec.label(options.short(cls), 'bump=%s' % case['bump'], case['how'],
              case['scale'])
    close(put[0], got[0] - scales[0], 'put delta', rel=1e-12,
          scale=scales[0])
    for i in (1, 2, 3):
        close(put[i], got[i], 'put ' + NAMES[i], rel=1e-12)
    if not live:
        rec.label('intrinsic')
        close(got[0], 0.0 if f < kk else scales[0], 'delta', rel=1e-12)
        for i in (1, 2, 3):
            close(got[i], 0.0, NAMES[i])
        return
    an = options.greeks(cls, t, kk, f, v, a)
    fd = options.numeric(lambda t, f, v: options.call(cls, t, kk, f, v, a),
                         t, f, v, at)
    # what is derived by formula has to be the formula
    formula = [not case['bump']] * 4
    if case['how'] == 'class':
        pass
    elif case['how'] == 'function':
        formula = [False] * 4
    else:
        formula = [x and y for x, y in zip(formula, case['given'])]
    exact = case['how'] != 'class'  # price is exact
    lv = abs(f) + abs(kk) + 2 * abs(a) + (0.0 if log else s)
    u = s * (f + a) if log else s  # standard deviation
    x = options.distance(k, f, s, cls, a) + 1
    eps = 2.3e-16
    cross = options.crossing(cls, t, kk, f, v, a, h)
    amp = 0.0 if exact or 'Intrinsic' in cls else 1.0
    noise = [
        10 * eps * lv / h + amp * (3e-6 * x * (lv / u if log else 1.0) +
                                   (4e-9 * lv / h if cross else 0.0)),
        30 * eps * lv / h / h + amp * (
            6e-5 * x * (lv / u / u if log else 0.5 / u) +
            (8e-9 * lv / h / h if cross else 0.0)),
        10 * eps * lv / at['VEGA_SHIFT'] + amp * 1.6e-7 * lv
        / at['VEGA_SHIFT'],
        10 * eps * lv / at['THETA_SHIFT'] + amp * 1.6e-7 * lv
        / at['THETA_SHIFT']]
    for i, n in enumerate(NAMES):
        sc = scales[i]
        w = '%s at strike %r, time %r, forward %r, volatility %r' % (
            n, k, t, f, v)
        if formula[i] and not (case['how'] == 'class' and (
                i == 3 or (i == 1 and log))):
            tol = 1.6e-7 if i == 0 and amp else 0.0
            close(got[i] / sc, an[i], w, rel=1e-9, abs_=tol + 1e-13,
                  scale=an[i])
            rec.nt(abs(an[i]) > 1e-3 * (1 if i == 0 else abs(an[i])))
            continue
        lo, hi = min(an[i], fd[i]), max(an[i], fd[i])
        tol = noise[i] + 1e-9 * max(abs(lo), abs(hi)) + 0.05 * (hi - lo)
        if not lo - tol <= got[i] / sc <= hi + tol:
            fail('%s: got %r, expected %r (derivative) or %r (finite '
                 'difference), tol %.3g', w, got[i] / sc, an[i], fd[i], tol)
        rec.nt(abs(an[i]) > 20 * tol)


FACETS = [Facet('greeks', cases(), check, 6000,
                rule='a greek that is large against its tolerance')]

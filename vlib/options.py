"""option models from JSON specs and independent closed formulas

model spec = {cls, kind, base, val, scale, fwd, vol, dc, bump, disp}
 fwd = {how, ...}: number | function | price | rate | curve (callable curve)
 vol = {how, ...}: number | function | terminal | curve
"""
from math import exp, log, sqrt

from hypothesis import strategies as st

from dcf import models
from vlib import gen, build
from vlib.oracle import ncdf, npdf

VANILLA = ['NormalOptionPayOffModel', 'LogNormalOptionPayOffModel',
           'DisplacedLogNormalOptionPayOffModel',
           'IntrinsicOptionPayOffModel']
BINARY = ['BinaryNormalOptionPayOffModel', 'BinaryLogNormalOptionPayOffModel',
          'BinaryDisplacedLogNormalOptionPayOffModel',
          'BinaryIntrinsicOptionPayOffModel']


def short(cls):
    return cls.replace('OptionPayOffModel', '')


# ---- closed formulas ---------------------------------------------------------

def call(cls, t, k, f, v, a=0.0):
    """undiscounted call value, t, v may be zero"""
    if t <= 0 or not v or 'Intrinsic' in cls:
        return max(f - k, 0.0)
    s = v * sqrt(t)
    if 'LogNormal' in cls:
        if 'Displaced' in cls:
            f, k = f + a, k + a
        d = log(f / k) / s + s / 2
        return f * ncdf(d) - k * ncdf(d - s)
    d = (f - k) / s
    return (f - k) * ncdf(d) + s * npdf(d)


def prob(cls, t, k, f, v, a=0.0):
    """probability to end above strike"""
    if t <= 0 or not v or 'Intrinsic' in cls:
        return 0.0 if f <= k else 1.0
    s = v * sqrt(t)
    if 'LogNormal' in cls:
        if 'Displaced' in cls:
            f, k = f + a, k + a
        return ncdf(log(f / k) / s - s / 2)
    return ncdf((f - k) / s)


def greeks(cls, t, k, f, v, a=0.0):
    """delta, gamma, vega, theta (by time to expiry) of the call"""
    if t <= 0 or not v or 'Intrinsic' in cls:
        return (0.0 if f < k else 1.0), 0.0, 0.0, 0.0
    s = v * sqrt(t)
    if 'LogNormal' in cls:
        if 'Displaced' in cls:
            f, k = f + a, k + a
        d = log(f / k) / s + s / 2
        vega = f * sqrt(t) * npdf(d)
        return ncdf(d), npdf(d) / (f * s), vega, vega * v / (2 * t)
    d = (f - k) / s
    vega = sqrt(t) * npdf(d)
    return ncdf(d), npdf(d) / s, vega, vega * v / (2 * t)


def binary_greeks(cls, t, k, f, v, a=0.0):
    if t <= 0 or not v or 'Intrinsic' in cls:
        return 0.0, 0.0, 0.0, 0.0
    s = v * sqrt(t)
    if 'LogNormal' in cls:
        if 'Displaced' in cls:
            f, k = f + a, k + a
        d = log(f / k) / s - s / 2
        dd = -log(f / k) / s / s - 0.5  # d d / d s
        delta = npdf(d) / (f * s)
        gamma = -delta / f * (1 + d / s)
    else:
        d = (f - k) / s
        dd = -d / s
        delta = npdf(d) / s
        gamma = -d * npdf(d) / s ** 2
    return delta, gamma, npdf(d) * dd * sqrt(t), \
        npdf(d) * dd * v / (2 * sqrt(t))


# ---- specs -------------------------------------------------------------------

@st.composite
def curve_values(draw, kind, base, values, cls, dc=None, span=None, ip=None):
    span = span or max(8, build.span_of(kind) // 3)
    xs = draw(gen.axis(1, 4, 0, span))
    return {'cls': cls, 'kind': kind, 'base': base, 'xs': xs,
            'ys': [draw(values) for _ in xs], 'dc': dc, 'ip': ip,
            'origin': draw(st.sampled_from([min(xs), min(xs) - 1,
                                            min(xs) - build.step_of(kind)])),
            'tenor': draw(build.tenors(kind, False)),
            'tuple': draw(st.booleans())}


@st.composite
def model_specs(draw, classes=VANILLA, kind=None, base=None, scale=None,
                number_only=False, zero=True):
    cls = draw(st.sampled_from(classes))
    kind, base = kind or draw(gen.kinds), base or draw(gen.bases)
    scale = scale or draw(st.sampled_from(['rate', 'price']))
    lognormal = 'LogNormal' in cls and 'Displaced' not in cls
    if scale == 'rate':
        level = gen.dec(0.001 if lognormal else -0.02, 0.1, 1e-4)
        vols = gen.dec(0.001, 0.03, 1e-4)
    else:
        level = gen.dec(1 if lognormal else -20, 200, 0.25)
        vols = gen.dec(0.5, 60, 0.25)
    if 'LogNormal' in cls:
        vols = gen.dec(0.02, 1.0, 0.01)
    dcs = gen.day_counts(additive=kind in ('float', 'int'))
    hows = ['number', 'number', 'function', 'curve',
            'rate' if scale == 'rate' else 'price']
    how = 'number' if number_only else draw(st.sampled_from(hows))
    if how in ('number', 'function'):
        f = {'how': how, 'y': draw(level)}
        if scale == 'price' and draw(st.booleans()):
            f['y'] = int(f['y']) or 1
    else:
        name = {'curve': 'DateCurve', 'price': 'ForwardCurve',
                'rate': 'CashRateCurve'}[how]
        pos = level if how != 'price' else gen.dec(1, 200, 0.25)
        f = dict(draw(curve_values(kind, base, pos, name,
                                   draw(gen.day_counts()))),
                 how=how)
    low = f['y'] if 'y' in f else min(f['ys'])
    vhow = 'number' if number_only else draw(st.sampled_from(
        ['number', 'number', 'function', 'terminal', 'curve']))
    if vhow in ('number', 'function'):
        v = {'how': vhow, 'y': draw(vols)}
    else:
        name = {'terminal': 'TerminalVolatilityCurve',
                'curve': 'DateCurve'}[vhow]
        v = dict(draw(curve_values(kind, base, vols, name,
                                   draw(gen.day_counts()))),
                 how=vhow)
    if zero and draw(st.integers(0, 15)) == 0:
        v = {'how': 'number', 'y': draw(st.sampled_from([0, 0.0, None]))}
    spec = {'cls': cls, 'kind': kind, 'base': base, 'scale': scale,
            'fwd': f, 'vol': v, 'dc': draw(dcs), 'bump': draw(
                st.sampled_from([None, False, True])),
            'val': draw(st.integers(-build.step_of(kind), build.step_of(kind)
                                    * 8)), 'disp': 0.0}
    if 'Displaced' in cls:
        unit = 0.01 if scale == 'rate' else 1.0
        spec['disp'] = draw(st.sampled_from([3, 1, 5])) * unit + max(
            0.0, -low)
        if low >= 0.1 * unit and draw(st.integers(0, 3)) == 0:
            spec['disp'] = 0.0  # by default
    return spec


def fwd_source(spec):
    """forward curve argument, and what it says at integer n"""
    c, f = gen.clock(spec), spec['fwd']
    how = f['how']
    if how == 'number':
        return f['y'], lambda d: float(f['y'])
    if how == 'function':
        def fn(d):
            return f['y'] + abs(f['y']) * (int(c.num(d)) % 97) / 500.0
        return fn, fn
    x = build.build(f)
    if how == 'rate':
        return x, x.get_cash_rate
    return x, x


def vol_source(spec):
    c, f = gen.clock(spec), spec['vol']
    how = f['how']
    if how == 'number':
        return f['y'], lambda d: float(f['y'] or 0.0)
    if how == 'function':
        def fn(d):
            return f['y'] * (1 + (int(c.num(d)) % 89) / 200.0)
        return fn, fn
    x = build.build(f)
    if how == 'terminal':
        return x, x.get_terminal_vol
    return x, x


def model_dc(spec):
    """name of the day count which counts for the model"""
    if spec['dc']:
        return spec['dc']
    for x in (spec['vol'], spec['fwd']):
        if x['how'] not in ('number', 'function'):
            return x['dc']
    return None


class Model(object):
    """real model of a spec, and independent parameters"""

    def __init__(self, spec, **kwargs):
        self.spec = spec
        self.c = gen.clock(spec)
        self.fwd, self._f = fwd_source(spec)
        self.vol, self._v = vol_source(spec)
        kw = {'valuation_date': self.c(spec['val']),
              'forward_curve': self.fwd, 'volatility_curve': self.vol}
        if spec['dc']:
            kw['day_count'] = gen.day_count(spec['dc'])
        if spec['bump'] is not None:
            kw['bump_greeks'] = spec['bump']
        if spec['disp']:
            kw['displacement'] = spec['disp']
        kw.update(kwargs)
        self.obj = getattr(models, spec['cls'])(**kw)

    def tfv(self, d):
        """time, forward, volatility at expiry date d"""
        t = gen.frac(model_dc(self.spec), self.c, self.c(self.spec['val']), d)
        return t, self._f(d), self._v(d)


def strike_near(draw_, f, s, cls, a=0.0):
    """strike a few standard deviations s from forward, admissible

    or 'zero' for a strike of exactly zero, if admissible
    """
    if draw_ == 'zero':
        if 'LogNormal' not in cls or a > 0 and -12 * s < log(
                a / (f + a)) < 12 * s:
            return 0.0
        draw_ = 0.3
    if 'LogNormal' in cls:
        return (f + a) * exp(max(-12.0, min(12.0, draw_ * s))) - a
    return f + draw_ * s


def distance(k, f, s, cls, a=0.0):
    """inverse of strike_near, at most 12"""
    if k is None or not s:
        return 0.0
    if 'LogNormal' in cls:
        return min(12.0, abs(log((k + a) / (f + a)) / s))
    return min(12.0, abs((k - f) / s))


# ---- greeks as derivatives or finite differences -----------------------------

@st.composite
def shift_specs(draw):
    """class attributes of a model (relative to forward resp. volatility)"""
    one = st.sampled_from([1e-4, 0.01, 1.0, 100.0, 0.5])
    return {'delta': draw(st.sampled_from([None, 1e-4, 1e-3, 0.01, 0.05])),
            'vega': draw(st.sampled_from([None, 1e-3, 0.01, 0.1])),
            'theta': draw(st.sampled_from([None, 1e-3, 0.01, 0.1])),
            'scales': draw(st.one_of(st.none(), st.lists(
                one, min_size=3, max_size=3)))}


def attributes(shifts, f, v, t, a=0.0):
    """class attributes to set, and all values in use"""
    d = {}
    for k, x in (('delta', abs(f + a) or 1.0), ('vega', v or 0.1),
                 ('theta', t if t > 0 else 0.1)):
        if shifts[k]:
            d[k.upper() + '_SHIFT'] = shifts[k] * x
    if shifts['scales']:
        for k, x in zip(('DELTA', 'VEGA', 'THETA'), shifts['scales']):
            d[k + '_SCALE'] = x
    day = 1 / 365.25
    full = {'DELTA_SHIFT': 0.0001, 'DELTA_SCALE': 0.0001,
            'VEGA_SHIFT': 0.01, 'VEGA_SCALE': 0.01,
            'THETA_SHIFT': day, 'THETA_SCALE': day}
    full.update(d)
    return d, full


def numeric(price, t, f, v, at):
    """finite difference delta, gamma, vega, theta of price(t, f, v)"""
    h = at['DELTA_SHIFT']
    p = price(t, f, v)
    up = price(t, f + h, v)
    return ((up - p) / h, (up - 2 * p + price(t, f - h, v)) / h / h,
            (price(t, f, v + at['VEGA_SHIFT']) - p) / at['VEGA_SHIFT'],
            (price(t + at['THETA_SHIFT'], f, v) - p) / at['THETA_SHIFT'])


def crossing(cls, t, k, f, v, a, h):
    """does a normal argument change sign within f +/- h"""
    if t <= 0 or not v:
        return True
    s = v * sqrt(t)

    def args(x):
        if 'LogNormal' in cls:
            d = log((x + a) / (k + a)) / s
            return d + s / 2, d - s / 2
        return ((x - k) / s,)
    lo, hi = args(f - h), args(f + h)
    return any(x <= 1e-9 and y >= -1e-9 for x, y in zip(lo, hi))

"""builds real dcf curves from JSON specs, and their documented defaults

spec = {cls, kind, base, xs, ys, origin, dc, ip, tenor}
 xs, origin : integers of the clock;  tenor: string (BusinessDate) or integer
"""
from hypothesis import strategies as st

import businessdate as bd
import dcf
from vlib import gen, oracle

IR = ['DiscountFactorCurve', 'ZeroRateCurve', 'ShortRateCurve',
      'CashRateCurve']
CREDIT = ['SurvivalProbabilityCurve', 'DefaultProbabilityCurve',
          'FlatIntensityCurve', 'HazardRateCurve',
          'MarginalSurvivalProbabilityCurve',
          'MarginalDefaultProbabilityCurve']
VOL = ['TerminalVolatilityCurve', 'InstantaneousVolatilityCurve']
RATE = IR + CREDIT + VOL

DEFAULT_IP = {
    'Curve': 'linear_scheme', 'DateCurve': 'linear_scheme',
    'ForwardCurve': 'log_linear_scheme', 'FxForwardCurve': 'log_linear_scheme',
    'DiscountFactorCurve': 'log_linear_rate_scheme',
    'ZeroRateCurve': 'linear_scheme', 'ShortRateCurve': 'constant',
    'CashRateCurve': 'linear_scheme',
    'SurvivalProbabilityCurve': 'log_linear_rate_scheme',
    'DefaultProbabilityCurve': 'log_linear_rate_scheme',
    'FlatIntensityCurve': 'linear_scheme', 'HazardRateCurve': 'constant',
    'MarginalSurvivalProbabilityCurve': 'log_linear_scheme',
    'MarginalDefaultProbabilityCurve': 'log_linear_scheme',
    'TerminalVolatilityCurve': 'linear_scheme',
    'InstantaneousVolatilityCurve': 'linear_scheme',
}
PROB = {'SurvivalProbabilityCurve', 'DefaultProbabilityCurve',
        'MarginalSurvivalProbabilityCurve', 'MarginalDefaultProbabilityCurve'}
COMPLEMENT = {'DefaultProbabilityCurve', 'MarginalDefaultProbabilityCurve'}
FROM_ORIGIN = {'DiscountFactorCurve', 'SurvivalProbabilityCurve',
               'DefaultProbabilityCurve'}


def tenor(spec_tenor, c):
    """period object of the kind of dates of clock c"""
    if spec_tenor is None:
        return None
    if isinstance(spec_tenor, str):
        return bd.BusinessPeriod(spec_tenor)
    return c.offset(spec_tenor)


def ip_arg(name, how='name'):
    if name is None:
        return None
    from dcf import interpolation as ip
    return name if how == 'name' else getattr(ip, name)


def lively(spec):
    """whether the curve of spec gets its values by updates after queries"""
    xs = spec['xs']
    return spec['cls'] not in COMPLEMENT and len(xs) <= 12 and \
        len(set(xs)) == len(xs) and (sum(xs) + len(xs)) % 6 == 5


def enliven(curve, spec, c):
    """query, then update all points to the values of spec"""
    xs = [c(n) for n in spec['xs']]
    a, b = min(xs), max(xs)
    few = spec['cls'] in ('ShortRateCurve', 'HazardRateCurve')
    for name in QUERIES:
        f = getattr(curve, name, None)
        for args in ((a, b), (a,), (b,))[few:]:
            try:
                f(*args)
            except Exception:
                pass  # not for all curves and all numbers of arguments
    for x, y in zip(xs, spec['ys']):
        curve[x] = y
    return curve


QUERIES = ['__call__', 'get_discount_factor', 'get_zero_rate',
           'get_cash_rate', 'get_survival_prob', 'get_flat_intensity',
           'get_terminal_vol', 'get_forward_price', 'integrate']


def build(spec, cls=None, lived=None, **extra):
    """dcf curve of spec

    some of them (by spec) are built on other values, queried and updated
    """
    if lived is None:
        lived = lively(spec)
    if lived:
        first = dict(spec, ys=[y ** 0.5 if spec['cls'] in FROM_ORIGIN | PROB
                               else y / 2 for y in spec['ys']])
        return enliven(build(first, cls, False, **extra), spec,
                       gen.clock(spec))
    c = gen.clock(spec)
    name = spec['cls']
    cls = cls or getattr(dcf, name)
    seq = tuple if spec.get('tuple') else list
    xs = seq(c(n) for n in spec['xs'])
    ys = seq(spec['ys'])
    kw = {}
    if spec.get('ip'):
        kw['interpolation'] = ip_arg(spec['ip'], spec.get('iphow', 'name'))
    if name != 'Curve':
        if spec.get('origin') is not None:
            kw['origin'] = c(spec['origin'])
        if spec.get('dc'):
            kw['day_count'] = gen.day_count(spec['dc'])
        if name in RATE and spec.get('tenor') is not None:
            kw['forward_tenor'] = tenor(spec['tenor'], c)
    kw.update(extra)
    curve = cls(xs, ys, **kw)
    scrap(xs)
    scrap(ys)
    return curve


def scrap(x):
    """change a list which was an argument, nothing may depend on it"""
    if isinstance(x, list):
        x.reverse()
        x[:1] = []


def origin_of(spec):
    return min(spec['xs']) if spec.get('origin') is None else spec['origin']


def tau(spec, s, e=None):
    """oracle year fraction on the curve of spec between integers"""
    if e is None:
        s, e = origin_of(spec), s
    return gen.yf(spec.get('dc'), gen.clock(spec), s, e)


def ip_name(spec):
    return spec.get('ip') or DEFAULT_IP[spec['cls']]


def stored(spec, n):
    """oracle: what curve(c(n)) of this spec is, may raise Undefined"""
    if spec['cls'] == 'Curve':
        pts = sorted((gen.clock(spec)(x), y)
                     for x, y in zip(spec['xs'], spec['ys']))
        x = gen.clock(spec)(n)
    else:
        pts = sorted((tau(spec, x), y)
                     for x, y in zip(spec['xs'], spec['ys']))
        x = tau(spec, n)
    if any(a[0] == b[0] for a, b in zip(pts, pts[1:])):
        raise oracle.Undefined()
    ys = [y for _, y in pts]
    if spec['cls'] in COMPLEMENT:
        ys = [1.0 - y for y in ys]
    if ip_name(spec) == 'nearest' and len(pts) > 1 and (
            spec.get('dc') or spec['kind'] not in ('float', 'int')):
        # ties are up to rounding of year fractions
        d = sorted(abs(a - x) for a, _ in pts)
        if d[1] - d[0] < 1e-9:
            raise oracle.Undefined()
    return oracle.value(ip_name(spec), [x for x, _ in pts], ys, x)


TENORS = ['1M', '3M', '6M', '1Y']


def tenors(kind, optional=True):
    if kind == 'bd':
        s = st.sampled_from(TENORS + ([None, None] if optional else []))
        return s
    if kind == 'int':
        return st.just(1)
    if kind == 'float':
        return st.sampled_from([16, 32, 64, 8])
    return st.sampled_from([91, 182, 365, 30])


def queries(xs, qs):
    """integers on, next to, between, before and beyond the points"""
    out = list(xs)
    s = sorted(xs)
    span = max(2, s[-1] - s[0])
    for k in qs:
        out.append(s[0] - span // 2 + k * 2 * span // 64)
    out.append((s[0] + s[-1]) // 2)
    return sorted(set(out))


qs = st.lists(st.integers(0, 64), min_size=1, max_size=5)


def span_of(kind):
    """integers of about 30 years"""
    return {'int': 30, 'float': 1920}.get(kind, 10958)


def step_of(kind):
    """integers of about a quarter"""
    return {'int': 1, 'float': 16}.get(kind, 91)


@st.composite
def data(draw, cls, kind, base, dc, origin, xs, repeat=False):
    """realistic values for points xs of a curve class"""
    from math import exp
    n = len(xs)
    if cls in PROB or cls in ('FlatIntensityCurve', 'HazardRateCurve'):
        r = draw(st.lists(gen.pos_rates, min_size=n, max_size=n))
    elif cls in VOL:
        r = draw(st.lists(st.one_of(gen.dec(0.01, 1.0, 0.01),
                                    st.floats(0.01, 1.0)),
                          min_size=n, max_size=n))
    else:
        r = draw(st.lists(gen.rates, min_size=n, max_size=n))
    if repeat:
        r = [r[0]] * n
    c = gen.Clock(kind, base)
    if cls in FROM_ORIGIN:
        o = min(xs) if origin is None else origin
        r = [exp(-a * (abs if cls in PROB else float)(gen.yf(dc, c, o, x)))
             for a, x in zip(r, xs)]
    elif cls in PROB:
        r = [exp(-a) for a in r]
    if cls in COMPLEMENT:
        r = [1.0 - a for a in r]
    return r


@st.composite
def rate_specs(draw, cls, kind=None, base=None, min_size=1, max_size=6,
               origins='before', dcs=None, ips=None, lo=0, xs=None,
               need_tenor=False):
    """spec of an interest rate, credit or volatility curve

    origins: 'before' (strictly before all points), 'first' (implicit),
             'any', 'mixed'
    """
    if isinstance(cls, (list, tuple)):
        cls = draw(st.sampled_from(cls))
    kind = kind or draw(gen.kinds)
    base = base or draw(gen.bases)
    dc = draw(gen.day_counts() if dcs is None else dcs)
    if xs is None:
        span = draw(st.sampled_from([span_of(kind), span_of(kind),
                                     max(8, span_of(kind) // 12)]))
        xs = draw(gen.axis(min_size, max_size, lo, lo + span))
    if origins == 'mixed':
        origins = draw(st.sampled_from(['before', 'before', 'first', 'any']))
    if origins == 'first':
        origin = draw(st.sampled_from([None, min(xs)]))
    elif origins == 'before':
        origin = min(xs) - draw(st.one_of(
            st.just(step_of(kind)), st.integers(1, 8 * step_of(kind))))
    else:
        origin = draw(st.integers(min(xs) - 8 * step_of(kind),
                                  max(xs) + 8 * step_of(kind)))
    ipn = draw(ips) if ips is not None else None
    return {'cls': cls, 'kind': kind, 'base': base, 'dc': dc, 'xs': xs,
            'origin': origin, 'ip': ipn,
            'ys': draw(data(cls, kind, base, dc, origin, xs)),
            'tenor': draw(tenors(kind, not need_tenor)),
            'tuple': draw(st.booleans())}


@st.composite
def discount_specs(draw, kind, base, cls=None, short=True, **kw):
    """interest rate curve which can discount over any dates of kind"""
    names = ['DiscountFactorCurve', 'ZeroRateCurve', 'ZeroRateCurve',
             'CashRateCurve']
    if short and kind == 'bd' and draw(st.integers(0, 19)) == 7:
        names = ['ShortRateCurve']  # takes long since it steps by days
    kw.setdefault('max_size', 4)
    spec = draw(rate_specs(cls or names, kind=kind, base=base,
                           need_tenor=True, **kw))
    if spec['cls'] == 'ShortRateCurve':
        spec['tenor'] = '1M'  # goes day by day
    return spec

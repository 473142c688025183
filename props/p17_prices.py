"""P17 option model prices"""
from math import exp, sqrt

from hypothesis import strategies as st

import dcf
from dcf import models
from vlib.core import Facet, close, close2, same, true
from vlib import gen, oracle, build, options
from vlib.oracle import npdf

ASSUMPTIONS = [
    'forwards and strikes of '
    'log-normal models are positive (after displacement)',
    'prices are compared up to 2e-7 of forward and strike since the normal '
    'distribution function of the code is an approximation to 7.5e-8']


def level(cls, f, k, a):
    return abs(f) + abs(k) + 2 * abs(a) if 'LogNormal' in cls else abs(f - k)


z = st.one_of(st.integers(-30, 30).map(lambda i: i / 10.0), st.just(0.0),
              st.just('zero'),              st.floats(-8, 8))


@st.composite
def cases(draw, **kw):
    spec = draw(options.model_specs(**kw))
    far = build.span_of(spec['kind'])
    return dict(spec, exp=draw(st.lists(
        st.one_of(st.integers(0, far), st.integers(0, far // 8),
                  st.sampled_from([0, 1, -1]), st.integers(-far // 8, 0)), min_size=2, max_size=2)),
        z=draw(st.lists(z, min_size=3, max_size=3)))


def strikes(case, t, f, v):
    a = case['disp']
    s = v * sqrt(max(t, 0.0)) or (0.1 if 'LogNormal' in case['cls'] else
                                  0.1 * (abs(f) or 1))
    return sorted({options.strike_near(x, f, s, case['cls'], a)
                   for x in case['z']})


def check(case, rec):
    c = gen.clock(case)
    cls, a = case['cls'], case['disp']
    m = options.Model(case)
    rec.label(options.short(cls), 'fwd=' + case['fwd']['how'],
              'vol=' + case['vol']['how'], case['kind'], case['scale'])
    for n in sorted(set(case['exp'])):
        d = c(case['val'] + n)
        t, f, v = m.tfv(d)
        info = m.obj.details(d, None)
        same(info['valuation date'], c(case['val']), 'valuation date')
        close(info['time to expiry'], t, 'time to expiry', rel=1e-12)
        if True:
            close(info['forward'], f, 'forward', rel=1e-12)
            same(info['fixing date'], d, 'fixing date')
        close(info['strike'], f, 'strike at the money', rel=1e-12)
        if v:
            close(info['volatility'], v, 'volatility', rel=1e-12)
        live = bool(t > 0 and v)
        ks = strikes(case, t, f, v)
        got = []
        for k in ks + [None]:
            w = 'strike %r expiry %r' % (k, d)
            kk = f if k is None else k
            if k is not None:
                same(m.obj.details(d, k)['strike'], k, 'strike')
            x, y = m.obj.get_call_value(d, k), m.obj.get_put_value(d, k)
            lv = level(cls, f, kk, a)
            tol = 2e-7 * lv if live else 1e-12 * (abs(f) + abs(kk))
            want = options.call(cls, t, kk, f, v, a)
            close(x, want, 'call value, ' + w, rel=1e-9, abs_=tol)
            close(y, want + kk - f, 'put value, ' + w, rel=1e-9,
                  abs_=tol, scale=abs(f) + abs(kk))
            close(x - y, f - kk, 'put-call parity, ' + w, rel=1e-12,
                  scale=abs(f) + abs(kk))
            true(x >= max(f - kk, 0.0) - tol, 'call below intrinsic, ' + w)
            true(y >= max(kk - f, 0.0) - tol, 'put below intrinsic, ' + w)
            if 'LogNormal' in cls:
                true(x <= f + a + tol, 'call above forward, ' + w)
                true(y <= kk + a + tol, 'put above strike, ' + w)
            if not live or 'Intrinsic' in cls:
                same(x, max(f - kk, 0.0), 'intrinsic call value, ' + w)
                close(y, max(kk - f, 0.0), 'intrinsic put value, ' + w,
                      scale=abs(f) + abs(kk))
                rec.label('intrinsic')
            else:
                close2(m.obj(t, kk, f, v), x, 'model called with parameters',
                       rel=1e-12)
                rec.nt(abs(x - max(f - kk, 0)) > 1e-5 * lv)
            if k is not None:
                got.append((k, x, y, tol))
        for p, q in zip(got, got[1:]):
            true(q[1] <= p[1] + p[3] + q[3], 'call increases from strike %r '
                 'to %r', p[0], q[0])
            true(q[2] >= p[2] - p[3] - q[3], 'put decreases from strike %r '
                 'to %r', p[0], q[0])
        if len(got) == 3:
            (k0, x0, _, e0), (k1, x1, _, e1), (k2, x2, _, e2) = got
            w = (k1 - k0) / (k2 - k0)
            true(x1 <= (1 - w) * x0 + w * x2 + e0 + e1 + e2,
                 'call is not convex over strikes %r', (k0, k1, k2))
        if live:
            monotone(case, m, t, ks[0], f, v)


def monotone(case, m, t, k, f, v):
    """by volatility and time"""
    cls, a = case['cls'], case['disp']
    tol = 4e-7 * level(cls, f, k, a)
    x = m.obj(t, k, f, v)
    for up in (1.1, 2.0):
        true(m.obj(t, k, f, v * up) >= x - tol, 'call decreases by volatility')
        true(m.obj(t * up, k, f, v) >= x - tol, 'call decreases by time')
        close(m.obj(t * up * up, k, f, v), m.obj(t, k, f, v * up),
              'time and squared volatility scale the same', rel=1e-9,
              abs_=1e-14 * (abs(f) + abs(k) + abs(a)))
    for down in (1e-4, 1e-9):
        y = m.obj(t, k, f, v * down)
        s = v * down * sqrt(t) * (f + a if 'LogNormal' in cls else 1.0)
        close(y, max(f - k, 0.0), 'value for small volatility', rel=1e-9,
              abs_=tol + abs(s))


# ---- expectation -------------------------------------------------------------

exp_cases = st.fixed_dictionaries({
    'cls': st.sampled_from(options.VANILLA[:3]),
    's': st.one_of(gen.dec(0.05, 1.0, 0.01)), 'z': gen.dec(-3, 3, 0.01),
    't': st.one_of(gen.dec(0.1, 20, 0.1)),
    'f': gen.dec(-50, 200, 0.25), 'unit': st.sampled_from([1.0, 0.001]),
    'disp': gen.dec(0.5, 20, 0.5)})


def check_expectation(case, rec):
    """numerical expectation of the payoff under the distribution"""
    cls, unit, t = case['cls'], case['unit'], case['t']
    f = case['f'] * unit
    a = 0.0
    if cls == 'LogNormalOptionPayOffModel':
        f = abs(f) + 0.5 * unit
    elif 'Displaced' in cls:
        a = case['disp'] * unit + max(0.0, -f)
    s = case['s']
    if 'LogNormal' not in cls:
        s *= 40 * unit
    v = s / sqrt(t)
    k = options.strike_near(case['z'], f, s, cls, a)
    n, top = 4000, 10.0
    h = 2 * top / n
    call = put = 0.0
    for i in range(n + 1):
        x = -top + i * h
        if 'LogNormal' in cls:
            y = (f + a) * exp(s * x - s * s / 2) - a
        else:
            y = f + s * x
        w = npdf(x) * h
        call += w * max(y - k, 0.0)
        put += w * max(k - y, 0.0)
    kw = {'displacement': a} if a else {}
    m = getattr(models, cls)(0.0, f if f else (lambda d: f), v, **kw)
    lv = abs(f) + abs(k) + abs(s) + a
    rec.nt()
    rec.label(options.short(cls))
    close(m.get_call_value(t, k), call, 'expected call payoff', rel=1e-5,
          abs_=2e-6 * lv)
    close(m.get_put_value(t, k), put, 'expected put payoff', rel=1e-5,
          abs_=2e-6 * lv)


FACETS = [
    Facet('prices', cases(), check, 5000,
          rule='an option with time value'),
    Facet('expectation', exp_cases, check_expectation, 800,
          rule='all'),
]

"""P09 credit curves: survival probability, intensity and hazard rate agree"""
from math import exp, log

from hypothesis import strategies as st

import dcf
from vlib.core import Facet, close, close2, same, true
from vlib import gen, build
from props.p07_interest import step_integral, slack

ASSUMPTIONS = [
    'hazard rate curves over several steps with BusinessDates only, as the '
    'elementary step of the curve is the string 1D',
    'additive day counts (default, act/365, act/360)']

RATIO = ('SurvivalProbabilityCurve', 'DefaultProbabilityCurve')
MARGINAL = ('MarginalSurvivalProbabilityCurve',
            'MarginalDefaultProbabilityCurve')


def ref_sv(spec, s, e):
    cls = spec['cls']
    if s == e:
        return 1.0
    if cls in RATIO:
        o = build.origin_of(spec)
        a = 1.0 if s == o else build.stored(spec, s)
        return build.stored(spec, e) / a
    if cls == 'FlatIntensityCurve':
        return exp(build.stored(spec, s) * build.tau(spec, s)
                   - build.stored(spec, e) * build.tau(spec, e))
    if cls == 'HazardRateCurve':
        return exp(-step_integral(spec, s, e))
    raise KeyError(cls)


@st.composite
def cases(draw):
    spec = draw(build.rate_specs(build.CREDIT, origins='mixed'))
    cls, kind = spec['cls'], spec['kind']
    if cls in RATIO and build.origin_of(spec) in spec['xs']:
        i = spec['xs'].index(build.origin_of(spec))
        spec['ys'][i] = 0.0 if cls in build.COMPLEMENT else 1.0
        if len(spec['xs']) == 1:
            spec['origin'] = spec['xs'][0] - build.step_of(kind)
    if draw(st.integers(0, 3)) == 0:
        spec['ip'] = {'FlatIntensityCurve': 'constant',
                      'HazardRateCurve': 'linear_scheme',
                      'MarginalSurvivalProbabilityCurve': 'linear_scheme',
                      'MarginalDefaultProbabilityCurve': 'constant',
                      }.get(cls)
    span = build.span_of(kind)
    lim = {'bd': 800, 'float': 200, 'int': 5}.get(kind, 800)
    xs = spec['xs']
    anchor = draw(st.sampled_from(xs + [build.origin_of(spec)]))
    near = st.integers(anchor - lim, anchor + lim)
    wide = st.integers(min(xs) - span // 4, max(xs) + span // 4)
    if cls == 'HazardRateCurve':
        near = st.integers(anchor - lim // 4, anchor + lim // 4)
    if cls == 'HazardRateCurve' or cls in MARGINAL:
        wide = near
    pick = st.one_of(st.sampled_from(xs), st.just(build.origin_of(spec)),
                     wide, near, wide, near)
    return dict(spec, dates=draw(st.lists(pick, min_size=3, max_size=3,
                                          unique=True)),
                steps=draw(st.integers(1, 6)))


def longest(spec):
    days = 420 if spec['cls'] == 'HazardRateCurve' else \
        1700 if spec['cls'] in MARGINAL else 10 ** 6
    return days * build.step_of(spec['kind']) / 91


def check(case, rec):
    c = gen.clock(case)
    cls = case['cls']
    f = build.build(case)
    a, b, d = sorted(case['dates'])
    o = build.origin_of(case)
    rec.label(cls, case['kind'])
    if a < o:
        rec.label('before-origin')
    if d > max(case['xs']):
        rec.label('beyond-last')
    rec.nt(len(case['xs']) > 1)
    tenor = case['tenor'] is not None or case['kind'] == 'bd'

    # the stored quantity at the points
    for n, y in zip(case['xs'], case['ys']):
        x = c(n)
        if cls == 'SurvivalProbabilityCurve':
            got = f.get_survival_prob(x)
        elif cls == 'DefaultProbabilityCurve':
            got = 1.0 - f.get_survival_prob(x)
        elif cls == 'FlatIntensityCurve':
            got = f.get_flat_intensity(x) if n != o or case['ip'] is None \
                else y
        elif cls == 'HazardRateCurve':
            got = f.get_hazard_rate(x)
        elif tenor:
            got = f.get_survival_prob(x, x + f.forward_tenor)
            if cls in build.COMPLEMENT:
                got = 1.0 - got
        else:
            got = y
        close(got, y, '%s at its point %r' % (cls, x), rel=1e-8, abs_=1e-9)

    for n in (a, o):
        close(f.get_survival_prob(c(n), c(n)), 1.0,
              'survival over empty period at %r' % c(n), rel=1e-12)
    if cls == 'HazardRateCurve' and case['kind'] != 'bd':
        return
    if cls in MARGINAL and not tenor:
        return
    ordered = cls == 'HazardRateCurve' or cls in MARGINAL
    periods = [(a, b), (b, d), (a, d), (o, b), (o, d)]
    if not ordered:
        periods += [(d, a), (b, a), (b, o)]
    for s, e in periods:
        if s == e or (ordered and s > e) or (
                ordered and e - s > longest(case)):
            continue
        x, y = c(s), c(e)
        w = '(%r, %r)' % (x, y)
        t = build.tau(case, s, e)
        sv = f.get_survival_prob(x, y)
        true(sv > 0, 'survival probability %s is %r', w, sv)
        if s < e and (ordered or s == o and (
                cls not in RATIO or o <= min(case['xs']))):
            true(sv <= 1.0 + 1e-12, 'survival probability %s is %r', w, sv)
        i = f.get_flat_intensity(x, y)
        close(sv, exp(-i * t), 'exp(-intensity * t) ' + w, rel=1e-9)
        if cls not in MARGINAL:
            close(sv, ref_sv(case, s, e), 'survival probability ' + w,
                  rel=1e-8 + 2 * slack(case, s, e))
        if s == o:
            close2(f.get_survival_prob(y), sv,
                   'survival probability of single date %r' % y, rel=1e-12)
            close2(f.get_flat_intensity(y), i,
                   'intensity of single date %r' % y, rel=1e-12)

    # chaining
    if cls in MARGINAL:
        step = f.forward_tenor
        if case['tenor'] is not None:
            same(c(a) + step, c(a) + build.tenor(case['tenor'], c), 'tenor')
        else:
            same(c(a) + step, c(a) + '1y', 'default tenor')
        grid = [c(a)]
        for _ in range(case['steps']):
            grid.append(grid[-1] + step)
        product = ref = 1.0
        for s, e in zip(grid[:-1], grid[1:]):
            product *= f.get_survival_prob(s, e)
            ref *= build.stored(case, int(c.num(s)))
            close(f.get_survival_prob(grid[0], e), product,
                  'chain of survival probabilities', rel=1e-9)
            close(f.get_survival_prob(grid[0], e), ref,
                  'product of marginal probabilities', rel=1e-9)
        # part of a period: same intensity as the whole period
        last = grid[-1]
        n, m = int(c.num(last)), int(c.num(last + step))
        k = n + (m - n) // 2
        if n < k < m:
            close(f.get_flat_intensity(last, c(k)),
                  -log(build.stored(case, n)) / build.tau(case, n, m),
                  'intensity within tenor period', rel=1e-8, abs_=1e-10)
    else:
        triples = [(a, b, d)]
        if not ordered:
            triples += [(b, a, d), (d, a, b), (a, o, d), (o, a, b)]
        for x, y, z in triples:
            if ordered and z - x > longest(case):
                continue
            p = f.get_survival_prob(c(x), c(y)) \
                * f.get_survival_prob(c(y), c(z))
            close(p, f.get_survival_prob(c(x), c(z)),
                  'chain of survival probabilities %r'
                  % ((c(x), c(y), c(z)),), rel=1e-8)

    # hazard rates
    s = sorted(case['xs'])
    if cls == 'HazardRateCurve':
        for n in (a, b, d):
            close(f.get_hazard_rate(c(n)), build.stored(case, n),
                  'hazard rate at %r' % c(n), rel=1e-9)
        return
    for n in (a, b, d):
        for x, y in zip(s[:-1], s[1:]):
            if x <= n < y and y - x <= longest(case):
                rec.label('hazard-between')
                close2(f.get_hazard_rate(c(n)),
                       f.get_flat_intensity(c(x), c(y)),
                       'hazard rate at %r' % c(n), rel=1e-9)
    if len(s) > 1 and s[1] - s[0] < longest(case):
        close2(f.get_hazard_rate(c(s[0] - 3)),
               f.get_flat_intensity(c(s[0]), c(s[1])),
               'hazard rate before first point', rel=1e-9)
    if len(s) > 1 and case['kind'] == 'bd' and cls not in MARGINAL and \
            s[-1] - s[-2] > 1:
        close2(f.get_hazard_rate(c(s[-1] + 5)),
               f.get_flat_intensity(c(s[-2]), c(s[-1])),
               'hazard rate beyond last point', rel=1e-9)
    if len(s) == 1 and cls == 'FlatIntensityCurve':
        close(f.get_hazard_rate(c(a)), case['ys'][0],
              'hazard rate of flat curve', rel=1e-9, abs_=1e-12)


# ---- probabilities outside of (0, 1) -----------------------------------------

def check_clamp(case, rec):
    c = gen.clock(case)
    cls = case['cls']
    f = build.build(case, lived=False)
    rec.label(cls, case['kind'])
    tenor = build.tenor(case['tenor'], c)
    bad = 0
    for n, y in zip(case['xs'], case['ys']):
        want = min(1.0, max(0.0, y))
        bad += want != y
        if want in (0.0, 1.0):
            rec.label('at-or-beyond-%d' % want)
        if cls in build.COMPLEMENT:
            want = 1.0 - want
        x = c(n)
        close(f(x), want, 'value at %r' % x, rel=1e-9, abs_=1e-9)
        true(0 < f(x) <= 1 + 1e-9, 'value %r at %r is no probability', f(x), x)
        got = f.get_survival_prob(x, x + tenor) if cls in MARGINAL else \
            f.get_survival_prob(x)
        close(got, want, 'survival probability at %r' % x, abs_=1e-9)
        true(0 <= got <= 1 + 1e-9, 'survival probability %r at %r', got, x)
    if cls in MARGINAL:
        # longer than a period: product of what the points tell
        s = c(min(case['xs']))
        want, e = 1.0, s
        for _ in range(case['steps']):
            q = f.get_survival_prob(e, e + tenor)
            want *= q
            e = e + tenor
            got = f.get_survival_prob(s, e)
            close(got, want, 'survival probability (%r, %r)' % (s, e),
                  rel=1e-9, abs_=1e-12)
            if not q:
                rec.label('certain-default')
                same(got, 0.0, 'survival after certain default')
    rec.nt(bad > 0)


@st.composite
def clamp_cases(draw):
    cls = draw(st.sampled_from(sorted(build.PROB)))
    kind = draw(gen.kinds)
    xs = draw(gen.axis(1, 5, 1, build.span_of(kind)))
    val = st.one_of(st.sampled_from([0, 1, 0.0, 1.0, -0.1, 1.1, -2, 3.5]),
                    gen.dec(0.01, 0.99, 0.01), st.floats(-2, 3))
    return {'cls': cls, 'kind': kind, 'base': draw(gen.bases), 'dc': None,
            'xs': xs, 'origin': -draw(st.integers(0, 100)), 'ip': None,
            'ys': draw(st.lists(val, min_size=len(xs), max_size=len(xs))),
            'tenor': draw(build.tenors(kind, False)),
            'steps': draw(st.integers(1, 5)),
            'tuple': draw(st.booleans())}


FACETS = [
    Facet('agree', cases(), check, 5000, rule='at least two points'),
    Facet('admissible', clamp_cases(), check_clamp, 1500,
          rule='a given value outside of [0, 1]'),
]

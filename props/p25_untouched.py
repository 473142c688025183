"""P25 pricing functions leave their arguments as they were"""
from hypothesis import strategies as st

import dcf
from vlib.core import (Facet, close, same, true, fail, untouched, Violation,
                       HarnessError)
from vlib import gen, build, products, options

ASSUMPTIONS = [
    'what can be seen of an argument: cashflows at all dates, legs, fixed '
    'rate, curve and model objects of a list; values at and around points, '
    'points, origin and spread of a curve; parameters of a model',
    'calls may fail, but do so each time and in a fresh world as well']
FUSES = [None, None, None, None, 0, 1, 2, 3, 5, 8, 13, 40]


class Boom(Exception):
    """fault injected"""


def faulty(cls):
    """curve class of the same name, raises after some evaluations"""

    class Faulty(cls):
        fuse = None

        def __call__(self, x):
            if self.fuse is not None:
                self.fuse -= 1
                if self.fuse < 0:
                    raise Boom('curve failed')
            return super(Faulty, self).__call__(x)
    Faulty.__name__ = cls.__name__
    return Faulty


# ---- worlds ------------------------------------------------------------------

@st.composite
def curves(draw, kind, base):
    s = draw(build.discount_specs(kind, base, [
        'ZeroRateCurve', 'ZeroRateCurve', 'CashRateCurve',
        'DiscountFactorCurve'], max_size=4))
    s['spread'] = draw(st.sampled_from([None, None, None, None, 0.001]))
    return s


@st.composite
def world_specs(draw):
    kind, base = draw(gen.kinds), draw(gen.bases)
    m = draw(options.model_specs(kind=kind, base=base, number_only=True))
    w = {'kind': kind, 'base': base,
         'curves': draw(st.lists(curves(kind, base), min_size=2,
                                 max_size=3)),
         'm': m, 'mf': draw(st.booleans()), 'mv': draw(st.booleans()),
         'products': []}
    kinds = st.sampled_from(['fixed', 'rate', 'rate', 'option', 'strategy',
                             'collar', 'collar', 'legs', 'legs'])
    for typ in draw(st.lists(kinds, min_size=1, max_size=4)):
        if typ == 'legs':
            k = len(w['products'])
            p = {'type': 'legs', 'kind': kind, 'base': base, 'nest': False,
                 'legs': draw(st.lists(st.integers(0, max(0, k - 1)),
                                       min_size=1, max_size=3))
                 if k else [draw(products.rate_specs(kind, base))]}
            p['shared'] = bool(k)
        elif typ in ('fixed', 'rate'):
            p = draw(products.fixed_specs(kind, base) if typ == 'fixed' else
                     products.rate_specs(kind, base))
        else:
            p = draw(products.contingent_specs(kind, base, (typ,)))
            p['m'] = m
        p['mixed'] = draw(st.sampled_from([0, 0, 0.01]))
        w['products'].append(p)
        if kind == 'bd' and len(p.get('xs', ())) > 8:
            for s in w['curves']:
                s['tenor'] = '1Y'  # cash rates compound per tenor
    return w


class World(object):

    def __init__(self, w):
        self.c = c = gen.clock(w)
        self.curves = []
        self.user = []
        for s in w['curves']:
            x = build.build(s, cls=faulty(getattr(dcf, s['cls'])))
            u = None
            if s['spread'] is not None:
                u = dcf.DateCurve([c(min(s['xs']))], [s['spread']])
                x.spread = u
            self.curves.append(x)
            self.user.append(u)
        m = dict(w['m'])
        m0 = options.Model(m).obj
        kw = dict(valuation_date=m0.valuation_date,
                  forward_curve=m0.forward_curve,
                  volatility_curve=m0.volatility_curve,
                  day_count=gen.day_count(m['dc']))
        if m['disp']:
            kw['displacement'] = m['disp']
        if w['mf'] and m['scale'] == 'rate' and 'Log' not in m['cls']:
            kw['forward_curve'] = self.curves[-1]
        if w['mv']:
            v = m['vol']['y'] or 0.1
            d = c(m['val'])
            kw['volatility_curve'] = faulty(dcf.TerminalVolatilityCurve)(
                [d, c(m['val'] + 4 * build.step_of(w['kind']))],
                [v, 1.5 * v], origin=d)
            self.vol = kw['volatility_curve']
            self.curves.append(self.vol)
            self.user.append(None)
        self.model = type(m0)(**kw)
        self.products, self.dates = [], []
        for p in w['products']:
            if p['type'] == 'legs' and p['shared']:
                legs = [self.products[i] for i in p['legs']]
                # a leg counts once
                x = dcf.CashFlowLegList(
                    [a for i, a in enumerate(legs) if a not in legs[:i]])
                self.dates.append(sorted({
                    n for i in p['legs'] for n in self.dates[i]}))
            elif p['type'] in ('option', 'strategy', 'collar'):
                x = products.make(p, model=self.model)
                self.dates.append(products.dates(p))
            else:
                x = products.make(p)
                if p['type'] == 'rate' and p['how'] == 'curve':
                    x.forward_curve = self.curves[1]
                self.dates.append(products.dates(p))
            if hasattr(x, 'fixed_rate') and p['mixed']:
                # cashflows of a list might have different rates
                for i, d in enumerate(x.domain):
                    x.payoff(d).fixed_rate += i * p['mixed']
            self.products.append(x)
        self.grid = sorted({n for s in w['curves'] for n in s['xs']} |
                           {n for ds in self.dates for n in ds})

    def fuse(self, i, k):
        for x in self.curves:
            x.fuse = None
        if k is not None:
            self.curves[i % len(self.curves)].fuse = k

    def snapshot(self):
        self.fuse(0, None)
        out = {}
        c = self.c
        at = [c(n) for n in self.grid]
        for i, x in enumerate(self.curves):
            s = x.spread
            out['curve %d' % i] = (
                x.domain, x(at), x.origin, id(s),
                None if s is None else (s.domain, s(s.domain)),
                x.forward_tenor, id(x._day_count) if hasattr(
                    x, '_day_count') else None)
        m = self.model
        out['model'] = (m.valuation_date, id(m.forward_curve),
                        id(m.volatility_curve))
        for i, x in enumerate(self.products):
            out['product %d' % i] = self.look(x)
        return out

    def look(self, x):
        legs = getattr(x, 'legs', None)
        if legs is not None:
            return (x.domain, x.origin, tuple(map(id, legs)),
                    tuple(map(self.look, legs)))
        try:
            flows = tuple(float(x[d]) for d in x.domain)
        except Exception as e:
            # strikes and negative forwards need not fit
            flows = type(e).__name__
        return (x.domain, x.origin, flows, getattr(x, 'fixed_rate', None),
                tuple(getattr(x.payoff(d), 'fixed_rate', None)
                      for d in x.domain),
                id(getattr(x, 'forward_curve', None)),
                id(getattr(x, 'payoff_model', None)))


# ---- calls -------------------------------------------------------------------

OPS = ['pv', 'ytm', 'fair', 'accrued', 'bpv', 'buckets', 'fit']


@st.composite
def calls(draw):
    n = st.integers(0, 7)
    op = draw(st.sampled_from(OPS + ['fair', 'bpv', 'buckets', 'fit']))
    o = {'op': op, 'p': draw(n), 'd': draw(n), 'fuse': draw(
        st.sampled_from(FUSES)), 'at': draw(n),
        'v': draw(st.one_of(st.none(), st.integers(0, 64)))}
    if op in ('ytm', 'fair', 'fit'):
        o['goal'] = draw(st.sampled_from([None, 'near', 'near', 'near',
                                          'far']))
        o['prec'] = draw(st.sampled_from([1e-3, 1e-5]))
        o['bounds'] = draw(st.sampled_from([None, None, [-0.5, 0.5],
                                            [0.3, 0.4]]))
    if op in ('bpv', 'buckets', 'fit'):
        o['delta'] = draw(st.one_of(st.none(), st.lists(
            n, min_size=1, max_size=3)))
        o['shift'] = draw(st.sampled_from([1e-4, 1e-4, 1e-4, -1e-3, 0,
                                           0.01, None]))
        o['grid'] = draw(st.one_of(st.none(), st.lists(
            st.integers(-5, 120), min_size=1, max_size=4, unique=True)))
    return o


def call(world, o):
    c = world.c
    i = o['p'] % len(world.products)
    if o['op'] == 'fair':
        some = [k for k, x in enumerate(world.products)
                if hasattr(x, 'fixed_rate')]
        i = some[o['p'] % len(some)] if some else i
    p = world.products[i]
    d = world.curves[o['d'] % min(3, len(world.curves))]
    if o['op'] != 'fit' and type(d).__name__ == 'TerminalVolatilityCurve':
        d = world.curves[0]
    kw = {}
    v = None
    if o['v'] is not None:
        v = c(products.valuation_dates(world.dates[i], [o['v']])[0])
        kw['valuation_date'] = v
    op = o['op']
    goal = None
    if o.get('goal') == 'far':
        goal = 1e15
    elif o.get('goal') == 'near':
        world.fuse(0, None)
        try:
            goal = dcf.get_present_value(p, d, v) * 1.01
        except Exception:
            goal = 1.0
    if o.get('bounds'):
        kw['bounds'] = tuple(o['bounds'])
    if o.get('prec'):
        kw['precision'] = o['prec']
    world.fuse(o['at'], o['fuse'])
    if op == 'pv':
        return untouched(dcf.get_present_value, p, d, **kw)
    if op == 'accrued':
        return untouched(dcf.get_interest_accrued, p, v if v is not None else c(
            world.dates[i][-1]))
    if op == 'ytm':
        if goal is not None:
            kw['present_value'] = goal
        return untouched(dcf.get_yield_to_maturity, p, **kw)
    if op == 'fair':
        if goal is not None:
            kw['present_value'] = goal
        return untouched(dcf.get_fair_rate, p, d, **kw)
    delta = None
    if o['delta'] is not None:
        delta = [world.curves[k % len(world.curves)] for k in o['delta']]
    grid = None
    if o['grid'] is not None:
        grid = [c(n) for n in o['grid']]
        if o['p'] % 3:
            grid.sort()
    if op == 'fit':
        kw['fitting_grid'] = [c(world.dates[i][-1])]
        if grid is not None:
            kw['fitting_grid'] = grid
            if o['shift'] == 1e-4:
                kw['fitting_grid'].append(c(world.dates[i][-1] + 150))
        if delta:
            kw['fitting_curve'] = delta[0]
        if goal is not None:
            kw['present_value'] = [goal]
        return untouched(dcf.get_curve_fit, [p], d, **kw)
    if o['shift'] is not None:
        kw['shift'] = o['shift']
    if delta is not None:
        kw['delta_curve'] = delta[0] if len(delta) == 1 and o[
            'p'] % 2 else delta
    if op == 'bpv':
        return untouched(dcf.get_basis_point_value, p, d, **kw)
    if grid is not None:
        kw['delta_grid'] = grid
    return untouched(dcf.get_bucketed_delta, p, d, **kw)


def outcome(world, o):
    try:
        r = call(world, o)
    except (Violation, HarnessError):
        raise
    except Exception as e:
        return 'raised', type(e).__name__
    return 'returned', repr(r)  # nan equals nan


@st.composite
def cases(draw):
    return {'w': draw(world_specs()),
            'ops': draw(st.lists(calls(), min_size=1, max_size=6))}


def check(case, rec):
    world = World(case['w'])
    before = world.snapshot()
    done = set()
    for k, o in enumerate(case['ops']):
        got = outcome(world, o)
        after = world.snapshot()
        compare(before, after, 'after call %d (%s %s)' % (
            k + 1, o['op'], got[0]))
        if k:
            fresh = outcome(World(case['w']), o)
            same(got, fresh, 'result of call %d (%s) against the one in a '
                 'fresh world' % (k + 1, o['op']))
        else:
            same(outcome(world, o), got, 'second call of %s' % o['op'])
            compare(before, world.snapshot(), 'after second %s' % o['op'])
        done.add((o['op'], got[0]))
    rec.label(*('%s %s' % x for x in done))
    rec.nt(any(a != 'accrued' and a != 'pv' for a, _ in done))


def compare(before, after, when):
    same(sorted(after), sorted(before), 'arguments ' + when)
    for k in before:
        if before[k] != after[k]:
            fail('%s changed %s: %r before, %r after', k, when, before[k],
                 after[k])


FACETS = [
    Facet('calls', cases(), check, 2000, thorough=50000,
          rule='at least one call that has to change and restore an '
               'argument'),
]

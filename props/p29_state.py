"""P29 results follow the current state"""
from math import exp

from hypothesis import strategies as st

import dcf
from vlib.core import (Facet, same, true, fail, raises, HarnessError,
                       Undefined)
from vlib import gen, build, products, options

ASSUMPTIONS = [
    'curves that are integrated numerically agree up to 2e-5',
    'the reference is the code itself: objects built from the final state '
    'that were never queried or updated',
    'default probability curves are left out since they are given default '
    'but updated by survival probabilities',
    'currencies are added when the domestic curve has its final origin']

IR = ['DiscountFactorCurve', 'ZeroRateCurve', 'ZeroRateCurve',
      'CashRateCurve', 'CashRateCurve']
CLASSES = IR + ['ShortRateCurve', 'SurvivalProbabilityCurve',
                'FlatIntensityCurve', 'HazardRateCurve',
                'MarginalSurvivalProbabilityCurve',
                'TerminalVolatilityCurve', 'TerminalVolatilityCurve',
                'InstantaneousVolatilityCurve', 'InstantaneousVolatilityCurve',
                'ForwardCurve', 'ForwardCurve', 'DateCurve']
DAILY = ('ShortRateCurve', 'HazardRateCurve')


def equal(a, b, tol=1e-12):
    """results agree"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(
            equal(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(map(str, a)) == sorted(map(str, b)) and all(
            equal(a[k], b[k], tol) for k in a)
    if isinstance(a, float) or isinstance(b, float):
        try:
            return abs(a - b) <= tol + 1e-9 * max(abs(a), abs(b)) or (
                a != a and b != b)
        except TypeError:
            return False
    return bool(a == b)


def outcome(f):
    try:
        return 'returned', f()
    except HarnessError:
        raise
    except Exception as e:
        return 'raised', type(e).__name__


def compare(got, want, what, tol=1e-12):
    if not equal(got, want, tol):
        fail('%s %r, but %r by fresh objects of the same state', what, got,
             want)


def noise(cls, name):
    """numerical integration stops on a tolerance of its own, so the last
    digit of a stored value may show"""
    return 2e-5 if name == 'integral' or cls[0] == 'I' and (
        'terminal' in name or name.startswith('cast')) else 1e-12


# ---- one curve ---------------------------------------------------------------

def value(cls, r, t):
    """stored value for rate r at time t from origin"""
    if cls == 'DiscountFactorCurve':
        return exp(-r * t)
    if cls == 'SurvivalProbabilityCurve':
        return exp(-abs(r * t))
    if cls == 'MarginalSurvivalProbabilityCurve':
        return exp(-abs(r))
    if cls in ('ForwardCurve', 'TerminalVolatilityCurve',
               'InstantaneousVolatilityCurve'):
        return 0.01 + abs(r) * 4
    return r


@st.composite
def curve_ops(draw, n=8):
    small = st.integers(-64, 64).map(lambda i: i / 4096.0)
    op = draw(st.sampled_from(['set', 'set', 'set', 'query', 'query',
                               'query', 'fix', 'unfix', 'spread', 'spread',
                               'bend', 'unspread']))
    if op == 'set':
        return [op, draw(st.integers(0, n - 1)), draw(gen.rates)]
    if op in ('fix', 'bend'):
        return [op, draw(st.integers(0, n - 1)), draw(small)]
    if op == 'query':
        return [op, draw(st.integers(0, 99)), draw(st.integers(0, n)),
                draw(st.sampled_from([n, -1, 0]))]
    if op == 'spread':
        return [op, draw(st.integers(0, n - 1)), draw(small)]
    return [op, draw(st.integers(0, n - 1))]


@st.composite
def curve_cases(draw):
    cls = draw(st.sampled_from(CLASSES))
    kind, base = draw(gen.kinds), draw(gen.bases)
    span = 200 if cls in DAILY else draw(st.sampled_from(
        [build.span_of(kind) // 2, max(10, build.span_of(kind) // 20)]))
    pool = st.lists(st.integers(0, span), min_size=2, max_size=8,
                    unique=True)
    if cls not in DAILY and span >= 40:
        pool = gen.rarely(gen.many(12, 40, 0, span), pool)
    pool = draw(pool)
    k = draw(st.integers(1, len(pool)))
    origin = draw(st.sampled_from(['before', 'before', 'none', 'first']))
    if origin != 'before' and cls in build.FROM_ORIGIN:
        k = max(2, k)  # a value of one at origin alone says nothing
    origin = {'before': min(pool) - draw(st.integers(1, 40)), 'none': None,
              'first': min(pool)}[origin]
    spec = {'cls': cls, 'kind': kind, 'base': base, 'xs': pool[:k],
            'origin': origin, 'ip': None, 'dc': draw(gen.day_counts()),
            'tenor': draw(build.tenors(kind, kind == 'bd')),
            'tuple': draw(st.booleans())}
    if cls == 'ShortRateCurve' and kind == 'bd':
        spec['tenor'] = '1M'
    rs = draw(st.lists(gen.rates, min_size=k, max_size=k))
    o = build.origin_of(spec)
    spec['ys'] = [value(cls, r, build.tau(spec, o, x))
                  for r, x in zip(rs, spec['xs'])]
    if cls == 'ForwardCurve':
        spec['yield'] = draw(st.one_of(gen.rates, build.rate_specs(
            ['ZeroRateCurve', 'DiscountFactorCurve'], kind=kind, base=base,
            max_size=3)))
    return {'c': spec, 'pool': pool,
            'to': draw(st.sampled_from(sorted(set(CLASSES)))),
            'ops': [['query', draw(st.integers(0, 99)), 0, 1]] + draw(
                gen.rarely(st.lists(curve_ops(len(pool)), min_size=13,
                                    max_size=30),
                           st.lists(curve_ops(len(pool)), min_size=1,
                                    max_size=12))),
            'off': draw(st.lists(st.integers(0, span), max_size=1)) + [
                max(pool) + draw(st.integers(1, 20))]}


class CurveState(object):
    """real curves and the state they are in"""

    def __init__(self, spec, fix=(), spread=None, yld=None):
        self.c = gen.clock(spec)
        self.spec = dict(spec, xs=list(spec['xs']), ys=list(spec['ys']))
        self.fix = dict(fix)
        self.spread = None if spread is None else dict(spread)
        self.yld = yld
        kw = {}
        if spec['cls'] == 'ForwardCurve':
            y = spec['yield']
            if isinstance(y, dict):
                if self.yld is None:
                    self.yld = CurveState(y)
                y = self.yld.obj
            kw['yield_curve'] = y
        self.obj = build.build(spec, lived=False, **kw)
        for n, y in self.fix.items():
            self.obj.fixings[self.c(n)] = y
        if self.spread is not None:
            self.obj.spread = dcf.DateCurve(
                [self.c(n) for n in sorted(self.spread)],
                [self.spread[n] for n in sorted(self.spread)])

    def fresh(self):
        yld = self.yld.fresh() if self.yld is not None else None
        return CurveState(self.spec, self.fix, self.spread, yld)

    def apply(self, op, n, r=0.0):
        """update real curve and state, returns whether something happened"""
        c, s = self.c, self.spec
        d = c(n)
        if op == 'set':
            o = build.origin_of(s)
            y = value(s['cls'], r, build.tau(s, o, n))
            self.obj[d] = y
            if n in s['xs']:
                s['ys'][s['xs'].index(n)] = y
            else:
                s['xs'].append(n)
                s['ys'].append(y)
        elif op == 'fix':
            y = value(s['cls'], r, 1.0)
            self.obj.fixings[d] = y
            self.fix[n] = y
        elif op == 'unfix':
            self.obj.fixings.pop(d, None)
            self.fix.pop(n, None)
        elif s['cls'] not in build.RATE:
            return False
        elif op == 'spread':
            if self.spread is not None:
                self.obj.spread = None
            self.obj.spread = dcf.DateCurve([d], [r])
            self.spread = {n: r}
        elif op == 'unspread':
            self.obj.spread = None
            self.spread = None
        elif op == 'bend':
            if self.spread is None:
                return False
            self.obj.spread[d] = r
            self.spread[n] = r
        return True


def battery(state, dates, to=None):
    """named queries of a curve as functions of a curve"""
    c, s = state.c, state.spec
    cls = s['cls']
    ds = [c(n) for n in dates]
    out = [('points', lambda f: (list(f.domain), f.origin,
                                 [f[d] for d in f.domain])),
           ('values', lambda f: list(f(ds)))]

    def single(name):
        out.append((name, lambda f: [getattr(f, name)(d) for d in ds]))

    def double(name, short=False):
        out.append((name + ' from origin', lambda f: [
            getattr(f, name)(d) for d in ds]))
        out.append((name + ' of periods', lambda f: [
            getattr(f, name)(a, b) for a in ds for b in ds if a < b]))
    if cls in build.IR:
        double('get_discount_factor')
        double('get_zero_rate')
        double('get_cash_rate')
        if s['kind'] == 'bd' or cls == 'ShortRateCurve':
            single('get_short_rate')
        out.append(('annuity', lambda f: f.get_swap_annuity(ds)))
        targets = ['ZeroRateCurve', 'DiscountFactorCurve', 'CashRateCurve']
    elif cls in build.CREDIT:
        double('get_survival_prob')
        double('get_flat_intensity')
        if s['kind'] == 'bd':
            single('get_hazard_rate')
        targets = ['SurvivalProbabilityCurve', 'FlatIntensityCurve']
    elif cls in build.VOL:
        double('get_terminal_vol')
        if s['kind'] == 'bd' or cls[0] == 'I':
            single('get_instantaneous_vol')
        targets = ['TerminalVolatilityCurve']
    else:
        targets = []
        if cls == 'ForwardCurve':
            single('get_forward_price')
        else:
            out.append(('integral', lambda f: [
                f.integrate(a, b) for a in ds[:3] for b in ds[:3] if a < b]))
    for t in targets:
        def cast(f, t=t):
            g = getattr(dcf, t)(ds, f)
            return list(g.domain), list(g(ds)), g.origin
        out.append(('cast to ' + t, cast))
    if cls != 'ForwardCurve':
        out.append(('table', lambda f: f.table if len(f.domain) < 4 and
                    s['kind'] not in ('bd',) else None))
    out.append(('plain', lambda f: list(dcf.Curve(f).domain)))
    out.append(('year fractions', lambda f: [f.day_count(d) for d in ds]))
    out.append(('arguments', lambda f: (
        [x for x in f.kwargs['domain']], list(f.kwargs['data']))))
    return out


def check_curve(case, rec):
    state = CurveState(case['c'])
    pool = case['pool']
    cls = case['c']['cls']
    rec.label(cls, case['c']['kind'])
    dates = sorted(set(pool) | set(case['off']))
    if cls in DAILY:
        dates = dates[:2] + dates[-2:]
    dates = dates[:5] + dates[-1:] if len(dates) > 5 else dates
    asked = changed = after = 0
    for op in case['ops']:
        if op[0] != 'query':
            up = case['c'].get('yield')
            n = pool[op[1] % len(pool)]
            if isinstance(up, dict) and op[0] in ('spread', 'bend',
                                                  'unspread'):
                rec.label('yield curve changed')
                state.yld.apply('set' if op[0] == 'bend' else op[0], n,
                                *op[2:])
                changed += 1
            else:
                changed += state.apply(op[0], n, *op[2:])
            after += asked > 0
            rec.label(op[0])
            continue
        qs = battery(state, sorted({dates[k % len(dates)]
                                    for k in op[2:4]}))
        name, f = qs[op[1] % len(qs)]
        got = outcome(lambda: f(state.obj))
        fresh = state.fresh().obj
        compare(got, outcome(lambda: f(fresh)), name + ' in between',
                noise(cls, name))
        asked += 1
    rec.nt(asked > 0 and after > 0)
    fresh = state.fresh()
    for name, f in battery(state, dates):
        compare(outcome(lambda: f(state.obj)),
                outcome(lambda: f(fresh.obj)), name, noise(cls, name))


# ---- curves, models, cashflows and prices -------------------------------------

@st.composite
def curve_spec(draw, kind, base, cls=None):
    xs = draw(st.lists(st.integers(0, build.span_of(kind) // 3), min_size=1,
                       max_size=4, unique=True))
    cls = cls or draw(st.sampled_from(IR))
    s = {'cls': cls, 'kind': kind, 'base': base, 'xs': xs,
         'origin': min(xs) - draw(st.integers(0 if cls == 'ZeroRateCurve'
                                              else 1, 20)),
         'ip': None, 'dc': draw(gen.day_counts()),
         'tenor': draw(build.tenors(kind, False)), 'tuple': draw(
             st.booleans())}
    o = build.origin_of(s)
    s['ys'] = [value(cls, draw(gen.rates), build.tau(s, o, x)) for x in xs]
    return s


@st.composite
def world_specs(draw):
    kind, base = draw(gen.kinds), draw(gen.bases)
    n = draw(st.integers(2, 3))
    w = {'kind': kind, 'base': base, 'curves': [
        draw(curve_spec(kind, base)) for _ in range(n)],
        'vol': draw(curve_spec(kind, base, 'TerminalVolatilityCurve')),
        'products': [], 'models': []}
    for _ in range(2):
        w['models'].append({
            'cls': draw(st.sampled_from([
                'NormalOptionPayOffModel', 'NormalOptionPayOffModel',
                'DisplacedLogNormalOptionPayOffModel',
                'IntrinsicOptionPayOffModel',
                'BinaryNormalOptionPayOffModel'])),
            'val': draw(st.integers(-20, 20)),
            'fwd': draw(st.one_of(st.integers(0, n - 1),
                                  st.floats(-0.05, 0.1).map(float))),
            'vol': draw(st.sampled_from(['curve', 0.01, 0.2, 0.0])),
            'dc': draw(gen.day_counts()), 'bump': draw(st.booleans()),
            'disp': draw(st.sampled_from([0.1, 0.25]))})
    for typ in draw(st.lists(st.sampled_from([
            'fixed', 'rate', 'rate', 'rate', 'option', 'strategy', 'collar',
            'collar']), min_size=1, max_size=3)):
        xs = draw(gen.schedules(kind, lo=draw(st.integers(0, 50)),
                                max_size=4))
        w['products'].append({
            'type': typ, 'xs': xs, 'origin': xs[0] - draw(st.integers(
                1, build.step_of(kind))), 'n': draw(gen.notionals),
            'rate': draw(gen.rates), 'fwd': draw(st.one_of(
                st.none(), st.integers(0, n - 1), st.floats(-0.05, 0.1))),
            'model': draw(st.integers(0, 1)),
            'k': draw(st.one_of(st.none(), st.just(0.0), gen.rates)),
            'k2': draw(gen.rates), 'put': draw(st.booleans()),
            'dc': draw(gen.day_counts())})
    w['legs'] = draw(st.booleans())
    return w


class World(object):

    def __init__(self, w):
        c = self.c = gen.clock(w)
        self.w = w
        self.curves = [CurveState(s, fix, spread) for s, fix, spread in
                       w['state']]
        self.models = []
        for m in w['models']:
            cls = getattr(dcf.models, m['cls'])
            kw = {'displacement': m['disp']} if 'Displaced' in m['cls'] \
                else {}
            self.models.append(cls(
                c(m['val']), self.fwd(m['fwd']), self.volatility(m['vol']),
                day_count=gen.day_count(m['dc']), bump_greeks=m['bump'],
                **kw))
        self.products = [self.product(p) for p in w['products']]
        if w['legs']:
            self.products.append(dcf.CashFlowLegList(self.products[:]))

    def fwd(self, f):
        return f if f is None or isinstance(f, float) else \
            self.curves[f].obj

    def volatility(self, v):
        return self.curves[-1].obj if v == 'curve' else v

    def product(self, p):
        c = self.c
        ds, o = [c(n) for n in p['xs']], c(p['origin'])
        if p['type'] == 'fixed':
            return dcf.FixedCashFlowList(ds, p['n'], origin=o)
        dc = gen.day_count(p['dc'])
        if p['type'] == 'rate':
            return dcf.RateCashFlowList(
                ds, p['n'], origin=o, day_count=dc, fixed_rate=p['rate'],
                forward_curve=self.fwd(p['fwd']))
        m = self.models[p['model']]
        if p['type'] == 'option':
            return dcf.OptionCashflowList(
                ds, p['n'], [p['k']] * len(ds), p['put'], origin=o,
                payoff_model=m)
        if p['type'] == 'strategy':
            return dcf.OptionStrategyCashflowList(
                ds, p['n'], [p['k'] or 0.0, p['k2']], p['n'],
                [p['k2']], origin=o, payoff_model=m)
        return dcf.ContingentRateCashFlowList(
            ds, p['n'], origin=o, day_count=dc, fixed_rate=p['rate'],
            floor_strike=p['k'], cap_strike=p['k2'], payoff_model=m)

    def state(self):
        return dict(self.w, state=[(x.spec, x.fix, x.spread)
                                   for x in self.curves])

    def fresh(self):
        return World(self.state())

    def apply(self, op):
        """update, in reality and on paper"""
        what, i, j, r = op
        c, w = self.c, self.w
        if what in ('set', 'spread', 'bend', 'unspread', 'fix', 'unfix'):
            x = self.curves[i % len(self.curves)]
            xs = x.spec['xs']
            n = xs[j % len(xs)] if j < 12 else min(xs) + j - 12
            return x.apply(what, n, r)
        k = i % len(w['products'])
        p, x = w['products'][k], self.products[k]
        if what == 'rate' and p['type'] in ('rate', 'collar'):
            x.fixed_rate = p['rate'] = r
        elif what == 'forward' and p['type'] == 'rate':
            p['fwd'] = [None, r, j % (len(self.curves) - 1)][j % 3]
            x.forward_curve = self.fwd(p['fwd'])
        elif what == 'payoff_model' and p['type'] not in ('fixed', 'rate'):
            p['model'] = j % 2
            x.payoff_model = self.models[p['model']]
        elif what in ('val', 'mfwd', 'mvol', 'mdc', 'bump'):
            m, y = w['models'][i % 2], self.models[i % 2]
            if what == 'val':
                m['val'] = j * 3 - 20
                y.valuation_date = c(m['val'])
            elif what == 'mfwd':
                m['fwd'] = r if j % 2 else j // 2 % (len(self.curves) - 1)
                y.forward_curve = self.fwd(m['fwd'])
            elif what == 'mvol':
                m['vol'] = ['curve', abs(r) + 0.001, 0.0, 0.15][j % 4]
                y.volatility_curve = self.volatility(m['vol'])
            elif what == 'mdc':
                m['dc'] = [None, 'act365', 'act360'][j % 3]
                y.day_count = gen.day_count(m['dc'])
            else:
                m['bump'] = bool(j % 2)
                y.bump_greeks = m['bump']
        elif what == 'amount':
            # payoffs are open to change
            q = x.payoff(x.domain[0])
            if p['type'] == 'rate' and len(p['xs']) == 1:
                q.amount = p['n'] = 1000.0 * r
            else:
                return False
        else:
            return False
        return True


def price_queries(world):
    """named queries as functions of a world"""
    c, w = world.c, world.w
    out = []
    for i in range(len(world.products)):
        xs = sorted({n for p in w['products'] for n in p['xs']}) \
            if i == len(w['products']) else w['products'][i]['xs']
        vals = [xs[0] - 3, xs[len(xs) // 2]]
        ds = [c(n) for n in xs]
        out.append(('cashflows %d' % i, lambda x, i=i, ds=ds: [
            float(x.products[i][d]) for d in ds]))
        out.append(('table %d' % i, lambda x, i=i: x.products[i].table))
        out.append(('called %d' % i, lambda x, i=i, ds=ds: [
            float(x.products[i]()[d]) for d in ds]))
        for k in range(len(w['curves'])):
            out.append(('pv %d by %d' % (i, k), lambda x, i=i, k=k, v=vals: [
                dcf.get_present_value(x.products[i], x.curves[k].obj, c(n))
                for n in v]))
        out.append(('pv %d at origin' % i, lambda x, i=i:
                    dcf.get_present_value(x.products[i], x.curves[0].obj)))
        out.append(('accrued %d' % i, lambda x, i=i, v=vals: [
            dcf.get_interest_accrued(x.products[i], c(n)) for n in (
                v[0] + 4, v[1] - 1)]))
        if i < len(w['products']):
            out.append(('fixed rate %d' % i, lambda x, i=i: getattr(
                x.products[i], 'fixed_rate', None)))
    for j in range(2):
        n = w['models'][j]['val'] + build.step_of(world.c.kind) * 3
        d = c(n)
        for name in ('get_call_value', 'get_put_value', 'get_call_delta',
                     'get_call_vega', 'get_call_theta', 'get_put_delta'):
            out.append(('%s %d' % (name, j), lambda x, j=j, d=d, name=name: [
                getattr(x.models[j], name)(d, k) for k in (None, 0.02)]))
        out.append(('details %d' % j, lambda x, j=j, d=d: {
            k: v for k, v in x.models[j].details(d, 0.01).items()
            if not k.endswith('-id')}))
    return out


def sensitivity(world, i, k):
    """bpv and buckets, relative to the size of what is priced"""
    p, f = world.products[i], world.curves[k].obj
    size = 1.0 + sum(abs(float(p[d])) for d in p.domain)
    b = dcf.get_basis_point_value(p, f, p.domain[0])
    bs = dcf.get_bucketed_delta(p, f, p.domain[0])
    return [round(x / size, 9) + 0.0 for x in [b] + list(bs)]


@st.composite
def world_ops(draw):
    what = draw(st.sampled_from(
        ['query', 'query', 'query', 'query', 'set', 'set', 'set', 'bend',
         'spread', 'unspread', 'fix', 'unfix', 'rate', 'rate', 'forward',
         'payoff_model', 'val', 'mfwd', 'mvol', 'mdc', 'bump', 'amount',
         'bpv']))
    r = draw(gen.rates)
    if what in ('fix', 'spread', 'bend'):
        r = r / 4
    return [what, draw(st.integers(0, 60)), draw(st.integers(0, 24)),
            float(r)]


@st.composite
def world_cases(draw):
    return {'w': draw(world_specs()),
            'ops': [['query', draw(st.integers(0, 60)), 1, 0.0]] + draw(
                st.lists(world_ops(), min_size=1, max_size=12))}


def check_world(case, rec):
    import copy
    w = copy.deepcopy(case['w'])
    w['state'] = [(s, (), None) for s in w['curves'] + [w['vol']]]
    world = World(w)
    for p in w['products']:
        rec.label(p['type'])
    asked = after = 0
    for op in case['ops']:
        if op[0] == 'bpv':
            # shifts and restores
            i = op[1] % len(world.products)
            k = op[2] % (len(world.curves) - 1)
            got = outcome(lambda: sensitivity(world, i, k))
            compare_noise(got, outcome(lambda: sensitivity(
                world.fresh(), i, k)), 'sensitivity')
            asked += 1
        elif op[0] == 'query':
            qs = price_queries(world)
            name, f = qs[op[1] % len(qs)]
            got = outcome(lambda: f(world))
            if op[2] % 3 == 0:
                compare(got, outcome(lambda: f(world.fresh())),
                        name + ' in between')
            asked += 1
        elif world.apply(op):
            rec.label(op[0])
            after += asked > 0
    rec.nt(after > 0)
    fresh = world.fresh()
    for name, f in price_queries(world):
        compare(outcome(lambda: f(world)), outcome(lambda: f(fresh)), name)


def compare_noise(a, b, what):
    if a[0] != b[0] or (a[0] == 'raised' and a != b) or (
            a[0] == 'returned' and not all(
            abs(x - y) <= 3e-8 for x, y in zip(a[1], b[1]))):
        fail('%s %r, but %r by fresh objects of the same state', what, a, b)


# ---- fx -----------------------------------------------------------------------

CUR = ['USD', 'EUR', 'GBP', 'JPY']


@st.composite
def fx_cases(draw):
    kind, base = draw(gen.kinds), draw(gen.bases)
    n = draw(st.integers(2, 4))
    op = st.one_of(
        st.tuples(st.just('query'), st.integers(0, 30), st.integers(0, 60),
                  st.just(0.0)),
        st.tuples(st.just('add'), st.integers(1, 3), st.integers(0, n - 1),
                  gen.dec(0.1, 10, 0.05)),
        st.tuples(st.sampled_from(['set', 'set', 'spread', 'unspread',
                                   'bend']),
                  st.integers(0, n - 1), st.integers(0, 20), gen.rates))
    return {'kind': kind, 'base': base, 'curves': [
        draw(curve_spec(kind, base)) for _ in range(n)],
        'ops': [['add', 1, 1, 1.25], ['query', 1, 1, 0.0]] + draw(st.lists(
            op.map(list), min_size=1, max_size=10)),
        'qs': draw(st.lists(st.integers(1, 60), min_size=1, max_size=2))}


class Fx(object):

    def __init__(self, state, adds):
        self.curves = [CurveState(*s) for s in state]
        self.adds = []
        self.fx = dcf.FxContainer('USD', self.curves[0].obj)
        for a in adds:
            self.add(*a)

    def add(self, cur, k, spot):
        self.adds.append((cur, k, spot))
        self.fx.add(cur, self.curves[k].obj, spot)

    def fresh(self):
        return Fx([(x.spec, x.fix, x.spread) for x in self.curves],
                  self.adds)


def check_fx(case, rec):
    c = gen.clock(case)
    fx = Fx([(s, (), None) for s in case['curves']], [])
    rec.label(case['kind'])
    o = build.origin_of(case['curves'][0])
    asked = after = 0

    def rate(x, a, b, n):
        return outcome(lambda: x.fx.get_forward_price(a, b, c(n)))
    for what, i, j, r in case['ops']:
        if what == 'query':
            pairs = sorted(fx.fx)
            rate(fx, *pairs[i % len(pairs)], o + j)
            asked += 1
        elif what == 'add':
            fx.add(CUR[i], j, r)
            after += asked > 0
        else:
            x = fx.curves[i]
            xs = x.spec['xs']
            n = xs[j % len(xs)] if j < 12 else min(xs) + j - 12
            x.apply(what, n, r)
            rec.label(what)
            after += asked > 0
    rec.nt(after > 0 and len(fx.adds) > 0)
    fresh = fx.fresh()
    same(sorted(fx.fx), sorted(fresh.fx), 'pairs')
    for a, b in sorted(fx.fx):
        for n in [o] + [o + q for q in case['qs']]:
            compare(rate(fx, a, b, n), rate(fresh, a, b, n),
                    'rate %s/%s at %r' % (a, b, c(n)))


FACETS = [
    Facet('curve', curve_cases(), check_curve, 3000,
          rule='an update after a query'),
    Facet('prices', world_cases(), check_world, 1500,
          rule='an update after a query'),
    Facet('fx', fx_cases(), check_fx, 1200,
          rule='an update after a query, and a currency added'),
]

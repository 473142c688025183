"""P16 contingent cashflows: payoffs, option, strategy and collar lists"""
from math import sqrt

from hypothesis import strategies as st

import dcf
from dcf import models
from vlib.core import Facet, close, same, true, raises
from vlib import gen, build, options

ASSUMPTIONS = [
    'payment dates are distinct, those of rate cashflows increase',
    'options past expiry are intrinsic',
    'against closed formulas up to 2e-7 of forward and strike (see P17), '
    'against the model itself up to rounding']
amounts = gen.notionals
z = st.one_of(st.integers(-20, 20).map(lambda i: i / 10.0), st.just(0.0))


@st.composite
def base_cases(draw, increasing=True):
    kind, base = draw(gen.kinds), draw(gen.bases)
    m = draw(options.model_specs(kind=kind, base=base))
    n = draw(options.model_specs(kind=kind, base=base, scale=m['scale']))
    xs = draw(gen.schedules(kind, lo=draw(st.integers(0, 50)), max_size=6))
    if not increasing and draw(st.booleans()):
        xs = draw(st.permutations(xs))
    for x in (m, n):
        x['val'] = draw(st.one_of(
            st.integers(-70, max(xs)), st.integers(0, 3).map(
                lambda i: min(xs) - i * build.step_of(kind))))
    return {'kind': kind, 'base': base, 'xs': xs, 'm': m, 'n': n,
            'origin': draw(st.one_of(st.none(), st.integers(-60, min(xs)))),
            'pay': draw(gen.offsets(kind)), 'fix': draw(gen.offsets(kind)),
            'tuple': draw(st.booleans()),
            'other': draw(st.lists(st.integers(-60, 900), max_size=3))}


def strikes(spec, m, d, zs):
    """admissible strikes for the model of spec"""
    t, f, v = m.tfv(d)
    s = v * sqrt(max(t, 0.0)) or (0.1 if 'LogNormal' in spec['cls'] else
                                  0.1 * (abs(f) or 1))
    return [None if x is None else
            options.strike_near(x, f, s, spec['cls'], spec['disp'])
            for x in zs]


def value(m, d, k, is_put):
    """(expected value, tolerance, exact value of the model), None if expired

    """
    t, f, v = m.tfv(d)
    spec = m.spec
    a = spec['disp']
    kk = f if k is None else k
    if 'LogNormal' in spec['cls'] and min(kk + a, f + a) <= 0:
        return None
    x = options.call(spec['cls'], t, kk, f, v, a)
    if is_put:
        x += kk - f
    lv = abs(f) + abs(kk) + 2 * abs(a)
    y = (m.obj.get_put_value if is_put else m.obj.get_call_value)(d, k)
    return x, 2e-7 * lv if t > 0 and v else 1e-12 * lv, y


def look(cfs, d, parts, what, w=1.0):
    """cashflow at d against sum of amount * value parts"""
    want = sum(a * p[0] for a, p in parts)
    tol = sum(abs(a) * p[1] for a, p in parts)
    exact = sum(a * p[2] for a, p in parts)
    got = close(cfs, want, what, rel=1e-9, abs_=tol + 1e-12,
                scale=sum(abs(a * p[0]) for a, p in parts))
    close(got, exact, what + ' (model value)', rel=1e-11,
          scale=sum(abs(a * p[2]) for a, p in parts))


def common(c, cfs, case, other=True):
    """domain, origin, zero for other dates, list access, call"""
    ds = [c(n) for n in case['xs']]
    same(list(cfs.domain), ds, 'domain')
    o = case['origin']
    same(cfs.origin, ds[0] if o is None else c(o), 'origin')
    every = ds + [c(n) for n in case['other']]
    for n in case['other']:
        if n not in case['xs']:
            same(float(cfs[c(n)]), 0.0, 'cashflow at other date')
    return ds, every


def shapes(cfs, every):
    """list access, call and table show the same cashflows"""
    one = [float(cfs[d]) for d in every]
    same([float(x) for x in cfs[every]], one, 'cashflows of list of dates')
    same([float(x) for x in cfs[tuple(every)]], one,
         'cashflows of tuple of dates')
    g = cfs()
    same(list(g.domain), list(cfs.domain), 'domain of list called')
    same(g.origin, cfs.origin, 'origin of list called')
    same([float(g[d]) for d in every], one, 'cashflows of list called')
    t = cfs.table
    h = t[0]
    same(len(set(h)), len(h), 'columns of table')
    true('cashflow' in h and 'pay date' in h, 'columns of table %r', h)
    rows = [dict(zip(h, r)) for r in t[1:]]
    true(all(len(r) == len(h) for r in t), 'length of table rows')
    same([r['pay date'] for r in rows], list(cfs.domain), 'pay dates')
    for r in rows:
        close(r['cashflow'], cfs[r['pay date']], 'cashflow in table',
              rel=1e-12)
    return rows


# ---- generic -----------------------------------------------------------------

@st.composite
def generic_cases(draw):
    case = draw(base_cases(False))
    case['payoffs'] = [draw(st.fixed_dictionaries({
        'how': st.sampled_from(['number', 'fixed', 'function', 'option',
                                'rate', 'base']),
        'y': amounts, 'z': z, 'put': st.booleans()})) for _ in case['xs']]
    return case


def check_generic(case, rec):
    c = gen.clock(case)
    m, n = options.Model(case['m']), options.Model(case['n'])
    seq = tuple if case['tuple'] else list
    made = []
    for p, x in zip(case['payoffs'], case['xs']):
        d, y = c(x), p['y']
        if p['how'] == 'number':
            made.append((y, lambda _, y=y: [(y, (1.0, 0.0, 1.0))]))
        elif p['how'] == 'fixed':
            made.append((dcf.FixedCashFlowPayOff(y),
                         lambda _, y=y: [(y, (1.0, 0.0, 1.0))]))
        elif p['how'] == 'base':
            made.append((dcf.CashFlowPayOff(), lambda _: []))
        elif p['how'] == 'function':
            def fn(model, d=d, y=y):
                if model is None:
                    return 1.0 * y
                return y * model.details(d)['forward']
            made.append((fn, lambda x, d=d, y=y: [
                (y, (1.0, 0.0, 1.0) if x is None else
                 (x.tfv(d)[1], 0.0, x.tfv(d)[1]))]))
        elif p['how'] == 'option':
            if value(m, d, None, False) is None or \
                    value(n, d, None, False) is None:
                return
            k = max(strikes(case['m'], m, d, [p['z']])[0],
                    strikes(case['n'], n, d, [p['z']])[0])
            if value(m, d, k, False) is None or \
                    value(n, d, k, False) is None:
                return
            o = dcf.OptionCashFlowPayOff(d, y, k, p['put'])
            made.append((o, lambda x, d=d, y=y, k=k, p=p: [] if x is None
                         else [(y, value(x, d, k, p['put']))]))
        else:
            e = c(x + build.step_of(case['kind']))
            o = dcf.RateCashFlowPayOff(d, e, y, fixed_rate=0.01)
            yf = c.frac(d, e)
            made.append((o, lambda x, d=d, y=y, yf=yf: [
                (y * yf, (0.01, 0.0, 0.01) if x is None else
                 (0.01 + x.tfv(d)[1], 0.0, 0.01 + x.tfv(d)[1]))]))
    kw = {} if case['origin'] is None else {'origin': c(case['origin'])}
    cfs = dcf.ContingentCashFlowList(
        seq(c(i) for i in case['xs']), seq(p for p, _ in made),
        payoff_model=m.obj, **kw)
    ds, every = common(c, cfs, case)
    rec.label(*[p['how'] for p in case['payoffs']])
    rec.nt(any(p['how'] in ('function', 'option', 'rate')
               for p in case['payoffs']))
    for k, x in enumerate((m, n, None, m)):
        cfs.payoff_model = None if x is None else x.obj
        for d, (p, ref) in zip(ds, made):
            look(cfs[d], d, ref(x), 'model %d: cashflow at %r' % (k, d))
            same(cfs.payoff(d), p, 'payoff')
        shapes(cfs, every)
    # called with other model
    cfs.payoff_model = m.obj
    g = cfs(n.obj)
    for d, (p, ref) in zip(ds, made):
        look(g[d], d, ref(n), 'called with model: cashflow at %r' % d)
        look(cfs[d], d, ref(m), 'after call: cashflow at %r' % d)
    # no payoffs at all
    cfs = dcf.ContingentCashFlowList(
        seq(c(i) for i in case['xs']), payoff_model=m.obj, **kw)
    common(c, cfs, case)
    for d in ds:
        same(float(cfs[d]), 0.0, 'no payoffs: cashflow at %r' % d)
    same(len(cfs.table), 1 + len(ds), 'no payoffs: rows of table')


# ---- options -----------------------------------------------------------------

@st.composite
def option_cases(draw):
    case = draw(base_cases(False))
    n = len(case['xs'])

    def many(s):
        return draw(st.one_of(s, st.lists(s, min_size=n, max_size=n)))
    case['y'] = many(amounts)
    zz = st.one_of(z, z, st.just('zero'))
    case['z'] = many(zz)
    if isinstance(case['z'], list) and draw(st.integers(0, 3)) == 0:
        case['z'] = [None if i % 2 else x for i, x in enumerate(case['z'])]
    case['put'] = many(st.booleans())
    return case


def each(x, n):
    return x if isinstance(x, list) else [x] * n


def expiry(c, case, d):
    for k in ('pay', 'fix'):
        o = gen.offset(c, case[k])
        if o is not None:
            d = d - o
    return d


def check_options(case, rec):
    c = gen.clock(case)
    m, n = options.Model(case['m']), options.Model(case['n'])
    seq = tuple if case['tuple'] else list
    size = len(case['xs'])
    exps = [expiry(c, case, c(x)) for x in case['xs']]
    zs = each(case['z'], size)
    ks = [strikes(case['m'], m, e, [x])[0] for e, x in zip(exps, zs)]
    if not isinstance(case['z'], list):
        ks = [ks[0]] * size
    karg = ks[0] if not isinstance(case['z'], list) else seq(ks)
    kw = {} if case['origin'] is None else {'origin': c(case['origin'])}
    for k in ('pay', 'fix'):
        o = gen.offset(c, case[k])
        if o is not None:
            kw[{'pay': 'pay_offset', 'fix': 'fixing_offset'}[k]] = o

    def arg(x):
        return seq(x) if isinstance(x, list) else x
    cfs = dcf.OptionCashflowList(
        seq(c(x) for x in case['xs']), arg(case['y']), karg,
        arg(case['put']), payoff_model=m.obj, **kw)
    ys, puts = each(case['y'], size), each(case['put'], size)
    ds, every = common(c, cfs, case)
    rec.label(options.short(case['m']['cls']), *[
        k for k in ('pay', 'fix') if case[k] is not None])
    for i, x in enumerate((m, n, m)):
        cfs.payoff_model = x.obj
        vals = [value(x, e, k, p) for e, k, p in zip(exps, ks, puts)]
        if any(v is None for v in vals):
            rec.label('out of domain')
            if i == 1:
                continue
            return
        for d, e, y, k, p, v in zip(ds, exps, ys, ks, puts, vals):
            look(cfs[d], d, [(y, v)], 'model %d: option at %r' % (i, d))
            o = cfs.payoff(d)
            same((o.expiry, o.amount, o.strike, o.is_put), (e, y, k, p),
                 'option terms')
            look(o(x.obj), d, [(y, v)], 'payoff at %r' % d)
            rec.nt(abs(v[0]) > 1e-6)
        rows = shapes(cfs, every)
        for r, d, e, y, k, p, v in zip(rows, ds, exps, ys, ks, puts, vals):
            t, f, vol = x.tfv(e)
            same(r['expiry date'], e, 'expiry date in table')
            same(r['fixing date'], e, 'fixing date in table')
            same(r['notional'], y, 'notional in table')
            same(r['put/call'], 'put' if p else 'call', 'put/call in table')
            if y:
                same(r['long/short'], 'long' if y > 0 else 'short',
                     'long/short in table')
            close(r['strike'], f if k is None else k, 'strike in table')
            close(r['forward'], f, 'forward in table')
            close(r['time to expiry'], t, 'time to expiry in table')
            same(r['valuation date'], c(x.spec['val']),
                 'valuation date in table')
            if vol:
                close(r['volatility'], vol, 'volatility in table')
    cfs.payoff_model = None
    for d in ds:
        same(float(cfs[d]), 0.0, 'option without model')


# ---- strategies --------------------------------------------------------------

@st.composite
def strategy_cases(draw):
    case = draw(base_cases(False))
    nc = draw(st.integers(0, 5))
    np = draw(st.integers(0, 5))
    if draw(st.integers(0, 9)) == 0:
        nc = 11 - np + draw(st.integers(0, 2))
    for k, n in (('calls', nc), ('puts', np)):
        case[k] = {'z': draw(st.lists(st.one_of(z, st.just('zero')),
                                      min_size=n, max_size=n)),
                   'y': draw(st.one_of(amounts, st.lists(
                       amounts, min_size=n, max_size=n)))}
    return case


def check_strategy(case, rec):
    c = gen.clock(case)
    m, n = options.Model(case['m']), options.Model(case['n'])
    seq = tuple if case['tuple'] else list
    exps = [expiry(c, case, c(x)) for x in case['xs']]
    kc = strikes(case['m'], m, exps[0], case['calls']['z'])
    kp = strikes(case['m'], m, exps[0], case['puts']['z'])
    kw = {} if case['origin'] is None else {'origin': c(case['origin'])}
    for k in ('pay', 'fix'):
        o = gen.offset(c, case[k])
        if o is not None:
            kw[{'pay': 'pay_offset', 'fix': 'fixing_offset'}[k]] = o
    yc, yp = case['calls']['y'], case['puts']['y']

    def arg(x):
        return seq(x) if isinstance(x, list) else x

    def make():
        return dcf.OptionStrategyCashflowList(
            seq(c(x) for x in case['xs']), arg(yc), seq(kc), arg(yp), seq(kp),
            payoff_model=m.obj, **kw)
    if len(kc) + len(kp) > 10:
        raises(KeyError, make, 'more than 10 options')
        rec.label('too many')
        # but no limit for a single payoff
        p = dcf.OptionStrategyCashFlowPayOff(exps[0], arg(yc), seq(kc),
                                             arg(yp), seq(kp))
        vals = parts(m, exps[0], kc, yc, kp, yp)
        if vals is not None:
            look(p(m.obj), 0, vals, 'payoff of many options')
        return
    cfs = make()
    ds, every = common(c, cfs, case)
    rec.label('options=%d' % (len(kc) + len(kp)))
    for i, x in enumerate((m, n, m)):
        cfs.payoff_model = x.obj
        vals = [parts(x, e, kc, yc, kp, yp) for e in exps]
        if any(v is None for v in vals):
            rec.label('out of domain')
            if i == 1:
                continue
            return
        for d, v in zip(ds, vals):
            look(cfs[d], d, v, 'model %d: strategy at %r' % (i, d))
            look(cfs.payoff(d)(x.obj), d, v, 'payoff at %r' % d)
        rec.nt(len(kc) and len(kp))
        rows = shapes(cfs, every)
        want = sorted([(k, 0, y) for k, y in zip(kp, each(yp, len(kp)))] +
                      [(k, 1, y) for k, y in zip(kc, each(yc, len(kc)))],
                      key=lambda o: o[:2])
        for r, e in zip(rows, exps):
            if want:
                t, f, vol = x.tfv(e)
                same(r['fixing date'], e, 'fixing date in table')
                close(r['forward'], f, 'forward in table')
                close(r['time to expiry'], t, 'time to expiry in table')
            rest = list(want)
            for j in range(len(want)):
                got = (r['#%d strike' % j],
                       ['put', 'call'].index(r['#%d put/call' % j]),
                       r['#%d notional' % j])
                true(got in rest, 'option %r not in table row %r', got, r)
                rest.remove(got)
                same(got[:2], want[j][:2], 'order of options by strike')
    cfs.payoff_model = None
    for d in ds:
        same(float(cfs[d]), 0.0, 'strategy without model')


def parts(m, e, kc, yc, kp, yp):
    out = []
    for ks, ys, put in ((kc, yc, False), (kp, yp, True)):
        for k, y in zip(ks, each(ys, len(ks))):
            v = value(m, e, k, put)
            if v is None:
                return None
            out.append((y, v))
    return out


# ---- collars -----------------------------------------------------------------

@st.composite
def collar_cases(draw):
    case = draw(base_cases())
    n = len(case['xs'])
    if n == 1 and case['origin'] is None:
        case['origin'] = case['xs'][0] - build.step_of(case['kind'])
    zz = st.one_of(z, z, st.none(), st.just('zero'))
    return dict(case, ys=draw(st.one_of(amounts, st.lists(
        amounts, min_size=n, max_size=n))), cap=draw(zz), floor=draw(zz),
        rate=draw(st.one_of(gen.rates, st.just(0))), dc=draw(
            gen.day_counts(additive=case['kind'] in ('float', 'int'))))


def check_collar(case, rec):
    c = gen.clock(case)
    m, n = options.Model(case['m']), options.Model(case['n'])
    seq = tuple if case['tuple'] else list
    dc = gen.day_count(case['dc'])
    ds = [c(x) for x in case['xs']]
    pay, fix = gen.offset(c, case['pay']), gen.offset(c, case['fix'])
    kw = {'origin': c(case['origin']), 'day_count': dc, 'pay_offset': pay,
          'fixing_offset': fix, 'fixed_rate': case['rate']}
    kw = {k: v for k, v in kw.items() if v is not None}
    ys = case['ys']
    if isinstance(ys, list):
        ys = seq(ys)
    # periods
    per = []
    for i, d in enumerate(ds):
        if i:
            s = ds[i - 1]
        elif case['origin'] is None:
            s = ds[0] - (ds[1] - ds[0])
        else:
            s = c(case['origin'])
        e = d
        if pay is not None:
            e = e - pay
            if i or case['origin'] is None:
                s = s - pay
        per.append((s, e, gen.frac(case['dc'], c, s, e),
                    s if fix is None else s - fix))
    ks = strikes(case['m'], m, per[0][3], [case['floor'], case['cap']])
    floor, cap = ks
    if floor is not None and cap is not None and floor > cap:
        floor, cap = cap, floor
    plain = dcf.RateCashFlowList(seq(ds), ys, **kw)
    cfs = dcf.ContingentRateCashFlowList(
        seq(ds), ys, floor_strike=floor, cap_strike=cap,
        payoff_model=m.obj, **kw)
    same(cfs.fixed_rate, case['rate'], 'fixed rate')
    _, every = common(c, cfs, case)
    rec.label(options.short(case['m']['cls']), 'floor=%s cap=%s' % (
        floor is not None, cap is not None))
    amts = each(case['ys'], len(ds))
    for i, x in enumerate((m, n, m)):
        cfs.payoff_model = x.obj
        plain.forward_curve = x.fwd
        vals = []
        for s, e, yf, fd in per:
            t, f, vol = x.tfv(fd)
            vals.append((f, None if floor is None else
                         value(x, fd, floor, True), None if cap is None else
                         value(x, fd, cap, False), t, vol))
        if any((floor is not None and v[1] is None) or
               (cap is not None and v[2] is None) for v in vals):
            rec.label('out of domain')
            if i == 1:
                continue
            return
        for d, y, (s, e, yf, fd), (f, a, b, t, vol) in zip(
                ds, amts, per, vals):
            r = case['rate'] + f
            w = 'model %d: cashflow at %r' % (i, d)
            close(plain[d], y * yf * r, 'plain rate at %r' % d, rel=1e-9,
                  abs_=1e-12 * abs(y * yf) * (abs(f) + 1) + 1e-12)
            ps = [(1.0, (float(plain[d]), 0.0, float(plain[d])))]
            if a is not None:
                ps.append((y * yf, a))
            if b is not None:
                ps.append((-y * yf, b))
            look(cfs[d], d, ps, w)
            if 'Intrinsic' in x.spec['cls']:
                g = f
                if cap is not None:
                    g = min(g, cap)
                if floor is not None:
                    g = max(g, floor)
                close(cfs[d], y * yf * (case['rate'] + g), 'intrinsic ' + w,
                      rel=1e-9, scale=abs(y * yf) * (abs(f) + abs(r)))
            rec.nt((a is not None and a[0] > 1e-6) or
                   (b is not None and b[0] > 1e-6))
        rows = shapes(cfs, every)
        for row, y, (s, e, yf, fd), (f, a, b, t, vol) in zip(
                rows, amts, per, vals):
            same((row['start date'], row['end date']), (s, e),
                 'period in table')
            close(row['year fraction'], yf, 'year fraction in table')
            same(row['notional'], y, 'notional in table')
            same(row['fixed rate'], case['rate'], 'fixed rate in table')
            same(row['fixing date'], fd, 'fixing date in table')
            close(row['forward rate'], f, 'forward rate in table')
            for nm, v, k in (('floorlet', a, floor), ('caplet', b, cap)):
                if k is None:
                    true(row.get(nm, '') == '', '%s without strike', nm)
                    continue
                look(row[nm], 0, [(y * yf, v)], nm + ' in table')
                same(row[nm + ' strike'], k, nm + ' strike in table')
                if vol:
                    close(row[nm + ' volatility'], vol,
                          nm + ' volatility in table')
            if a is not None or b is not None:
                close(row['time to expiry'], t, 'time to expiry in table')
        # forward curve instead of a model: no options
        cfs.payoff_model = x.fwd
        for d in ds:
            close(cfs[d], plain[d], 'curve instead of model', rel=1e-12)
    cfs.payoff_model = None
    plain.forward_curve = None
    for d in ds:
        close(cfs[d], plain[d], 'no model', rel=1e-12)
    cfs.payoff_model = m.obj
    before = [float(cfs[d]) for d in ds]
    cfs.fixed_rate = case['rate'] + 0.01
    for d, y, (s, e, yf, fd), b in zip(ds, amts, per, before):
        close(cfs[d] - b, y * yf * 0.01, 'fixed rate changed', rel=1e-9,
              scale=abs(b), abs_=1e-12 * (1 + abs(b)))


FACETS = [
    Facet('generic', generic_cases(), check_generic, 2000,
          rule='a payoff that depends on the model'),
    Facet('options', option_cases(), check_options, 2500,
          rule='an option with value'),
    Facet('strategies', strategy_cases(), check_strategy, 1500,
          rule='calls and puts'),
    Facet('collars', collar_cases(), check_collar, 2500,
          rule='a floorlet or caplet with value'),
]

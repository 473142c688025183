"""P01 interpolations"""
from hypothesis import strategies as st

import dcf
from dcf import interpolation as ip
from vlib.core import Facet, close, same, true, raises, fail
from vlib import gen, oracle

STEP = ['left', 'constant', 'right', 'nearest']
GRID = ['no', 'zero', 'default_value_interpolation']
LOG = ['loglinear', 'loglinearrate', 'logconstantrate']
NAMES = STEP + GRID + ['linear'] + LOG


def ys_of(name_is_log, ns, amp=0):
    a = 2.0 ** amp
    if name_is_log:
        return [2.0 ** (n / 64.0) * a for n in ns]
    return [n / 16.0 * a for n in ns]


@st.composite
def points(draw, max_size=10, repeat=False):
    size = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 6, 8, max_size]))
    span = draw(st.sampled_from([12, 40, 400, 4000]))
    lo = draw(st.sampled_from([0, 0, 1, -span, -span // 2]))
    xs = draw(st.lists(st.integers(lo, lo + span), min_size=size,
                       max_size=size, unique=True))
    order = draw(st.sampled_from(['sorted', 'given', 'reversed']))
    if order == 'sorted':
        xs = sorted(xs)
    elif order == 'reversed':
        xs = sorted(xs, reverse=True)
    if draw(st.integers(0, 11)) == 11:
        span = max(span, 400)
        xs = draw(gen.many(11, 60, lo, lo + span))
        size = len(xs)
    ns = draw(st.lists(st.integers(-256, 256), min_size=size, max_size=size))
    unit = draw(st.sampled_from([1, 1, 1, 8, 64, 64, 2 ** 20, 2.0 ** -10]))
    amp = draw(st.sampled_from([0, 0, 0, -12, -30, -60, 30]))
    return {'xs': xs, 'ns': ns, 'unit': unit, 'amp': amp}


queries = st.lists(st.tuples(st.integers(0, 12), st.integers(0, 16)).map(list),
                   min_size=1, max_size=8)


def query_points(xs, qs):
    """points on, between, and outside of sorted xs (dyadic numbers)"""
    out = list(xs)
    span = max(1.0, xs[-1] - xs[0])
    for i, k in qs:
        i = i % (len(xs) + 1)
        if i == 0:
            out.append(xs[0] - (k + 1) * span / 64)
        elif i == len(xs):
            out.append(xs[-1] + (k + 1) * span / 64)
        else:
            a, b = xs[i - 1], xs[i]
            out.append(a + (b - a) * k / 16)
    if xs[0] < 0 < xs[-1]:
        out.append(0.0)
    out.append((xs[0] + xs[-1]) / 2)
    return out


def build_xy(case, log):
    u = case['unit']
    xs = [x if u == 1 else x / u for x in case['xs']]
    return xs, ys_of(log, case['ns'], case.get('amp', 0))


def classify(case, rec, xs):
    s = sorted(xs)
    rec.label('n=1' if len(xs) == 1 else 'n=2' if len(xs) == 2 else 'n>2')
    if len(xs) > 10:
        rec.label('n>10')
    if list(xs) != s:
        rec.label('unsorted')
    if 0 in xs:
        rec.label('zero-point')
    if s[0] < 0:
        rec.label('negative-x')


def compare(f, name, xs, ys, qs, what, ref=None):
    s = sorted(zip(xs, ys))
    sx, sy = [float(a) for a, _ in s], [b for _, b in s]
    scale = 0.0
    hits = 0
    tiny = min(1.0, max(map(abs, sy)))
    for x in query_points(sx, qs):
        try:
            want = ref(sx, sy, x) if ref else oracle.value(name, sx, sy, x)
        except oracle.Undefined:
            continue
        hits += 1
        got = f(x)
        w = '%s at %r' % (what, x)
        if want is None:
            same(got, None, w)
        else:
            close(got, want, w, rel=1e-8, abs_=1e-9 * tiny,
                  scale=max(map(abs, sy)) if not name or
                  not name.startswith('log') else scale)
    return hits


# ---- facet 1: interpolation classes ---------------------------------------

def check_class(case, rec):
    name = case['name']
    log = name in LOG
    xs, ys = build_xy(case, log)
    if name.endswith('rate') and not any(xs):
        rec.label('only-zero-point')
        return
    cls = getattr(ip, name)
    kw = {}
    if name == 'default_value_interpolation':
        kw = {'default_value': case['default']}
    how = case['how']
    if how == 'dict' and not kw:
        d = dict(zip(xs, ys))
        f = cls.from_dict(d)
    elif how == 'tuple':
        f = cls(tuple(xs), tuple(ys), **kw)
    else:
        x_in, y_in = list(xs), list(ys)
        f = cls(x_in, y_in, **kw)
        same((x_in, y_in), (xs, ys), 'arguments after construction')
    classify(case, rec, xs)
    rec.label(name)
    default = kw.get('default_value')
    hits = compare(
        f, name, xs, ys, case['qs'], name,
        lambda a, b, x: oracle.interp(name, a, b, x, default))
    for x, y in zip(xs, ys):
        close(f(x), y, '%s at given point %r' % (name, x), rel=1e-9,
              abs_=0, scale=max(map(abs, ys)) if not log else 0)
        if not (name.endswith('rate') and x == 0):
            true(x in f, '%r not in %s', x, name)
    rec.nt(len(xs) > 1 and hits > len(xs))


class_cases = st.builds(
    lambda p, n, h, q, d: dict(p, name=n, how=h, qs=q, default=d),
    points(), st.sampled_from(NAMES), st.sampled_from(['list', 'tuple',
                                                       'dict']),
    queries, st.sampled_from([None, 0, 42, -1.5]))


# ---- facet 2: piecewise schemes -------------------------------------------

PARTS = ['constant', 'left', 'right', 'nearest', 'linear', 'zero', 'no',
         'loglinear']
RATE_PARTS = ['loglinearrate', 'logconstantrate']


def check_scheme(case, rec):
    parts = case['parts']
    log = case['log']
    xs, ys = build_xy(case, log)
    base = getattr(ip, case['base'])
    d = list(oracle.SCHEMES[case['base']]) \
        if case['base'] in oracle.SCHEMES else ['constant', 'linear',
                                                'constant']
    if not log:
        parts = ['linear' if p.startswith('log') else p for p in parts]
    if len(parts) == 3:
        full = parts
    elif len(parts) == 2:
        full = [parts[1], parts[0], parts[1]]
    elif len(parts) == 1:
        full = [d[0], parts[0], d[2]]
    else:
        full = d
    cls = [getattr(ip, p) for p in parts]
    if case['as_class'] and len(cls) == 1:
        arg = cls[0]
    else:
        arg = (tuple if case['as_tuple'] else list)(cls) if cls else None
    rate = any('rate' in p for p in full)
    if rate and (0 in xs and not set(full) <= set(RATE_PARTS)):
        xs = [x + 1 if x >= 0 else x for x in xs]
    if rate and not any(xs):
        return
    if not log and any('log' in p for p in full):
        return
    x_in, y_in = (tuple(xs), tuple(ys)) if case['as_tuple'] else (xs, ys)
    f = base(x_in, y_in, arg) if arg is not None or case['as_class'] \
        else base(x_in, y_in)
    classify(case, rec, xs)
    rec.label('parts=%d' % len(parts))
    hits = compare(f, '', xs, ys, case['qs'], '%s %s' % (case['base'], full),
                   lambda a, b, x: oracle.scheme(full, a, b, x))
    rec.nt(hits > len(xs) and len(set(full)) > 1)


part_lists = st.one_of(
    st.just([]),
    st.lists(st.sampled_from(PARTS), min_size=1, max_size=3),
    st.lists(st.sampled_from(PARTS), min_size=3, max_size=3),
    st.lists(st.sampled_from(RATE_PARTS), min_size=3, max_size=3))

scheme_cases = st.builds(
    lambda p, b, pl, t, c, q: dict(
        p, base=b, parts=pl, as_tuple=t, as_class=c, qs=q,
        log=any('log' in x for x in pl) or 'log' in b),
    points(), st.sampled_from(['interpolation_scheme', 'interpolation_scheme',
                               'linear_scheme', 'log_linear_scheme',
                               'zero_linear_scheme',
                               'log_linear_rate_scheme']),
    part_lists, st.booleans(), st.booleans(), queries)


# ---- facet 3: curves find interpolations by name and class -----------------

CURVE_NAMES = [n for n in NAMES] + sorted(oracle.SCHEMES)


def check_curve(case, rec):
    name = case['name']
    log = 'log' in name
    xs, ys = build_xy(case, log)
    if 'rate' in name and not any(xs):
        return
    arg = name if case['by'] == 'name' else getattr(ip, name)
    if case['by'] == 'registered':
        class MyCurve(dcf.Curve):
            INTERPOLATIONS = {'mine': getattr(ip, name)}
        c = MyCurve(xs, ys, 'mine')
    elif case['by'] == 'default':
        name = 'linear_scheme'
        c = dcf.Curve(xs, ys)
    else:
        c = dcf.Curve(xs, ys, interpolation=arg)
    classify(case, rec, xs)
    rec.label(name, case['by'])
    same(list(c.domain), sorted(xs), 'domain')
    hits = compare(c, name if name in NAMES else '', xs, ys, case['qs'],
                   'Curve with %s by %s' % (name, case['by']),
                   lambda a, b, x: oracle.value(name, a, b, x))
    qq = query_points([float(x) for x in sorted(xs)], case['qs'])
    if not log:
        same(c(qq), tuple(c(x) for x in qq), 'curve of list')
        same(c(tuple(qq)), tuple(c(x) for x in qq), 'curve of tuple')
    rec.nt(hits > len(xs))


curve_cases = st.builds(
    lambda p, n, b, q: dict(p, name=n, by=b, qs=q),
    points(), st.sampled_from(CURVE_NAMES),
    st.sampled_from(['name', 'name', 'class', 'registered', 'default']),
    queries)


# ---- facet 4: rejected input ----------------------------------------------

def check_reject(case, rec):
    kind = case['reject']
    xs, ys = build_xy(case, True)
    rec.label(kind)
    rec.nt(len(xs) > 1)
    if kind == 'nonpositive':
        i = case['i'] % len(ys)
        ys[i] = -ys[i] if case['neg'] else 0.0
        cls = getattr(ip, case['name'])
        raises(ValueError, lambda: cls(xs, ys),
               '%s of values %r' % (case['name'], ys))
        sch = {'loglinear': 'log_linear_scheme'}.get(
            case['name'], 'log_linear_rate_scheme')
        raises(ValueError, lambda: dcf.Curve(xs, ys, sch),
               'curve %s of values %r' % (sch, ys))
    elif kind == 'length':
        zs = ys + [1.0] if case['neg'] else ys[:-1]
        raises(Exception, lambda: ip.interpolation_scheme(xs, zs),
               'scheme with %d points, %d values' % (len(xs), len(zs)))
        raises(Exception, lambda: ip.linear_scheme(xs, zs),
               'linear_scheme with %d points, %d values' % (len(xs), len(zs)))
        raises(ValueError, lambda: dcf.Curve(xs, zs),
               'curve with %d points, %d values' % (len(xs), len(zs)))
    elif kind == 'repeat':
        xs = xs + [xs[case['i'] % len(xs)]]
        ys = ys + [ys[-1] + 1]
        for n in ('interpolation_scheme', 'linear_scheme',
                  'log_linear_scheme', 'zero_linear_scheme'):
            raises(Exception, lambda: getattr(ip, n)(xs, ys),
                   '%s with repeated point' % n)
    elif kind == 'arity':
        parts = (ip.constant, ip.linear, ip.constant, ip.linear)
        raises(Exception, lambda: ip.interpolation_scheme(xs, ys, parts),
               'scheme of four parts')
        raises(Exception, lambda: ip.interpolation_scheme(xs, ys, dict),
               'scheme of a class that is no interpolation')


reject_cases = st.builds(
    lambda p, r, i, n, g: dict(p, reject=r, i=i, name=n, neg=g),
    points(), st.sampled_from(['nonpositive', 'nonpositive', 'length',
                               'repeat', 'arity']),
    st.integers(0, 20), st.sampled_from(LOG), st.booleans())


def check_flat(case, rec):
    y = case['y'] / 16.0
    f = ip.flat(y) if y or case.get('int') else ip.flat()
    for x in case['qs']:
        close(f(x / 8.0), y, 'flat', abs_=0)
    rec.nt(y != 0)


flat_cases = st.fixed_dictionaries({
    'y': st.integers(-400, 400),
    'qs': st.lists(st.integers(-400, 400), min_size=1, max_size=5)})

FACETS = [
    Facet('class', class_cases, check_class, 6000,
          rule='at least two points and a query off the points'),
    Facet('scheme', scheme_cases, check_scheme, 4500,
          rule='parts differ and a query off the points'),
    Facet('curve', curve_cases, check_curve, 4500,
          rule='a query off the points'),
    Facet('reject', reject_cases, check_reject, 1200,
          rule='at least two points'),
    Facet('flat', flat_cases, check_flat, 200, rule='value not zero'),
]

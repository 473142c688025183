"""P05 curves can be rebuilt from their own arguments"""
from hypothesis import strategies as st

import dcf
from vlib.core import Facet, close2, close, same, true
from vlib import gen, build

CLS = (['Curve', 'DateCurve', 'ForwardCurve', 'FxForwardCurve'] + build.IR
       + build.CREDIT + build.VOL)
IPS = [None, None, None, 'linear_scheme', 'constant', 'log_linear_scheme',
       'right', 'linear', 'mine']
_CACHE = {}


def registered(name):
    """subclass which knows day counts and one more interpolation by name"""
    if name not in _CACHE:
        base = getattr(dcf, name)
        members = {'INTERPOLATIONS': {'mine': dcf.interpolation.right}}
        if name != 'Curve':
            members['DAY_COUNT'] = {
                '_dc_365': gen._dc_365, '_dc_360': gen._dc_360,
                'act365': gen._dc_365, 'act360': gen._dc_360}
        _CACHE[name] = type(name, (base,), members)
    return _CACHE[name]


@st.composite
def cases(draw):
    cls = draw(st.sampled_from(CLS))
    kind = draw(st.sampled_from(['float', 'int'] if cls == 'Curve'
                                else gen.KINDS))
    ipn = draw(st.sampled_from(IPS))
    if ipn == 'linear' and 'log' in build.DEFAULT_IP[cls]:
        ipn = 'linear_scheme'   # stays positive beyond the points
    name = ipn or build.DEFAULT_IP[cls]
    far = 8 * build.step_of(kind)
    xs = draw(gen.axis(1, 6, 0, draw(st.sampled_from(
        [8, 30, build.span_of(kind)]))))
    origin = None
    if cls != 'Curve':
        origin = draw(st.one_of(st.none(), st.integers(-far, -1),
                                st.integers(-far, far)))
        if 'rate' in name or 'rate' in build.DEFAULT_IP[cls]:
            origin = draw(st.integers(-far, -1))
    base = draw(gen.bases)
    dc = None if cls == 'Curve' else draw(st.sampled_from(
        [None, None, 'act365', 'act360']))
    if cls in build.RATE and not (ipn and 'log' in ipn and cls not in
                                  build.PROB):
        ys = draw(build.data(cls, kind, base, dc, origin, xs))
        val = st.sampled_from([0.97, 0.8, 0.6]) \
            if cls in build.PROB or cls in build.FROM_ORIGIN else \
            st.integers(1, 50).map(lambda i: i / 100.0)
    else:
        log = 'log' in name or 'log' in build.DEFAULT_IP[cls]
        val = st.integers(1 if log else -400, 400).map(lambda i: i / 64.0)
        ys = draw(st.lists(val, min_size=len(xs), max_size=len(xs)))
    return {'cls': cls, 'kind': kind, 'base': base, 'ip': ipn,
            'iphow': draw(st.sampled_from(['name', 'class'])),
            'xs': xs, 'ys': ys, 'origin': origin,
            'dc': dc,
            'dchow': draw(st.sampled_from(['name', 'function'])),
            'tenor': draw(build.tenors(kind)) if cls in build.RATE else None,
            'tuple': draw(st.booleans()),
            'add': draw(st.one_of(st.none(), st.tuples(
                st.integers(-400, build.span_of(kind)), val).map(list))),
            'fix': draw(st.booleans()), 'spread': draw(st.booleans()),
            'yield': draw(st.integers(-8, 24)) / 200.0,
            'yieldhow': draw(st.sampled_from(['rate', 'curve', 'function'])),
            'qs': draw(build.qs)}


def _make(case):
    c = gen.clock(case)
    cls = registered(case['cls'])
    extra = {}
    if case['dc'] and case['dchow'] == 'name':
        extra['day_count'] = case['dc']
    if case['ip'] and case['iphow'] == 'class' and case['ip'] != 'mine':
        extra['interpolation'] = getattr(dcf.interpolation, case['ip'])
    y = case['yield']
    if case['cls'] == 'ForwardCurve':
        if case['yieldhow'] == 'rate':
            extra['yield_curve'] = y
        else:
            extra['yield_curve'] = dcf.ZeroRateCurve([c(0)], [y])
    elif case['cls'] == 'FxForwardCurve':
        extra['domestic_curve'] = dcf.ZeroRateCurve([c(0)], [y])
        extra['foreign_curve'] = dcf.ZeroRateCurve([c(0), c(500)],
                                                   [y / 2, 0.01])
    spec = dict(case, iphow='name')
    return build.build(spec, cls=cls, **extra), cls


def check(case, rec):
    c = gen.clock(case)
    name = case['cls']
    f, cls = _make(case)
    rec.label(name, 'ip=%s' % case['ip'], 'dc=%s' % case['dc'])
    rec.nt(len(case['xs']) > 1)
    xs = list(case['xs'])
    isdate = name != 'Curve'
    if case['add'] and case['add'][0] != case['origin']:
        n, y = case['add']
        if 'rate' in (case['ip'] or build.DEFAULT_IP[name]) and \
                n <= case['origin']:
            n = case['origin'] + 300
        f[c(n)] = y
        if n not in xs:
            xs.append(n)
            rec.label('point-added')
    qs = build.queries(xs, case['qs'])
    clean = [f(c(n)) for n in qs]
    origin = f.origin if isdate else None
    if isdate and case['fix']:
        f.fixings[c(qs[0])] = 0.123
        rec.label('fixing')
    if name in build.RATE and case['spread']:
        f.spread = dcf.DateCurve([c(0)], [0.25])
        rec.label('spread')
    kw = f.kwargs
    same(list(kw['domain']), [c(n) for n in sorted(xs)], 'reported domain')
    same(len(kw['data']), len(xs), 'length of reported data')
    g = cls(**kw)

    def compare(g, what, at):
        true(type(g) is cls, 'type of %s', what)
        if isdate:
            same(g.origin, origin, 'origin of ' + what)
            close2(g.day_count(c(1000)), f.day_count(c(1000)),
                   'year fraction of ' + what, rel=1e-12)
        for n, want in zip(qs, clean):
            if not at(n):
                continue
            got = g(c(n))
            if want is None:
                same(got, want, '%s at %r' % (what, c(n)))
            else:
                close2(got, want, '%s at %r' % (what, c(n)), rel=1e-8,
                       abs_=1e-9, scale=10)
        if name in build.RATE:
            same(g.forward_tenor, f.forward_tenor, 'forward tenor')

    compare(g, 'curve rebuilt from its arguments', lambda n: True)
    same(list(g.domain), [c(n) for n in sorted(xs)], 'points')
    # still the same arguments
    kk = g.kwargs
    same(sorted(kk), sorted(kw), 'names of arguments')
    for k in kw:
        if k == 'data':
            for a, b in zip(kk[k], kw[k]):
                close2(a, b, 'reported data', rel=1e-9, abs_=1e-9)
        else:
            same(kk[k], kw[k], 'reported %s' % k)

    # copies
    if name in build.RATE:
        f.spread = None
    if isdate:
        f.fixings.clear()
    last = max(xs)
    price = name in ('ForwardCurve', 'FxForwardCurve')
    default = case['ip'] is None and (
        case['origin'] is not None and case['origin'] < min(xs))
    grid = [c(n) for n in sorted(xs)]
    if name not in build.RATE:
        compare(cls(f), 'copy', lambda n: not price or n <= last)
        compare_on_grid = cls(tuple(grid) if case['tuple'] else grid, f)
        if isdate:
            compare(compare_on_grid, 'copy on own points',
                    lambda n: not price or n <= last)
        rec.label('copy')
        return
    keep = {} if case['tenor'] is None else {'forward_tenor':
                                             f.forward_tenor}
    at = (lambda n: True) if default else (lambda n: n in xs)
    if case['kind'] == 'bd' or name in ('ZeroRateCurve', 'ShortRateCurve') \
            or (name == 'CashRateCurve' and case['tenor'] is not None):
        if min(xs) >= build.origin_of(dict(case, xs=xs)):
            h = cls(f, **keep)
            compare(h, 'copy', at)
            true(set(grid) <= set(h.domain), 'points of copy')
            rec.label('copy')
    if case['kind'] == 'bd' or not name.startswith('Marginal'):
        if name == 'CashRateCurve' and case['kind'] != 'bd' and \
                case['tenor'] is None:
            return
        h = cls(tuple(grid) if case['tuple'] else grid, f, **keep)
        compare(h, 'copy on own points', at)
        same(list(h.domain), grid, 'points of copy')


FACETS = [
    Facet('rebuild', cases(), check, 6000, rule='at least two points'),
]

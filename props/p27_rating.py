"""P27 rating classes"""
from hypothesis import strategies as st

from dcf import RatingClass
from dcf import ratingclass
from vlib.core import Facet, close, same, true, raises

ASSUMPTIONS = [
    'probabilities of classes differ by at least 1e-5 relatively',
    'weights are documented to 7 digits, which bounds mixing errors',
    'probabilities outside of the scale are so by at least 1e-6']


class Sloppy(RatingClass):
    SLOPPY = True


NAMES = {'short': ratingclass.SHORT_MASTER_SCALE,
         'medium': ratingclass.MASTER_SCALE,
         'long': ratingclass.LONG_MASTER_SCALE}


@st.composite
def cases(draw):
    which = draw(st.sampled_from(['short', 'medium', 'long', 'own', 'own',
                                  'own']))
    if which == 'own':
        n = draw(st.integers(2, 12))
        if draw(st.integers(0, 24)) == 24:
            n = draw(st.integers(13, 40))
        names = ['%s%d' % (draw(st.sampled_from('ABCxyz')), i)
                 for i in range(n)]
        names = list(draw(st.permutations(names)))
    else:
        names = list(NAMES[which])
        n = len(names)
    how = draw(st.sampled_from(['dict', 'dict', 'scale', 'list', 'tuple',
                                'keys', 'value']))
    # increasing numbers by factors (of 1e-4), from the top
    top = draw(st.sampled_from([1.0, 1, 1.0, 0.5, 0.03]))
    fs = draw(st.lists(st.one_of(
        st.integers(1, 9999), st.integers(5000, 9990),
        st.sampled_from([1000, 5000, 9999])), min_size=n - 1,
        max_size=n - 1))
    ps = [top]
    for f in fs:
        ps.append(ps[-1] * f / 10000.0)
    if draw(st.integers(0, 5)) == 0:
        ps[-1] = draw(st.sampled_from([0, 0.0]))
    return {'which': which, 'names': names, 'how': how, 'ps': ps[::-1],
            'order': draw(st.permutations(range(n))),
            'value': draw(st.one_of(st.none(), st.integers(1, 9000))),
            'qs': draw(st.lists(st.tuples(
                st.integers(0, n), st.integers(0, 10000)).map(list),
                min_size=1, max_size=6)),
            'out': draw(st.integers(1, 100)),
            'change': draw(st.booleans())}


def make(case):
    names, how = case['names'], case['how']
    n = len(names)
    if how in ('dict', 'scale'):
        d = {names[i]: case['ps'][i] for i in case['order']}
        scale = d if how == 'dict' else RatingClass.master_scale(d)
        return scale, [float(p) for p in case['ps']]
    first = 10.0 ** (1 - n)
    if how == 'value':
        first = (case['value'] or 1) / 10000.0
        scale = RatingClass.master_scale.fromkeys(tuple(names), first)
    elif how == 'keys':
        scale = RatingClass.master_scale.fromkeys(x for x in names)
    else:
        scale = names if how == 'list' else tuple(names)
    return scale, [first ** (1 - i / (n - 1.0)) for i in range(n)]


def check(case, rec):
    names = case['names']
    n = len(names)
    scale, ps = make(case)
    r = RatingClass(names[0], scale)
    ms = r.masterscale
    rec.label(case['which'], case['how'])
    verify_scale(ms, names, ps)
    gaps = min(b - a * (1 + 1e-5) for a, b in zip(ps, ps[1:]))
    true(gaps > 0, 'generated scale')
    if case['how'] in ('list', 'tuple', 'dict'):
        scale = ms
    else:
        true(ms is scale, 'scale of class is not the scale given')
    inside(case, rec, scale, names, ps, RatingClass)
    inside(case, rec, scale, names, ps, Sloppy)
    # out of scale
    eps = case['out'] ** 2 * 1e-6
    for p, k in ((ps[-1] * (1 + eps), n - 1), (ps[0] * (1 - eps), 0),
                 (-eps, 0), (ps[-1] + eps, n - 1)):
        if ps[0] == 0.0 == p or (p < 0 and not ps[0]):
            continue
        if ps[0] * (1 - 1e-6) < p < ps[-1] * (1 + 5e-7):
            continue
        raises(ValueError, lambda: list(RatingClass(p, ms)),
               'vector of %r' % p)
        v = list(Sloppy(p, ms))
        same(len(v), n, 'length of sloppy vector')
        close(v[k] * ps[k], p, 'sloppy vector of %r' % p, rel=2e-7,
              abs_=1e-7 * ps[k])
        same([x for i, x in enumerate(v) if i != k], [0.0] * (n - 1),
             'other weights of sloppy vector')
    raises(TypeError, lambda: RatingClass('no class', ms), 'unknown name')
    raises(TypeError, lambda: RatingClass('no class'), 'name without scale')
    plain = RatingClass(ps[-1])
    same(list(plain), [], 'vector without scale')
    same(float(plain), ps[-1], 'value without scale')
    true(plain.masterscale is None, 'scale of class without one')
    same(str(plain), 'RatingClass(%0.7f)' % ps[-1], 'str without scale')
    if case['change']:
        # scales can be changed
        k = len(names) // 2
        lo, hi = ps[k - 1], ps[k + 1] if k + 1 < n else ps[k] * 2
        ps = list(ps)
        ps[k] = (lo + 2 * hi) / 3
        ms[names[k]] = ps[k]
        verify_scale(ms, names, ps)
        inside(case, rec, ms, names, ps, RatingClass)


def verify_scale(ms, names, ps):
    n = len(names)
    true(isinstance(ms, RatingClass.master_scale), 'type %r of scale',
         type(ms))
    same(len(ms), n, 'number of classes')
    same(ms.keys(), names, 'names by probability')
    for what, got in (('values', ms.values()),
                      ('items', [v for _, v in ms.items()]),
                      ('classes', [float(x) for x in ms.rating_classes()])):
        same(len(got), n, 'number of ' + what)
        for a, b in zip(got, ps):
            close(a, b, what, rel=1e-11, abs_=0)
    same([k for k, _ in ms.items()], names, 'items')
    for x in ms.rating_classes():
        true(isinstance(x, RatingClass) and x.masterscale is ms,
             'rating class of scale is %r', x)
    same(str(ms), '[%s]' % ', '.join(
        '[%s]-RatingClass(%0.7f)' % (k, float(ms[k])) for k in names), 'str')
    same(repr(ms), 'master_scale(%s)' % str(ms)[1:-1], 'repr')
    true(ms.get('no class') is None, 'class by unknown name')
    same(ms.get('no class', 5), 5, 'class by unknown name')


def inside(case, rec, scale, names, ps, cls):
    n = len(names)
    for i, k in enumerate(names):
        for x in (cls(k, scale), cls(float(scale[k]), scale), scale.get(k)):
            close(float(x), ps[i], 'value of %s' % k, rel=1e-11, abs_=0)
            unit = [float(i == j) for j in range(n)]
            same(list(x), unit, 'vector of %s' % k)
            same(x.vector, unit, 'vector property of %s' % k)
            same(str(x), k, 'str')
            same(x.name, k, 'name')
    for k, w in case['qs']:
        if k >= n - 1:
            k, w = n - 2, w / 10000.0
        w = w / 10000.0
        p = ps[k] * (1 - w) + ps[k + 1] * w
        x = cls(p, scale)
        close(float(x), p, 'value', rel=1e-14)
        same(x.value, float(x), 'value property')
        v = list(x)
        same(len(v), n, 'length of vector')
        true(min(v) >= 0 and max(v) <= 1, 'weights of %r are %r', p, v)
        close(sum(v), 1, 'sum of weights of %r' % p, rel=1e-12)
        on = [j for j, a in enumerate(v) if a]
        true(k <= on[0] and on[-1] <= k + 1, 'classes of %r are not those '
             'next to it: %r', p, v)
        close(sum(a * b for a, b in zip(v, ps)), p, 'mixed probability of '
              '%r' % v, rel=1e-7, abs_=1e-7 * ps[k + 1])
        same(list(x), v, 'vector again')
        same(x.vector, v, 'vector property')
        if 1e-6 < w < 1 - 1e-6 and ps[k] * (1 + 1e-6) < p < ps[
                k + 1] * (1 - 1e-6):
            same(str(x), ' + '.join('%.7f %s' % (v[j], names[j])
                                    for j in on), 'str')
            rec.nt()
        same(x.name, str(x), 'name')
        same(repr(x), '[%s]-%s(%0.7f)' % (x, cls.__name__, p), 'repr')


FACETS = [
    Facet('scales', cases(), check, 4000,
          rule='at least one probability strictly between two classes'),
]

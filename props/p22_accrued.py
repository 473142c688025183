"""P22 accrued interest"""
from hypothesis import strategies as st

import dcf
from vlib.core import Facet, close, same, true
from vlib import gen, build, products
from props import p15_cashflows as p15

ASSUMPTIONS = [
    'valuation dates are not the end of an interest period',
    'interest periods have positive length by their day count',
    'forecasts of contingent lists are taken as of the date of their model']


@st.composite
def cases(draw):
    kind, base = draw(gen.kinds), draw(gen.bases)
    if kind == 'int':
        kind = 'bd'
    types = draw(st.sampled_from([
        ('rate',), ('rate',), ('collar',), ('rate', 'collar', 'legs'),
        ('fixed', 'rate', 'contingent', 'legs')]))
    return {'kind': kind, 'base': base,
            'p': draw(products.specs(kind, base, types)),
            'v': draw(st.lists(st.integers(0, 512), min_size=2, max_size=6))}


def periods(spec):
    if spec['type'] == 'rate' or spec['type'] == 'collar':
        return p15.periods(spec)
    return []


def check(case, rec):
    c = gen.clock(case)
    p = case['p']
    obj = products.make(p)
    rec.label(p['type'], case['kind'])
    per = []
    for leaf in products.leaves(p):
        own = products.make(leaf)
        for d, y, s, e, yf, fd in periods(leaf):
            per.append((s, e, leaf['dc'], float(own[d])))
    ends = {q[1] for q in per}
    vs = set()
    xs = products.dates(p)
    lo, hi = min(xs), max(xs)
    for k in case['v']:
        vs.add(c(lo - 100 + (hi - lo + 200) * k // 512))
        if per:
            s, e = per[k % len(per)][:2]
            a, b = c.num(s), c.num(e)
            vs.add(c(int(a + (b - a) * ((k * 37) % 512) // 512)))
            if k % 3 == 0:
                vs.add(s)
            if case['kind'] == 'float' and e > s:
                # next to the boundaries
                vs.add(e - (e - s) * 2.0 ** -(k % 27 + 1))
                vs.add(s + (e - s) * 2.0 ** -(k % 27 + 1))
    for v in sorted(vs):
        if v in ends:
            rec.label('boundary')
            continue
        want = scale = 0.0
        n = 0
        for s, e, dc, flow in per:
            if s < v < e:
                total = gen.frac(dc, c, s, e)
                if total <= 0:
                    return
                share = gen.frac(dc, c, s, v) / total
                want += flow * share
                scale += abs(flow)
                n += 1
        got = close(dcf.get_interest_accrued(obj, v), want,
                    'accrued interest at %r' % (v,), rel=1e-9, abs_=1e-12,
                    scale=scale)
        if not n:
            same(float(got), 0.0, 'accrued interest at %r without period' % (
                v,))
        true(abs(got) <= scale * (1 + 1e-9) + 1e-12,
             'accrued interest exceeds coupons')
        rec.nt(want != 0)
        rec.label('periods=%d' % min(n, 3))
        if p['type'] == 'legs':
            close(sum(dcf.get_interest_accrued(x, v) for x in obj.legs),
                  got, 'sum of legs', rel=1e-9, abs_=1e-12, scale=scale)


FACETS = [Facet('accrued', cases(), check, 4000,
                rule='a valuation date with accrued interest')]

"""reference models, written from the documentation, independent of dcf"""
from math import exp, log, erfc, sqrt, pi

from .core import Undefined


def _at(xs, x):
    for i, v in enumerate(xs):
        if v == x:
            return i
    return None


def _line(xs, ys, x):
    """linear through the pair of points around x (last pair beyond)"""
    if len(xs) == 1:
        return ys[0]
    i = 0
    while i < len(xs) - 2 and xs[i + 1] < x:
        i += 1
    w = (x - xs[i]) / (xs[i + 1] - xs[i])
    return (1 - w) * ys[i] + w * ys[i + 1]


def _step_left(xs, ys, x):
    y = ys[0]
    for a, b in zip(xs, ys):
        if a <= x:
            y = b
    return y


def interp(name, xs, ys, x, default=None):
    """value of interpolation `name` through sorted points at x"""
    assert all(a < b for a, b in zip(xs, xs[1:]))
    if name in ('left', 'constant'):
        return _step_left(xs, ys, x)
    if name == 'right':
        for a, b in zip(xs, ys):
            if x <= a:
                return b
        return ys[-1]
    if name == 'nearest':
        best = min(abs(a - x) for a in xs)
        for a, b in zip(xs, ys):
            if abs(a - x) == best:
                return b
    if name in ('no', 'zero', 'default_value_interpolation'):
        i = _at(xs, x)
        if i is not None:
            return ys[i]
        return 0.0 if name == 'zero' else default
    if name == 'linear':
        return _line(xs, ys, x)
    if name == 'loglinear':
        return _exp(_line(xs, [log(y) for y in ys], x))
    if name in ('loglinearrate', 'logconstantrate'):
        if x == 0:
            i = _at(xs, 0)
            return 1.0 if i is None else ys[i]
        rx = [a for a in xs if a]
        ry = [log(b) / a for a, b in zip(xs, ys) if a]
        if not rx:
            raise Undefined()
        f = _line if name == 'loglinearrate' else _step_left
        return _exp(x * f(rx, ry, x))
    raise KeyError(name)


def _exp(v):
    if abs(v) > 300:
        raise Undefined()
    return exp(v)


SCHEMES = {
    'linear_scheme': ('constant', 'linear', 'constant'),
    'constant_linear_constant': ('constant', 'linear', 'constant'),
    'log_linear_scheme': ('constant', 'loglinear', 'constant'),
    'constant_loglinear_constant': ('constant', 'loglinear', 'constant'),
    'logconstant_loglinear_logconstant':
        ('constant', 'loglinear', 'constant'),
    'log_linear_rate_scheme':
        ('logconstantrate', 'loglinearrate', 'logconstantrate'),
    'logconstantrate_loglinearrate_logconstantrate':
        ('logconstantrate', 'loglinearrate', 'logconstantrate'),
    'zero_linear_scheme': ('zero', 'linear', 'constant'),
    'zero_linear_constant': ('zero', 'linear', 'constant'),
}


def scheme(parts, xs, ys, x):
    if any('rate' in p for p in parts) and 0 in xs:
        # a point at zero carries no rate: between zero and its neighbours
        # the documentation does not say which part counts
        nz = [a for a in xs if a]
        if not nz:
            raise Undefined()
        if (x < nz[0] and xs[0] <= x and x != 0) or \
                (x > nz[-1] and x <= xs[-1] and x != 0):
            raise Undefined()
    if x < xs[0]:
        return interp(parts[0], xs, ys, x)
    if x > xs[-1]:
        return interp(parts[2], xs, ys, x)
    return interp(parts[1], xs, ys, x)


def value(name, xs, ys, x):
    """interpolation class or scheme by name"""
    if name in SCHEMES:
        return scheme(SCHEMES[name], xs, ys, x)
    return interp(name, xs, ys, x)


# ---- options --------------------------------------------------------------

def ncdf(x):
    return 0.5 * erfc(-x / sqrt(2.0))


def npdf(x):
    return exp(-0.5 * x * x) / sqrt(2 * pi)

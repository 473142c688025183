"""Property runner: facets (generator + oracle), sharded Hypothesis search,
shrunk JSON replay files, evidence.

A facet is one executable check of a property: a Hypothesis strategy that
yields a plain JSON case, and a function `check(case, rec)` which builds the
real dcf objects from that case, exercises them and raises `Violation` when an
oracle disagrees.  The case alone determines the run, so a failing (shrunk)
case is the replay file.
"""
import hashlib
import json
import math
import os
import sys
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(AssertionError):
    """the code under test contradicts the property"""


class Known(Exception):
    """a violation that is listed in known_findings.json"""


class HarnessError(Exception):
    """the harness itself is wrong"""


class Undefined(Exception):
    """the documentation does not settle the value of this case"""


class Rec(object):
    """collects labels of one case"""
    __slots__ = ('labels', 'nontrivial', 'known')

    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self.known = set()

    def label(self, *names):
        self.labels.update(names)

    def nt(self, flag=True):
        if flag:
            self.nontrivial = True


class Facet(object):
    def __init__(self, name, strategy, check, quick=2000, thorough=None,
                 rule='', examples=()):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = 2 * quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.rule = rule
        self.examples = list(examples)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def num(x, what='value'):
    """a finite real number returned by the code under test"""
    if isinstance(x, bool) or x is None or isinstance(x, (str, complex)):
        raise Violation('%s is not a number but %r' % (what, x))
    try:
        y = float(x)
    except Exception:
        raise Violation('%s is not a number but %r' % (what, x))
    if math.isnan(y) or math.isinf(y):
        raise Violation('%s is not finite: %r' % (what, y))
    return y


def close(got, want, what='value', rel=1e-9, abs_=1e-12, scale=0.0):
    """got (from code under test) must agree with want (oracle)"""
    g = num(got, what)
    w = float(want)
    tol = abs_ + rel * max(abs(g), abs(w), abs(scale))
    if not abs(g - w) <= tol:
        raise Violation('%s: got %r, expected %r (tol %.3g)'
                        % (what, g, w, tol))
    return g


def close2(a, b, what='values', rel=1e-9, abs_=1e-12, scale=0.0):
    """two results of the code under test must agree"""
    return close(a, num(b, what), what, rel, abs_, scale)


def same(got, want, what='value'):
    if not got == want:
        raise Violation('%s: got %r, expected %r' % (what, got, want))


def true(flag, what, *args):
    if not flag:
        raise Violation(what % args if args else what)



def untouched(fn, *args, **kw):
    """fn(*args, **kw), which leaves lists among its arguments alone"""
    given = [(x, list(x)) for x in list(args) + list(kw.values())
             if isinstance(x, list)]
    try:
        return fn(*args, **kw)
    finally:
        for x, was in given:
            same(x, was, 'list given as argument')


def raises(exc, func, what):
    """func must raise exc"""
    try:
        r = func()
    except exc:
        return
    raise Violation('%s: expected %s, got result %r' % (
        what, getattr(exc, '__name__', exc), r))


def in_repo_frame(tb):
    root = os.path.realpath(os.path.join(REPO, 'dcf')) + os.sep
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            return True
        tb = tb.tb_next
    return False


def case_key(facet, case):
    s = facet + json.dumps(case, sort_keys=True, separators=(',', ':'))
    return hashlib.blake2b(s.encode(), digest_size=8).hexdigest()


def run_case(facet, case):
    """run one case; returns rec, raises Violation/HarnessError"""
    rec = Rec()
    try:
        facet.check(case, rec)
    except (Violation, HarnessError):
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except Undefined:
        rec.nontrivial = False
        rec.label('no-reference-value')
    except Exception as e:
        tb = sys.exc_info()[2]
        if in_repo_frame(tb):
            lines = traceback.format_exception_only(type(e), e)
            where = [f for f in traceback.extract_tb(tb)
                     if os.path.realpath(f.filename).startswith(
                         os.path.realpath(os.path.join(REPO, 'dcf')))]
            raise Violation('%s raised in %s:%s %s' % (
                ''.join(lines).strip()[:300],
                os.path.relpath(where[-1].filename, REPO), where[-1].lineno,
                where[-1].name)) from e
        if isinstance(e, (TypeError, ValueError, LookupError,
                          ArithmeticError)):
            # the oracle met a result of unexpected type or shape
            raise Violation('unexpected result, check failed with %s: %s' % (
                type(e).__name__, str(e)[:300])) from e
        raise HarnessError(''.join(traceback.format_exc())) from e
    return rec


def derive_seed(*parts):
    h = hashlib.blake2b('|'.join(map(str, parts)).encode(), digest_size=8)
    return int.from_bytes(h.digest(), 'big') >> 1

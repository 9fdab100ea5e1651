"""Registry of checks, and the few helpers every check body uses.

A *property* (C01, C02, ...) has one or more *subchecks*.  A subcheck is

    strategy   a Hypothesis strategy that yields a case: plain JSON data
    body       a function of the case that drives the real code and raises
               when the property does not hold on it

Nothing but the case decides what the body does, so the case is the replay file.
"""
import collections


class Violation(AssertionError):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def same(got, want, what):
    if got != want:
        raise Violation('{}: got {!r}, expected {!r}'.format(what, got, want))


def raises(exc, f, *args, **kwargs):
    """f(*args) must raise exc (a class or tuple of classes)."""
    try:
        f(*args, **kwargs)
    except exc as e:
        check(isinstance(str(e), str), 'error without a text')
        return e
    raise Violation('{} accepted {!r} {!r}, expected {!r}'.format(
        getattr(f, '__name__', f), args, kwargs, exc))


Sub = collections.namedtuple(
    'Sub', 'prop name strategy body quick thorough shards rule nontrivial classify')

REGISTRY = collections.OrderedDict()


def subcheck(prop, name, strategy, rule, quick, thorough=None, shards=2,
             nontrivial=lambda case: True, classify=lambda case: ()):
    """Register the decorated function as the body of a subcheck.

    quick/thorough: cases per shard.
    """
    def deco(body):
        subs = REGISTRY.setdefault(prop, collections.OrderedDict())
        assert name not in subs, (prop, name)
        subs[name] = Sub(prop, name, strategy, body, quick,
                         thorough or quick * 12, shards, rule, nontrivial,
                         classify)
        return body
    return deco

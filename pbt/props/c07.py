"""C07 implications as values."""
import copy

from hypothesis import strategies as st

import fca
from fca.implication import Implication, NegativeImplication, UnitImplication
from pbt import gen, ref
from pbt.core import check, same, subcheck
from pbt.lib import names

ASSUMPTIONS = ['names are of one type; in text they are stripped, not empty and '
               'contain no comma and no arrow']

CASE = st.fixed_dictionaries({
    'atts': gen.name_list(6, gen.ALL_NAMES),
    'p': gen.big(6), 'q': gen.big(6), 'p2': gen.big(6), 'q2': gen.big(6),
    'x': gen.big(6), 'y': gen.big(6), 'thin': st.booleans(),
    'pairs': st.sampled_from([False, False, False, True]),
    'same': gen.ints(0, 3), 'cls': st.sampled_from(['plain', 'plain', 'neg', 'unit'])})


def names_of(c):
    """The names, now and then as pairs of names."""
    a = c['atts']
    return [(x, a[(i + 1) % len(a)]) for i, x in enumerate(a)] if c['pairs'] else a


@subcheck('C07', 'respect', CASE, quick=5000, shards=4,
          rule='an implication, a negative or a unit implication with random sides and '
               'a set or a partial example (certain and possible attributes); '
               'non-trivial: the premise is in the example',
          nontrivial=lambda c: c['p'] & c['x'] == c['p'],
          classify=lambda c: [c['cls']])
def respect(c):
    atts = names_of(c)
    p, q, x = c['p'], c['q'], c['x']
    if c['thin']:
        p &= c['p2']
        q &= c['q2']
    y = x | c['y']
    if c['cls'] == 'unit':
        q = 1 << (q % 6)
        p &= ~q
        imp = UnitImplication(names(p, atts), atts[q.bit_length() - 1])
    elif c['cls'] == 'neg':
        imp = NegativeImplication(names(p, atts), names(q, atts))
    else:
        imp = Implication(names(p, atts), names(q, atts))
    rq = q & ~p
    same(imp.premise, names(p, atts), 'premise')
    same(imp.conclusion, names(rq, atts), 'conclusion')
    for certain, possible, arg in ((x, x, names(x, atts)),
                                   (x, y, (names(x, atts), names(y, atts))),
                                   (x, x, (names(x, atts), names(x, atts)))):
        if c['cls'] == 'neg':
            want = p & certain != p or not rq & possible
        else:
            want = p & certain != p or rq & possible == rq
        got = imp.is_respected(arg)
        same(bool(got), bool(want), '%r respected by %r' % (imp, arg))
    same(imp.premise, names(p, atts), 'premise afterwards')
    same(imp.conclusion, names(rq, atts), 'conclusion afterwards')


@subcheck('C07', 'equality', CASE, quick=4000, shards=3,
          rule='two implications with random, often equal sides, built from sets in '
               'different orders, and their copies; non-trivial: they are equal but '
               'their conclusions are given differently, or differ in one side only',
          nontrivial=lambda c: c['same'] != 0, classify=lambda c: [c['cls']])
def equality(c):
    atts = names_of(c)
    p, q = c['p'], c['q']
    p2 = p if c['same'] & 1 else c['p2']
    q2 = q if c['same'] & 2 else c['q2']
    if c['same'] == 3 and c['thin']:
        q2 = q ^ (p & c['q2'])               # the same conclusion but for the premise
    cls = NegativeImplication if c['cls'] == 'neg' else Implication

    def grow(m, back=False):
        s = set()
        for i in (reversed(list(ref.bits(m))) if back else ref.bits(m)):
            s.add(atts[i])
        return s
    if c['cls'] == 'unit':
        q, q2 = 1 << (q % 6), 1 << (q2 % 6)
        p, p2 = p & ~q, p2 & ~q2
        a = UnitImplication(grow(p), atts[q.bit_length() - 1])
        b = Implication(grow(p2, True), grow(q2, True))
    else:
        sides = grow(p), grow(q)
        a, b = cls(*sides), cls(grow(p2, True), grow(q2, True))
        for s in sides:                       # the caller's sets stay the caller's
            s.add('more')
        same(a.premise, names(p, atts), 'premise')
        same(a.get_premise(), names(p, atts), 'premise')
        same(a.get_conclusion(), names(q, atts), 'whole conclusion')
        same(a.conclusion, names(q & ~p, atts), 'conclusion')
    equal = p == p2 and q & ~p == q2 & ~p2
    same(bool(a == b), equal, '%r == %r' % (a, b))
    same(bool(a != b), not equal, '%r != %r' % (a, b))
    same(b in {a}, equal, '%r in {%r}' % (b, a))
    same(b in [a], equal, '%r in [%r]' % (b, a))
    if equal:
        same(hash(a), hash(b), 'hash of %r and %r' % (a, b))
        same(str(a), str(b), 'text')
    form = '%s => not (%s)' if c['cls'] == 'neg' else '%s => %s'
    want = form % tuple(', '.join(str(x) for x in sorted(names(m, atts)))
                        for m in (p, q & ~p))
    same(str(a), want, 'text')
    same(repr(a), want, 'text')
    # another kind says something else, however alike
    alike = (Implication if c['cls'] == 'neg' else NegativeImplication)(
        a.get_premise(), a.get_conclusion())
    check(not a == alike and not alike == a and a != alike and alike != a,
          '{!r} == {!r}', a, alike)
    check(alike not in {a} and a not in [alike], '{!r} in {!r}', a, alike)
    d = copy.deepcopy(a)
    check(type(d) is type(a), 'a deep copy of {!r} is a {}', a, type(d))
    check(d == a and hash(d) == hash(a), 'deep copy of {!r} is {!r}', a, d)
    if c['cls'] == 'neg':
        x = names(p | q, atts)
        same(bool(d.is_respected(x)), bool(a.is_respected(x)), 'copy respects')
    d.get_premise().add('more')
    d.get_conclusion().add('more')
    same(a.premise, names(p, atts), 'premise after changing a copy')
    same(a.get_conclusion(), names(q, atts), 'conclusion after changing a copy')


TEXT_NAMES = ['a', 'b', 'cd', 'not a', 'x y', 'ä', '0', '10', '9', 'm_1', 'A', '=',
              '>', 'a=b', 'g>5', '名', '-', 'None', 'f(x)', '(a)', 'not (a', 'not (a)',
              '"a"', "it's", '{a}', 'set()', 'a;b', ':', 'a.b', '\\', '%s', '{}', '&']

NAMES_OF_SIDE = st.one_of(
    st.lists(st.sampled_from(TEXT_NAMES), max_size=5, unique=True),
    st.lists(st.sampled_from(TEXT_NAMES + ['x%d' % i for i in range(30)]), min_size=6,
             max_size=30, unique=True))

TEXT = st.fixed_dictionaries({
    'p': NAMES_OF_SIDE, 'q': NAMES_OF_SIDE,
    'gap': st.sampled_from([', ', ',', ' ,  ', '\t,'])})


@subcheck('C07', 'text', TEXT, quick=3000, shards=1,
          rule='printing and reading back implications with up to 30 names a side, '
               'empty sides included, and text with other spacing; non-trivial: both '
               'sides have names',
          nontrivial=lambda c: bool(c['p']) and bool(c['q']),
          classify=lambda c: [k for k, v in (('empty premise', not c['p']),
                                             ('empty conclusion', not c['q'])) if v])
def text(c):
    imp = Implication(set(c['p']), set(c['q']))
    back = Implication.str2imp(str(imp))
    same(back.premise, set(c['p']), 'premise of %r' % str(imp))
    same(back.conclusion, set(c['q']) - set(c['p']), 'conclusion of %r' % str(imp))
    check(back == imp and hash(back) == hash(imp), 'read back {!r}', imp)
    same(str(imp), repr(imp), 'str and repr')
    loose = ' ' + c['gap'].join(c['p']) + ' => ' + c['gap'].join(c['q']) + ' '
    back = Implication.str2imp(loose)
    same(back.premise, set(c['p']), 'premise of %r' % loose)
    same(back.get_conclusion(), set(c['q']), 'conclusion of %r' % loose)

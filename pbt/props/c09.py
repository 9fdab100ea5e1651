"""C09 the algebra of contexts."""
import copy

import numpy as np
from hypothesis import strategies as st

import fca
from fca.context import MultiplicationException
from pbt import gen, ref
from pbt.core import check, same, raises, subcheck
from pbt.lib import (build, cells, shape_classes, check_context, table, as_form, scribble)

ASSUMPTIONS = []


def nontrivial(c):
    return any(c['rows']) and any(r != (1 << c['m']) - 1 for r in c['rows'])


def columns(tab, m):
    return [[r[j] for r in tab] for j in range(m)]


SUB = st.fixed_dictionaries({
    'cxt': gen.context(max_n=9, max_m=8, tall=(70, 4), wide=(4, 70)),
    'pick': st.lists(gen.ints(0, 1000), max_size=5), 'cells': gen.big(24),
    'fill': gen.ints(0, 4)})


@subcheck('C09', 'derived', SUB, quick=2000, shards=5,
          rule='transposed contexts, subcontexts and pairs of random contexts up to '
               '70 x 4 and 4 x 70; non-trivial: a cross and a blank',
          nontrivial=lambda c: nontrivial(c['cxt']),
          classify=lambda c: shape_classes(c['cxt']))
def derived(case):
    c = case['cxt']
    k, tab = build(c), table(c)
    objs, atts, m = c['objs'], c['atts'], c['m']
    t = k.transpose()
    check_context(t, columns(tab, m), atts, objs, 'transpose')
    check_context(t.transpose(), tab, objs, atts, 'transpose twice')
    check(t.transpose() == k, 'transpose twice is not equal')
    picked = []
    for p in case['pick']:
        if atts and atts[p % m] not in picked:
            picked.append(atts[p % m])
    js = [atts.index(a) for a in picked]
    s = k.extract_subcontext(list(picked))
    check_context(s, [[r[j] for j in js] for r in tab], objs, picked, 'subcontext')
    for mode, f in (('and', all), ('or', any)):
        keep = [i for i, r in enumerate(tab) if f(r[j] for j in js)]
        s = k.extract_subcontext_filtered_by_attributes(list(picked), mode)
        check_context(s, [tab[i] for i in keep], [objs[i] for i in keep], atts,
                      'objects with %s of %r' % (mode, picked))
    keep = [i for i, r in enumerate(tab) if all(r[j] for j in js)]
    s = k.extract_subcontext_filtered_by_attributes(set(picked))
    same(list(s.objects), [objs[i] for i in keep], 'objects filtered, by default')
    raises(ValueError, k.extract_subcontext, picked + ['no such attribute'])
    raises(ValueError, k.extract_subcontext_filtered_by_attributes,
           ['no such attribute'] + picked)
    pairs = [(o, a) for o, r in zip(objs, tab) for a, v in zip(atts, r) if v]
    for got in (k.get_object_attribute_pairs(), k.object_attribute_pairs):
        same(sorted(map(repr, got)), sorted(map(repr, pairs)), 'pairs')
    for i, o in enumerate(objs):
        for j, a in enumerate(atts):
            same(bool(k.get_value(o, a)), tab[i][j], 'value of %r, %r' % (o, a))
            same(bool(k[i][j]), tab[i][j], 'cell %d, %d' % (i, j))
    for f in (k.examples, k.intents):
        same(list(f()), [{a for a, v in zip(atts, r) if v} for r in tab], 'intents')
    lines = repr(k).split('\n')
    same(len(lines), len(objs) + 2, 'lines printed')
    same(lines[1:-1], ['%s\t%s' % (o, ''.join('X' if v else '.' for v in r))
                       for o, r in zip(objs, tab)], 'printed table')
    made = [k.transpose(), k.extract_subcontext(list(atts)),
            k.extract_subcontext_filtered_by_attributes([])]
    for x in made:
        scribble(x)
    check_context(k, tab, objs, atts, 'the original')


@subcheck('C09', 'repeated lines', st.fixed_dictionaries({
    'cxt': gen.blown(), 'pick': st.lists(gen.ints(0, 1000), max_size=12),
    'perm': gen.ints(1, 1000), 'operm': gen.ints(1, 1000),
    'change': st.sampled_from(['none', 'none', 'cell', 'swap']),
    'i': gen.ints(0, 1000), 'j': gen.ints(0, 1000)}), quick=50, shards=4,
    rule='derived contexts and equality for contexts with 17 to 70 lines either way, few '
         'of them different', nontrivial=lambda c: nontrivial(c['cxt']))
def repeated_lines(case):
    derived(case)
    complement(case['cxt'])
    equality(case)


@subcheck('C09', 'thousands', st.fixed_dictionaries({
    'cxt': gen.huge(), 'pick': st.lists(gen.ints(0, 1000), max_size=12),
    'perm': gen.ints(1, 1000), 'operm': gen.ints(1, 1000),
    'change': st.sampled_from(['none', 'none', 'cell', 'swap']),
    'i': gen.ints(0, 3000), 'j': gen.ints(0, 3000)}), quick=10, shards=2,
    rule='derived contexts and equality for contexts with 1 to 3 lines one way and 1001 '
         'to 2049 the other', nontrivial=lambda c: nontrivial(c['cxt']))
def thousands(case):
    derived(case)
    complement(case['cxt'])
    equality(case)


COMP = gen.context(max_n=8, max_m=7, tall=(40, 4), wide=(3, 40))


@subcheck('C09', 'complement', COMP, quick=1500, shards=3,
          rule='complementary and compound contexts of random contexts, attribute names '
               'like "not a" included; non-trivial: a cross and a blank',
          nontrivial=nontrivial, classify=shape_classes)
def complement(c):
    k, tab = build(c), table(c)
    objs, atts = c['objs'], c['atts']
    neg = [[not v for v in r] for r in tab]
    natts = ['not %s' % a for a in atts]
    check_context(k.complementary(), neg, objs, natts, 'complementary')
    check_context(k.complementary().complementary(), tab, objs,
                  ['not ' + a for a in natts], 'complementary twice')
    both = k.compound()
    if len(set(atts + natts)) == 2 * len(atts):
        check_context(both, [r + s for r, s in zip(tab, neg)], objs, atts + natts,
                      'compound')
        for i, o in enumerate(objs):
            same(len(both.get_object_intent(o)), len(atts), 'size of compound intent')
    else:                                   # a name met twice is renamed
        same(cells(both), [r + s for r, s in zip(tab, neg)], 'compound table')
        same(list(both.objects), objs, 'compound objects')
        same(len(set(both.attributes)), 2 * len(atts), 'compound attributes')
    scribble(k.complementary())
    scribble(both)
    check_context(k, tab, objs, atts, 'the original')


@st.composite
def factors(draw):
    n, p, m = (draw(gen.ints(0, 6)) for _ in range(3))
    if draw(gen.ints(0, 5)) == 0:
        p = draw(gen.ints(7, 70))
    full = draw(gen.ints(0, 39)) == 0
    if full:                                # nearly everything in common
        n, p, m = draw(gen.ints(1, 2)), draw(gen.big_number()), draw(gen.ints(1, 2))
    mid = draw(gen.name_list(p, gen.ALL_NAMES))
    if full:
        a = draw(gen.nearly_full(n, p))
        b = [(1 << m) - 1] * p
    else:
        a, b = draw(gen.rows(n, p)), draw(gen.rows(p, m))
    return {'a': a, 'b': b,
            'n': n, 'p': p, 'm': m, 'mid': mid,
            'objs': draw(gen.name_list(n, gen.ALL_NAMES)),
            'atts': draw(gen.name_list(m, gen.ALL_NAMES)),
            'wrong': draw(gen.ints(0, 3))}


@subcheck('C09', 'product', factors(), quick=1500, shards=2,
          rule='products of contexts n x p and p x m, p up to 70 or 515, and contexts whose '
               'middle names differ; non-trivial: both have a cross',
          nontrivial=lambda c: any(c['a']) and any(c['b']))
def product(c):
    n, p, m = c['n'], c['p'], c['m']
    ta = [[bool(r >> j & 1) for j in range(p)] for r in c['a']]
    tb = [[bool(r >> j & 1) for j in range(m)] for r in c['b']]
    a = fca.Context(ta, c['objs'], c['mid'])
    b = fca.Context(tb, c['mid'], c['atts'])
    want = [[any(ta[i][x] and tb[x][j] for x in range(p)) for j in range(m)]
            for i in range(n)]
    got = a * b
    check_context(got, want, c['objs'], c['atts'], 'product')
    scribble(got)
    check_context(a, ta, c['objs'], c['mid'], 'left factor')
    check_context(b, tb, c['mid'], c['atts'], 'right factor')
    mid2 = list(c['mid'])
    if c['wrong'] == 1 and p:
        mid2[-1] = 'another'
    elif c['wrong'] == 2 and p > 1:
        mid2 = mid2[1:] + mid2[:1]
    elif c['wrong'] == 3:
        mid2 = mid2 + ['another']
    if mid2 != c['mid']:
        b2 = fca.Context([tb[i % p] if p else [False] * m for i in range(len(mid2))],
                         mid2, c['atts'])
        raises(MultiplicationException, lambda: a * b2)


EQ = st.fixed_dictionaries({
    'cxt': gen.context(max_n=6, max_m=6, tall=(30, 3), wide=(3, 66)),
    'perm': gen.ints(1, 1000), 'operm': gen.ints(1, 1000),
    'change': st.sampled_from(['none', 'none', 'cell', 'object', 'attribute',
                               'type', 'drop object', 'drop attribute', 'swap']),
    'i': gen.ints(0, 1000), 'j': gen.ints(0, 1000)})


@subcheck('C09', 'equality', EQ, quick=2000, shards=3,
          rule='a context and the same one with lines permuted, or with one cell, one '
               'name, the type of a name or one line changed; non-trivial: something '
               'changed, or two lines each way were permuted',
          nontrivial=lambda c: c['change'] != 'none' or
          (len(c['cxt']['rows']) > 1 and c['cxt']['m'] > 1),
          classify=lambda c: [c['change']])
def equality(case):
    c = case['cxt']
    k, tab = build(c), table(c)
    n, m = len(tab), c['m']
    rows, objs, atts = [list(r) for r in tab], list(c['objs']), list(c['atts'])
    ch = case['change']
    differs = True
    if ch == 'cell' and n and m:
        rows[case['i'] % n][case['j'] % m] ^= True
    elif ch == 'object' and n:
        objs[case['i'] % n] = 'another'
    elif ch == 'attribute' and m:
        atts[case['j'] % m] = 'another'
    elif ch == 'type' and n:
        x = objs[case['i'] % n]
        objs[case['i'] % n] = str(x) if isinstance(x, (int, float)) else x + ' '
    elif ch == 'drop object' and n:
        del rows[case['i'] % n], objs[case['i'] % n]
    elif ch == 'drop attribute' and m:
        for r in rows:
            del r[case['j'] % m]
        del atts[case['j'] % m]
    elif ch == 'swap' and n > 1:
        i, j = case['i'] % n, case['j'] % n
        differs = rows[i] != rows[j]
        objs[i], objs[j] = objs[j], objs[i]
    else:
        differs = False
    po = sorted(range(len(objs)), key=lambda i: (i + 1) * case['operm'] % 1009)
    pa = sorted(range(len(atts)), key=lambda i: (i + 1) * case['perm'] % 1009)
    other = fca.Context([[rows[i][j] for j in pa] for i in po],
                        [objs[i] for i in po], [atts[j] for j in pa])
    for x, y in ((k, other), (other, k)):
        same(bool(x == y), not differs, 'equality of\n%r\nand\n%r' % (x, y))
        same(bool(x != y), differs, 'inequality of\n%r\nand\n%r' % (x, y))
    check(k == k, 'a context equals itself')
    check(copy.deepcopy(k) == k, 'a deep copy is equal')
    raises(TypeError, lambda: k == tab)
    raises(TypeError, lambda: k == None)                      # noqa: E711


SHAPE = st.fixed_dictionaries({
    'n': gen.ints(0, 4), 'm': gen.ints(0, 4), 'n2': gen.ints(0, 4),
    'm2': gen.ints(0, 4), 'form': st.sampled_from(['bool', 'tuple', 'numpy']),
    'bits': gen.big(16)})


@subcheck('C09', 'shapes', SHAPE, quick=1500, shards=1,
          rule='a table and lists of names whose numbers agree or not; non-trivial: '
               'they do not agree',
          nontrivial=lambda c: (c['n'], c['m']) != (c['n2'], c['m2']))
def shapes(c):
    n, m = c['n'], c['m']
    tab = [[bool(c['bits'] >> (4 * i + j) & 1) for j in range(m)] for i in range(n)]
    objs, atts = ['g%d' % i for i in range(c['n2'])], ['m%d' % i for i in range(c['m2'])]
    raw = as_form(tab, c['form'], m)
    if n != c['n2'] or (n and m != c['m2']):
        raises(ValueError, fca.Context, raw, objs, atts)
    elif n or m == c['m2']:
        check_context(fca.Context(raw, objs, atts), tab, objs, atts, 'context')
        if not n:                           # what is empty may be left out
            check_context(fca.Context(attributes=atts), [], [], atts, 'no objects')
            check_context(fca.Context([], objects=[], attributes=atts), [], [], atts,
                          'no objects')
            raises(ValueError, fca.Context, objects=['g'], attributes=atts)
        if not m:
            check_context(fca.Context(tab, objs), tab, objs, [], 'no attributes')
            check_context(fca.Context(raw, objects=objs), tab, objs, [], 'no attributes')
        if not n and not m:
            check_context(fca.Context(), [], [], [], 'nothing')
            one, two = fca.Context(), fca.Context()
            one.add_attribute([], 'a')
            one.add_object([True], 'g')
            check_context(one, [[True]], ['g'], ['a'], 'nothing, and a line added')
            check_context(two, [], [], [], 'nothing')
        if c['form'] == 'bool' and n > 1 and m:
            ragged = [list(r) for r in tab]
            ragged[-1] = ragged[-1][:-1]
            raises(ValueError, fca.Context, ragged, objs, atts)

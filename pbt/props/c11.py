"""C11 factorisation."""
import collections

from hypothesis import strategies as st

import fca
from fca.algorithms import factors as fac
from pbt import gen, ref
from pbt.core import check, same, subcheck
from pbt.lib import (build, model, mask, names, shape_classes, check_context, table,
                     cells)

FIDELITY = [1, 1, 1, 0.75, 0.5, 0.25, 0.9, 0.1, 0]
EPS = 1e-9


def is_concept(x, r, c, what):
    e, i = mask(x.extent, c['objs']), mask(x.intent, c['atts'])
    check(r.oprime(e) == i and r.aprime(i) == e, '{}: {!r} is not a formal concept',
          what, x)
    return {(o, a) for o in ref.bits(e) for a in ref.bits(i)}


def crosses(c):
    return {(i, j) for i, r in enumerate(c['rows']) for j in ref.bits(r)}


def cover(case):
    c = case['cxt']
    k, r = build(c), model(c)
    all_ = crosses(c)
    f = case['fidelity']
    for what, algo in (('algorithm2', fac.algorithm2),
                       ('algorithm2_weighted', fac.algorithm2_weighted)):
        got = list(algo(k) if f == 1 and case['bare'] else algo(k, fidelity=f))
        left = set(all_)
        share = 0.0
        for x, y in got:
            check(share < f + EPS, '{}: went on after fidelity {} was reached', what, f)
            pairs = is_concept(x, r, c, what)
            check(pairs & left, '{}: factor {!r} covers nothing new', what, x)
            if what == 'algorithm2':
                check(abs(y - len(pairs & left) / len(all_)) < EPS,
                      '{}: share of {!r} is {}, not {}', what, x, y,
                      len(pairs & left) / len(all_))
            else:
                new = pairs & left
                want = len({i for i, _ in new}) * len({j for _, j in new}) / (
                    len(c['objs']) * len(c['atts']))
                check(abs(y - want) < EPS, '{}: score of {!r} is {}, not {}', what, x,
                      y, want)
            left -= pairs
            share = 1 - len(left) / len(all_)
        if all_:
            check(share > f - EPS, '{}: covered {} of {} crosses, fidelity {}', what,
                  len(all_) - len(left), len(all_), f)
        if f == 1:
            check(not left, '{}: crosses {!r} are not covered', what, sorted(left))
            a, b = fac.make_factor_cxts([x for x, _ in got])
            prod = a * b
            got_pairs = {(c['objs'].index(o), c['atts'].index(t))
                         for o, t in prod.object_attribute_pairs}
            same(got_pairs, all_, what + ': product of the factor contexts')
    check_context(k, table(c), c['objs'], c['atts'], 'the original')


def nontrivial(case):
    c = case['cxt']
    return len(set(c['rows']) - {0}) > 1 and c['m'] > 1


subcheck('C11', 'cover', st.fixed_dictionaries({
    'cxt': gen.context(max_n=8, max_m=7, tall=(30, 4), wide=(4, 30)),
    'fidelity': st.sampled_from(FIDELITY), 'bare': st.booleans()}),
    quick=700, shards=6,
    rule='both unconditional factorisations of contexts up to 8 x 7, 30 x 4 and 4 x 30 '
         'at several fidelities; non-trivial: two distinct rows with crosses and two '
         'attributes', nontrivial=nontrivial,
    classify=lambda c: shape_classes(c['cxt']) +
    (['exact'] if c['fidelity'] == 1 else ['approximate']))(cover)


@subcheck('C11', 'large cover', st.fixed_dictionaries({
    'cxt': gen.context(max_n=22, max_m=18, min_n=8, min_m=8, tall=(60, 9), wide=(9, 60)),
    'fidelity': st.sampled_from(FIDELITY), 'bare': st.booleans()}), quick=250, shards=8,
    rule='the same for contexts up to 22 x 18, 60 x 9 and 9 x 60', nontrivial=nontrivial,
    classify=lambda c: shape_classes(c['cxt']))
def large_cover(case):
    cover(case)


@subcheck('C11', 'repeated lines', st.fixed_dictionaries({
    'cxt': gen.blown(base=6), 'fidelity': st.sampled_from(FIDELITY + [0.99, 0.999]),
    'bare': st.booleans()}), quick=50, shards=4,
    rule='the same for contexts with 17 to 70 lines either way, few of them different',
    nontrivial=nontrivial)
def repeated_lines(case):
    cover(case)


@subcheck('C11', 'thousands', st.fixed_dictionaries({
    'cxt': gen.huge(), 'fidelity': st.sampled_from(FIDELITY + [0.99, 0.999]),
    'bare': st.booleans()}), quick=10, shards=2,
    rule='the same for contexts with 1 to 3 lines one way and 1001 to 2049 the other',
    nontrivial=nontrivial)
def thousands(case):
    cover(case)


@subcheck('C11', 'condition', st.fixed_dictionaries({
    'cxt': gen.context(max_n=10, max_m=9, min_n=2, min_m=2, tall=(25, 6), wide=(14, 13)),
    'fidelity': st.sampled_from(FIDELITY), 'again': st.booleans(),
    'min': gen.ints(1, 3), 'tall': st.booleans()}), quick=1000, shards=4,
    rule='the conditional factorisation of contexts up to 10 x 9, 25 x 6 and 14 x 13 with every '
         'option; non-trivial: two distinct rows with crosses',
    nontrivial=nontrivial,
    classify=lambda c: [str(c['min']), 'again' if c['again'] else 'once'])
def condition(case):
    c = case['cxt']
    k, r = build(c), model(c)
    all_ = crosses(c)
    f = case['fidelity']
    got = list(fac.algorithm2_w_condition(
        k, fidelity=f, allow_repeatitions=case['again'],
        min_atts_and_objs=case['min'], objs_ge_atts=case['tall']))
    if case['min'] == 3 and case['again'] and not case['tall']:
        same(list(fac.algorithm2_w_condition(k, fidelity=f)), got, 'default conditions')
    if f == 1:
        same(list(fac.algorithm2_w_condition(
            k, allow_repeatitions=case['again'], min_atts_and_objs=case['min'],
            objs_ge_atts=case['tall'])), got, 'default fidelity')
    seen, left = set(), set(all_)
    before = sum_ = 0
    for n, item in enumerate(got):
        x, share, total = item
        pairs = is_concept(x, r, c, 'conditional')
        check(len(x.extent) >= case['min'] and len(x.intent) >= case['min'],
              'factor {!r} is smaller than {}', x, case['min'])
        if case['tall']:
            check(len(x.extent) >= len(x.intent), 'factor {!r} is not tall', x)
        check(x not in seen, 'factor {!r} is found twice', x)
        seen.add(x)
        if case['again']:
            new = len(pairs & left) / len(all_)
            check(new, 'factor {!r} covers nothing new', x)
            check(share <= new + EPS, 'share of {!r} is {}, it covers {}', x, share, new)
            if case['min'] == 1 and not case['tall']:
                # nothing is set aside before the last factor
                check(abs(share - new) < EPS, 'share of {!r} is {}, it covers {}', x,
                      share, new)
        left -= pairs
        sum_ += share
        check(total > before - EPS and total > sum_ - EPS, 'total {} after {}, shares {}',
              total, before, sum_)
        before = total
        check(0 < share <= total + EPS and total <= 1 + EPS, 'shares {} of {}',
              share, total)
        if n + 1 < len(got):
            check(total < f + EPS, 'went on after fidelity {} was reached', f)
    check_context(k, table(c), c['objs'], c['atts'], 'the original')


Pair = collections.namedtuple('Pair', 'extent intent')


@subcheck('C11', 'factor contexts', st.fixed_dictionaries({
    'objs': gen.name_list(14, gen.ALL_NAMES), 'atts': gen.name_list(14, gen.ALL_NAMES),
    'fs': st.one_of(st.lists(st.tuples(gen.big(5), gen.big(5)).map(list), max_size=6),
                    st.lists(st.tuples(gen.big(14), gen.big(14)).map(list),
                             max_size=15))}),
    quick=2500, shards=2,
    rule='the two factor contexts of up to six arbitrary rectangles over five objects '
         'and attributes, or up to 15 over 14; non-trivial: two rectangles that are not '
         'empty',
    nontrivial=lambda c: sum(1 for e, i in c['fs'] if e and i) > 1)
def factor_contexts(case):
    fs = [fca.Concept(names(e, case['objs']), names(i, case['atts'])) if n % 2 else
          Pair(names(e, case['objs']), names(i, case['atts']))
          for n, (e, i) in enumerate(case['fs'])]
    a, b = fac.make_factor_cxts(tuple(fs))
    if not fs:
        for x, y in zip(fac.make_factor_cxts(), (a, b)):
            same((x.objects, x.attributes, cells(x)), (y.objects, y.attributes, cells(y)),
                 'factor contexts of nothing')
    same(list(a.attributes), list(b.objects), 'names of factors')
    same(len(b.objects), len(fs), 'number of factors')
    same(set(a.objects), set().union(*[f.extent for f in fs]), 'objects')
    same(set(b.attributes), set().union(*[f.intent for f in fs]), 'attributes')
    for n, f in enumerate(fs):
        same(a.get_attribute_extent_by_index(n), set(f.extent), 'extent of factor %d' % n)
        same(b.get_object_intent_by_index(n), set(f.intent), 'intent of factor %d' % n)
    want = {(o, t) for f in fs for o in f.extent for t in f.intent}
    same(set((a * b).object_attribute_pairs), want, 'product')

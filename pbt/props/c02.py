"""C02 the set of concepts is complete and exact."""
from hypothesis import strategies as st

import fca
from fca.algorithms.norris import iterative_norris, norris
from pbt import gen
from pbt.core import check, same, subcheck
from pbt.lib import build, model, mask, shape_classes, check_context, table

ASSUMPTIONS = ['extents of concepts from the iterator are read when it is exhausted']


def as_pairs(concepts, c, what):
    out = [(mask(x.extent, c['objs']), mask(x.intent, c['atts'])) for x in concepts]
    check(len(set(out)) == len(out), '{}: a concept is listed twice', what)
    return set(out)


def enumerate_all(case):
    c = case
    k = build(c)
    want = model(c).concepts()
    ways = [('concepts', lambda: k.concepts),
            ('get_concepts', k.get_concepts),
            ('norris', lambda: norris(k, False)),
            ('iterate_concepts', lambda: list(k.iterate_concepts())),
            ('iterative_norris', lambda: list(iterative_norris(k)))]
    if len(want) <= 48:
        ways += [('norris with parents', lambda: norris(k)[0]),
                 ('ConceptLattice', lambda: list(fca.ConceptLattice(k))),
                 ('concept_lattice', lambda: k.concept_lattice.concepts)]
    for what, f in ways:
        cs = f()
        got = as_pairs(cs, c, what)
        check(got == want, '{}: missing {!r}, wrong {!r}', what,
              sorted(want - got), sorted(got - want))
        for x in cs:                        # spoil what we were given
            x.extent.clear()
            x.intent.clear()
    check_context(k, table(c), c['objs'], c['atts'], 'context after enumeration')


RULE = ('a random context; non-trivial: at least three concepts')


def several(c):
    rows = set(c['rows'])
    return len(rows) >= 2 and c['m'] >= 1


subcheck('C02', 'small', gen.context(max_n=8, max_m=7), quick=2500, shards=4,
         rule='contexts up to 8 x 7 with repeated, empty, full and intersecting lines; '
              'non-trivial: two distinct rows',
         nontrivial=several, classify=shape_classes)(enumerate_all)

subcheck('C02', 'large', gen.context(max_n=24, max_m=8, min_n=5, min_m=4,
                                     tall=(80, 6), wide=(7, 80)),
         quick=700, shards=4,
         rule='contexts up to 24 x 8, 80 x 6 and 7 x 80; non-trivial: two distinct rows',
         nontrivial=several, classify=shape_classes)(enumerate_all)


subcheck('C02', 'huge', gen.large(), quick=25, shards=4,
         rule='contexts with 1 to 3 lines one way and 31 to 515 the other; non-trivial: '
              'two distinct rows',
         nontrivial=several, classify=shape_classes)(enumerate_all)

subcheck('C02', 'many', gen.context(max_n=40, max_m=12, min_n=15, min_m=8,
                                    tall=(150, 9), wide=(10, 40)), quick=40, shards=4,
         rule='contexts up to 40 x 12, 150 x 9 and 10 x 40; non-trivial: two distinct '
              'rows', nontrivial=several, classify=shape_classes)(enumerate_all)


subcheck('C02', 'repeated lines', gen.blown(), quick=100, shards=2,
         rule='contexts with 17 to 70 lines either way, few of them different; '
              'non-trivial: two distinct rows',
         nontrivial=several)(enumerate_all)


subcheck('C02', 'thousands', gen.huge(), quick=12, shards=2,
         rule='contexts with 1 to 3 lines one way and 1001 to 2049 the other; '
              'non-trivial: two distinct rows', nontrivial=several)(enumerate_all)


@subcheck('C02', 'interleaved', st.fixed_dictionaries({
    'a': gen.context(max_n=6, max_m=5), 'b': gen.context(max_n=6, max_m=5),
    'take': st.lists(st.booleans(), max_size=40)}), quick=1000, shards=2,
    rule='two iterators over concepts of two contexts advanced in a random order; '
         'non-trivial: both have two distinct rows',
    nontrivial=lambda c: several(c['a']) and several(c['b']))
def interleaved(case):
    cs = [case['a'], case['b']]
    ks = [build(c) for c in cs]
    its = [iter(k.iterate_concepts()) for k in ks]
    out = [[], []]
    for t in case['take']:
        x = next(its[t], None)
        if x is not None:
            out[t].append(x)
    for t in (0, 1):
        out[t].extend(its[t])
    for t in (0, 1):
        got, want = as_pairs(out[t], cs[t], 'iterator'), model(cs[t]).concepts()
        check(got == want, 'iterator: missing {!r}, wrong {!r}',
              sorted(want - got), sorted(got - want))

"""C05 the attribute-incremental algorithm computes the same canonical basis."""
from hypothesis import strategies as st

import fca
from fca.algorithms import closure_operators as co
from fca.algorithms.aibasis import compute_canonical_basis
from pbt import gen, ref
from pbt.core import check, same, subcheck
from pbt.lib import (build, model, mask, names, imp_masks, shape_classes,
                     check_context, table)
from pbt.theory import dg_exact

ASSUMPTIONS = ['attribute names of one context are of one type (sortable)']


def nontrivial(c):
    return len(set(c['rows'])) > 1 and c['m'] > 1


WAYS = [('function', lambda k: compute_canonical_basis(k)),
        ('method', lambda k: k.get_attribute_canonical_basis()),
        ('linear', lambda k: compute_canonical_basis(k, close=co.lin_closure)),
        ('method with function', lambda k: k.get_attribute_canonical_basis(
            get_basis=compute_canonical_basis))]


def check_ways(c, ways):
    k, r = build(c), model(c)
    for what, f in ways:
        got = f(k)
        dg_exact(imp_masks(got, c['atts']), r, (), what)
        for i in got:
            i.get_premise().add('spoiled')
            i.get_conclusion().add('spoiled')
        got.append('spoiled')
    check_context(k, table(c), c['objs'], c['atts'], 'context afterwards')


@subcheck('C05', 'small', gen.context(max_n=8, max_m=7), quick=2500, shards=4,
          rule='contexts up to 8 x 7 with every order of names, against the '
               'pseudo-intents by definition; non-trivial: two distinct rows and two '
               'attributes', nontrivial=nontrivial, classify=shape_classes)
def small(c):
    check_ways(c, WAYS)


@subcheck('C05', 'medium', gen.context(max_n=16, max_m=11, min_n=3, min_m=6,
                                       tall=(50, 6)), quick=300, shards=4,
          rule='contexts up to 16 x 11 and 50 x 6, against the characterisation of the '
               'basis; non-trivial as above', nontrivial=nontrivial,
          classify=shape_classes)
def medium(c):
    check_ways(c, WAYS[:2])


@subcheck('C05', 'large', gen.context(max_n=25, max_m=14, min_n=8, min_m=9,
                                      tall=(130, 7), wide=(6, 30)), quick=50, shards=4,
          rule='contexts up to 25 x 14, 130 x 7 and 6 x 30; non-trivial as above',
          nontrivial=nontrivial, classify=shape_classes)
def large(c):
    check_ways(c, WAYS[:2])


@subcheck('C05', 'repeated lines', gen.blown(), quick=50, shards=4,
          rule='contexts with 17 to 70 lines either way, few of them different; '
               'non-trivial as above', nontrivial=nontrivial)
def repeated_lines(c):
    check_ways(c, WAYS[:2])


@subcheck('C05', 'thousands', gen.huge(tall=True), quick=10, shards=2,
          rule='contexts with 1001 to 2049 objects and 1 to 3 attributes; non-trivial as '
               'above', nontrivial=nontrivial)
def thousands(c):
    check_ways(c, WAYS[:2])


@subcheck('C05', 'orders', st.fixed_dictionaries({
    'cxt': gen.context(max_n=8, max_m=7), 'perm': st.permutations(range(7)),
    'operm': st.permutations(range(8))}), quick=1200, shards=4,
    rule='the same relation with attributes and objects permuted: the same '
         'implications, and the same as the other algorithm; non-trivial as above',
    nontrivial=lambda c: nontrivial(c['cxt']))
def orders(case):
    c = case['cxt']
    perm = [i for i in case['perm'] if i < c['m']]
    operm = [i for i in case['operm'] if i < len(c['objs'])]
    k = build(c)
    tab = table(c)
    p = fca.Context([[tab[i][j] for j in perm] for i in operm],
                    [c['objs'][i] for i in operm], [c['atts'][j] for j in perm])

    def flat(imps):
        out = [(frozenset(i.premise), frozenset(i.premise | i.conclusion))
               for i in imps]
        check(len(set(out)) == len(out), 'an implication is listed twice')
        return set(out)
    want = flat(fca.compute_dg_basis(k))
    same(flat(compute_canonical_basis(k)), want, 'incremental basis')
    same(flat(compute_canonical_basis(p)), want, 'incremental basis, permuted')
    same(flat(p.get_attribute_canonical_basis()), want, 'method, permuted')
    same(flat(fca.compute_dg_basis(p)), want, 'optimised algorithm, permuted')

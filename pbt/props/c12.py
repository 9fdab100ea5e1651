"""C12 implication covers computed object by object, and their minimisation."""
from hypothesis import strategies as st

import fca
from fca.algorithms import closure_operators as co
from fca.algorithms import implication_covers as ic
from pbt import gen, ref
from pbt.core import check, same, subcheck
from pbt.lib import build, model, mask, names, imp_masks, shape_classes, \
    check_context, table
from pbt.theory import equivalent, sound


def nontrivial(c):
    c = c.get('cxt', c)
    return len(set(c['rows'])) > 1 and c['m'] > 1


def minimum(pairs, r):
    """No implication follows from the others, and no cover has fewer."""
    for i, (p, q) in enumerate(pairs):
        check(ref.closure(p, pairs[:i] + pairs[i + 1:]) & q != q,
              'minimised: {} => {} follows from the others', bin(p), bin(q))
    if r.m <= 9:
        same(len(pairs), len(r.pseudo_intents()), 'minimised: number of implications')


def whole(c):
    k, r = build(c), model(c)
    atts = c['atts']
    cover = ic.compute_implication_cover(k)
    equivalent(imp_masks(cover, atts), r, 'cover')
    n = len(cover)
    ic.minimize(cover)
    equivalent(imp_masks(cover, atts), r, 'minimised cover')
    check(len(cover) <= n, 'minimising added implications')
    minimum(imp_masks(cover, atts), r)
    check_context(k, table(c), c['objs'], c['atts'], 'the context')


subcheck('C12', 'covers', gen.context(max_n=8, max_m=6), quick=1500, shards=4,
         rule='contexts up to 8 x 6: the cover and the minimised cover have exactly the '
              'intents as closed sets; non-trivial: two distinct rows and two attributes',
         nontrivial=nontrivial, classify=shape_classes)(whole)

subcheck('C12', 'larger covers', gen.context(max_n=25, max_m=13, min_n=6, min_m=8,
                                             tall=(80, 7), wide=(6, 30)), quick=60,
         shards=4, rule='contexts up to 25 x 13, 80 x 7 and 6 x 30; non-trivial as above',
         nontrivial=nontrivial, classify=shape_classes)(whole)

subcheck('C12', 'large covers', gen.context(max_n=14, max_m=9, min_n=4, min_m=4,
                                            tall=(40, 5)), quick=250, shards=4,
         rule='contexts up to 14 x 9 and 40 x 5; non-trivial as above',
         nontrivial=nontrivial, classify=shape_classes)(whole)


subcheck('C12', 'repeated lines', gen.blown(base=4, least=9, most=16), quick=20, shards=6,
         rule='contexts with 9 to 16 lines either way, few of them different; '
              'non-trivial as above', nontrivial=nontrivial)(whole)


subcheck('C12', 'thousands', gen.huge(tall=True), quick=6, shards=2,
         rule='contexts with 1001 to 2049 objects and 1 to 3 attributes; non-trivial as '
              'above', nontrivial=nontrivial)(whole)


@subcheck('C12', 'increments', st.fixed_dictionaries({
    'cxt': gen.context(max_n=7, max_m=6), 'minimize': gen.big(8),
    'lin': st.booleans()}), quick=1000, shards=4,
    rule='the cover is updated row by row and is right after every row, and so is a '
         'minimised copy of it; non-trivial as above', nontrivial=nontrivial)
def increments(case):
    c = case['cxt']
    atts = c['atts']
    tab = table(c)
    cover = [fca.Implication(set(), set(atts))]
    for i in range(len(tab)):
        intent = {a for a, v in zip(atts, tab[i]) if v}
        new = ic.updated_basis(intent, cover, set(atts))
        same(intent, {a for a, v in zip(atts, tab[i]) if v}, 'the intent afterwards')
        r = ref.Ref(tab[:i + 1], c['m'])
        equivalent(imp_masks(new, atts), r, 'cover after row %d' % i)
        cover = new
        if case['minimize'] >> (i % 8) & 1:
            less = [fca.Implication(x.get_premise(), x.get_conclusion()) for x in cover]
            if case['lin']:
                ic.minimize(less, close=co.lin_closure)
            else:
                ic.minimize(less)
            equivalent(imp_masks(less, atts), r, 'minimised after row %d' % i)
            minimum(imp_masks(less, atts), r)
            equivalent(imp_masks(cover, atts), r, 'cover afterwards')


@subcheck('C12', 'redundancy', st.fixed_dictionaries({
    'atts': gen.name_list(5, gen.ALL_NAMES),
    'imps': st.lists(st.tuples(gen.big(5), gen.big(5)).map(list), max_size=6),
    'p': gen.big(5), 'q': gen.big(5)}), quick=2000, shards=2,
    rule='an implication and up to six others: redundant iff it follows; minimising '
         'any set of implications keeps its closed sets; non-trivial: it is redundant '
         'but trivial in none',
    nontrivial=lambda c: ref.closure(c['p'], c['imps']) & c['q'] == c['q'] and
    c['q'] & ~c['p'] != 0)
def redundancy(case):
    atts = case['atts']
    imps = [fca.Implication(names(p, atts), names(q, atts)) for p, q in case['imps']]
    imp = fca.Implication(names(case['p'], atts), names(case['q'], atts))
    want = ref.closure(case['p'], case['imps']) & case['q'] == case['q']
    same(bool(ic.is_redundant(imp, imps)), want, '%r redundant in %r' % (imp, imps))
    same(bool(ic.is_redundant(imp, imps, close=co.lin_closure)), want,
         '%r redundant in %r' % (imp, imps))
    ic.minimize(imps)
    pairs = imp_masks(imps, atts)
    for s in range(32):
        same(ref.closure(s, pairs), ref.closure(s, case['imps']),
             'closure of %s after minimising %r' % (bin(s), case['imps']))
    for i, (p, q) in enumerate(pairs):
        check(ref.closure(p, pairs[:i] + pairs[i + 1:]) & q != q,
              'minimised: {} => {} follows from the others', bin(p), bin(q))
    check(len(pairs) <= len(case['imps']), 'minimising added implications')

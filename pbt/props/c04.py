"""C04 the Duquenne-Guigues basis, plain and relative to background knowledge."""
from hypothesis import strategies as st

import fca
from fca.algorithms import closure_operators as co
from fca.algorithms.dg_basis import (compute_dg_basis, compute_dg_basis_simple,
                                     dg_basis_iter_simple,
                                     generalized_compute_dg_basis,
                                     generalized_dg_basis_iter)
from pbt import gen, ref
from pbt.core import check, same, subcheck
from pbt.lib import (build, model, mask, names, imp_masks, shape_classes,
                     check_context, table)
from pbt.theory import dg_exact, sound

ASSUMPTIONS = ['background implications hold in the context',
               'attribute names of one context are of one type (sortable)']


def background(case, r, atts):
    """Valid implications of the context, as objects and as masks."""
    out = []
    for p, q in case['bg']:
        p &= r.M
        clo = r.aclosure(p)
        q &= clo
        out.append((p, p | q))
    imps = [fca.Implication(names(p, atts), names(q, atts)) for p, q in out]
    return imps, out


BG = st.lists(st.tuples(gen.big(12), gen.big(12)).map(list), max_size=4)
MODES = ['dg', 'dg', 'dg simple', 'dg lin', 'simple lin', 'method', 'method simple',
         'property', 'iter', 'iter fun', 'iter lin', 'object', 'object simple',
         'generalized', 'generalized iter']


def nontrivial(case):
    c = case['cxt']
    return len(set(c['rows'])) > 1 and c['m'] > 1


def compute(k, mode, imps):
    """One way of asking for the basis; whether it takes a background."""
    if mode == 'dg':
        return compute_dg_basis(k, imp_basis=imps)
    if mode == 'dg simple':
        return compute_dg_basis_simple(k, imp_basis=imps)
    if mode == 'dg lin':
        return fca.compute_dg_basis(k, close=co.simple_closure, imp_basis=imps)
    if mode == 'simple lin':
        return fca.compute_dg_basis_simple(k, close=co.lin_closure, imp_basis=imps)
    if mode == 'method':
        return k.get_attribute_implications(confirmed=imps)
    if mode == 'method simple':
        return k.get_attribute_implications(basis=compute_dg_basis_simple,
                                            confirmed=imps)
    if mode == 'property':
        return k.attribute_implications
    if mode == 'iter':
        return list(k.attribute_implications_iter())
    if mode == 'iter fun':
        return list(dg_basis_iter_simple(k, imp_basis=imps))
    if mode == 'iter lin':
        return list(dg_basis_iter_simple(k, close=co.lin_closure, imp_basis=imps))
    if mode == 'object':
        return k.object_implications
    if mode == 'object simple':
        return k.get_object_implications(basis=compute_dg_basis_simple)
    if mode == 'generalized':
        return generalized_compute_dg_basis(k.attributes, k.aclosure, imp_basis=imps)
    if mode == 'generalized iter':
        return list(generalized_dg_basis_iter(k.attributes, k.aclosure,
                                              imp_basis=imps))
    raise KeyError(mode)


NO_BG = ('property', 'iter', 'object', 'object simple')


def basis(case):
    c = case['cxt']
    k, r = build(c), model(c)
    atts, objs = c['atts'], c['objs']
    imps, bg = background(case, r, atts)
    before = [(set(i.premise), set(i.get_conclusion())) for i in imps]
    for mode in case['modes']:
        got = compute(k, mode, imps)
        if mode.startswith('object'):
            rt = ref.Ref([list(row) for row in zip(*table(c))] if c['rows'] else
                         [[] for _ in range(c['m'])], len(objs))
            dg_exact(imp_masks(got, objs), rt, (), mode)
        else:
            dg_exact(imp_masks(got, atts), r, () if mode in NO_BG else bg, mode)
        for i in got:                       # the answer is the caller's
            i.get_premise().add('spoiled')
            i.get_conclusion().add('spoiled')
        got.append('spoiled')
        same([(i.premise, i.get_conclusion()) for i in imps], before,
             'background after ' + mode)
    same(len(imps), len(case['bg']), 'length of the background')
    check_context(k, table(c), objs, atts, 'context after computing bases')


subcheck('C04', 'small', st.fixed_dictionaries({
    'cxt': gen.context(max_n=8, max_m=6), 'bg': BG,
    'modes': st.lists(st.sampled_from(MODES), min_size=1, max_size=3)}),
    quick=1500, shards=4,
    rule='contexts up to 8 x 6, up to 4 valid background implications, up to three '
         'ways of asking, against the pseudo-intents by definition; non-trivial: two '
         'distinct rows and two attributes', nontrivial=nontrivial,
    classify=lambda c: shape_classes(c['cxt']) +
    (['with background'] if c['bg'] else []))(basis)

subcheck('C04', 'large', st.fixed_dictionaries({
    'cxt': gen.context(max_n=25, max_m=14, min_n=8, min_m=9, tall=(130, 7),
                       wide=(6, 30)), 'bg': BG,
    'modes': st.lists(st.sampled_from(MODES[:11]), min_size=1, max_size=2)}),
    quick=50, shards=4,
    rule='contexts up to 25 x 14, 130 x 7 and 6 x 30; non-trivial as above',
    nontrivial=nontrivial,
    classify=lambda c: shape_classes(c['cxt']) +
    (['with background'] if c['bg'] else []))(basis)

subcheck('C04', 'medium', st.fixed_dictionaries({
    'cxt': gen.context(max_n=14, max_m=11, min_n=3, min_m=5, tall=(40, 6)), 'bg': BG,
    'modes': st.lists(st.sampled_from(MODES[:12]).filter(
        lambda m: not m.startswith('object')), min_size=1, max_size=2)}),
    quick=250, shards=4,
    rule='contexts up to 14 x 11 and 40 x 6, against the characterisation of the '
         'basis; non-trivial as above', nontrivial=nontrivial,
    classify=lambda c: shape_classes(c['cxt']) +
    (['with background'] if c['bg'] else []))(basis)


subcheck('C04', 'repeated lines', st.fixed_dictionaries({
    'cxt': gen.blown(), 'bg': BG,
    'modes': st.lists(st.sampled_from(MODES), min_size=1, max_size=2)}),
    quick=30, shards=4,
    rule='contexts with 17 to 70 lines either way, few of them different; non-trivial '
         'as above', nontrivial=nontrivial)(basis)


subcheck('C04', 'thousands', st.fixed_dictionaries({
    'cxt': gen.huge(tall=True), 'bg': BG,
    'modes': st.lists(st.sampled_from([x for x in MODES if not x.startswith('object')]),
                      min_size=1, max_size=2)}),
    quick=10, shards=2,
    rule='contexts with 1001 to 2049 objects and 1 to 3 attributes; non-trivial as above',
    nontrivial=nontrivial)(basis)


@subcheck('C04', 'condition', st.fixed_dictionaries({
    'cxt': gen.context(max_n=7, max_m=6), 'bg': BG, 'size': gen.ints(0, 4),
    'without': gen.ints(0, 5),
    'mode': st.sampled_from(['dg', 'simple', 'method', 'iter'])}), quick=800, shards=2,
    rule='a condition on premises (at most k attributes, not a given attribute): every '
         'implication is valid, has a closed conclusion and a premise that meets the '
         'condition; a condition met by every set gives the whole basis; non-trivial '
         'as above', nontrivial=nontrivial)
def condition(case):
    c = case['cxt']
    k, r = build(c), model(c)
    atts = c['atts']
    imps, bg = background(case, r, atts)
    banned = atts[case['without'] % len(atts)] if atts and case['without'] < 3 else None
    for limit in (case['size'], len(atts) + 1):
        free = limit > len(atts) and banned is None

        def cond(a):
            return len(a) <= limit and banned not in a
        if case['mode'] == 'dg':
            got = compute_dg_basis(k, imp_basis=imps, cond=cond)
        elif case['mode'] == 'simple':
            got = compute_dg_basis_simple(k, imp_basis=imps, cond=cond)
        elif case['mode'] == 'method':
            got = k.get_attribute_implications(confirmed=imps, cond=cond)
        else:
            got = list(dg_basis_iter_simple(k, imp_basis=imps, cond=cond))
        pairs = imp_masks(got, atts)
        sound(pairs, r)
        for i, (p, q) in zip(got, pairs):
            check(cond(set(i.premise)), 'premise {!r} does not meet the condition',
                  i.premise)
            same(q, r.aclosure(p), 'conclusion')
            check(p != q, 'premise {!r} is closed', i.premise)
        check(len(set(pairs)) == len(pairs), 'an implication is listed twice')
        if free:
            dg_exact(pairs, r, bg)


@subcheck('C04', 'iterators', st.fixed_dictionaries({
    'a': gen.context(max_n=6, max_m=5), 'b': gen.context(max_n=6, max_m=5),
    'take': st.lists(gen.ints(0, 3), max_size=40)}), quick=400, shards=2,
    rule='basis iterators over two contexts advanced in a random order, with whole '
         'bases and concepts computed in between; non-trivial: both contexts have two '
         'distinct rows and two attributes',
    nontrivial=lambda c: all(len(set(x['rows'])) > 1 and x['m'] > 1
                             for x in (c['a'], c['b'])))
def iterators(case):
    cs = [case['a'], case['b']]
    ks = [build(c) for c in cs]
    rs = [model(c) for c in cs]
    its = [iter(k.attribute_implications_iter()) for k in ks]
    out = [[], []]
    for t in case['take']:
        if t < 2:
            x = next(its[t], None)
            if x is not None:
                out[t].append(x)
        elif t == 2:
            dg_exact(imp_masks(ks[0].attribute_implications, cs[0]['atts']), rs[0])
        else:
            list(ks[1].iterate_concepts())
    for t in (0, 1):
        out[t].extend(its[t])
        dg_exact(imp_masks(out[t], cs[t]['atts']), rs[t], (), 'iterator')

"""C01 derivation and closure operators."""
import numpy as np
from hypothesis import strategies as st

import fca
from fca.algorithms import closure_operators as co
from pbt import gen
from pbt.core import check, same, subcheck
from pbt.lib import build, model, names, shape_classes, check_context, table
from pbt.ref import bits

ASSUMPTIONS = ['names of one side of a context are of one type (sortable)']

QUERY = st.fixed_dictionaries({
    'side': st.sampled_from('oa'), 'mask': gen.big(128),
    'rev': st.booleans(), 'dup': gen.ints(0, 3),
    'as': st.sampled_from(['list', 'set', 'tuple', 'frozenset', 'numpy', 'keys'])})

BIG_QUERY = st.fixed_dictionaries({
    'side': st.sampled_from('oa'),
    'mask': st.one_of(st.just((1 << 515) - 1), gen.big(515)), 'rev': st.booleans(),
    'dup': gen.ints(0, 3), 'as': st.sampled_from(['list', 'set', 'numpy'])})

CASE = st.fixed_dictionaries({
    'cxt': gen.context(max_n=10, max_m=9, tall=(90, 6), wide=(8, 90)),
    'queries': st.lists(QUERY, min_size=1, max_size=6)})


def collection(items, q, index=False):
    items = list(items)
    if q['rev']:
        items.reverse()
    if items and q['dup']:
        items += [items[q['dup'] % len(items)]]
    kind = q['as']
    if kind == 'set':
        return set(items)
    if kind == 'tuple':
        return tuple(items)
    if kind == 'frozenset' and not index:
        return frozenset(items)
    if kind == 'numpy' and index:
        return np.array(items, dtype=int)
    if kind == 'keys' and not index:
        return dict.fromkeys(items).keys()
    return items


def spoil(x):
    """Callers may do what they like with an answer they were given."""
    if isinstance(x, set):
        x.clear()
    elif isinstance(x, list):
        del x[:]
    elif isinstance(x, dict):
        x.clear()


@subcheck('C01', 'operators', CASE, quick=2500, shards=8,
          rule='a random context (any density, repeated/empty/full lines, up to 90 '
               'lines) and up to six sets of objects or attributes, passed as '
               'list/set/tuple/frozenset/array with repeats; non-trivial: the context '
               'has a cross and a blank',
          nontrivial=lambda c: any(c['cxt']['rows']) and
          any(r != (1 << c['cxt']['m']) - 1 for r in c['cxt']['rows']),
          classify=lambda c: shape_classes(c['cxt']))
def operators(case):
    run(case)


LARGE = st.fixed_dictionaries({
    'cxt': gen.large(),
    'queries': st.lists(st.one_of(QUERY, BIG_QUERY), min_size=1, max_size=3)})


@subcheck('C01', 'large', LARGE, quick=150, shards=3,
          rule='contexts with 1 to 3 lines one way and 31 to 515 the other, nearly full '
               'or random, and up to three small, large and complete sets; non-trivial: '
               'as before',
          nontrivial=lambda c: any(c['cxt']['rows']) and
          any(r != (1 << c['cxt']['m']) - 1 for r in c['cxt']['rows']),
          classify=lambda c: ['over 127 lines'] * (
              max(c['cxt']['m'], len(c['cxt']['rows'])) > 127))
def large(case):
    run(case)


@subcheck('C01', 'repeated lines', st.fixed_dictionaries({
    'cxt': gen.blown(), 'queries': st.lists(st.one_of(QUERY, BIG_QUERY), min_size=1,
                                            max_size=3)}), quick=100, shards=3,
    rule='contexts with 17 to 70 lines either way, few of them different; non-trivial: '
         'as before',
    nontrivial=lambda c: any(c['cxt']['rows']) and
    any(r != (1 << c['cxt']['m']) - 1 for r in c['cxt']['rows']))
def repeated_lines(case):
    run(case)


@subcheck('C01', 'thousands', st.fixed_dictionaries({
    'cxt': gen.huge(), 'queries': st.lists(st.one_of(QUERY, BIG_QUERY), min_size=1,
                                           max_size=3)}), quick=12, shards=2,
    rule='contexts with 1 to 3 lines one way and 1001 to 2049 the other; non-trivial: as '
         'before',
    nontrivial=lambda c: any(c['cxt']['rows']) and
    any(r != (1 << c['cxt']['m']) - 1 for r in c['cxt']['rows']))
def thousands(case):
    run(case)


def run(case):
    c = case['cxt']
    k, r = build(c), model(c)
    agree(k, r, c['objs'], c['atts'], case['queries'])
    check_context(k, table(c), c['objs'], c['atts'], 'context after queries')


def agree(k, r, objs, atts, queries):
    """Every form of derivation of the context says what the model r says."""
    for q in queries:
        if q['side'] == 'o':
            s = q['mask'] & r.G
            want_p, want_c = r.oprime(s), r.oclosure(s)
            here, there = objs, atts
            m_p, m_c, m_pi, m_ci = k.oprime, k.oclosure, k.oprime_inds, k.oclosure_inds
            f_p, f_c = co.oprime, co.oclosure
        else:
            s = q['mask'] & r.M
            want_p, want_c = r.aprime(s), r.aclosure(s)
            here, there = atts, objs
            m_p, m_c, m_pi, m_ci = k.aprime, k.aclosure, k.aprime_inds, k.aclosure_inds
            f_p, f_c = co.aprime, co.aclosure
        arg = [here[i] for i in bits(s)]
        tag = '%s of %r' % (q['side'], arg)
        for again in range(2):
            got = m_p(collection(arg, q))
            same(got, names(want_p, there), 'prime ' + tag)
            spoil(got)
            got = m_c(collection(arg, q))
            same(got, names(want_c, here), 'closure ' + tag)
            spoil(got)
            got = f_p(collection(arg, q), k)
            same(set(got), names(want_p, there), 'prime function ' + tag)
            spoil(got)
            got = f_c(collection(arg, q), k)
            same(list(got), sorted(names(want_c, here)), 'closure function ' + tag)
            spoil(got)
            inds = collection(bits(s), q, index=True)
            got = m_pi(inds)
            same(sorted(int(i) for i in got), list(bits(want_p)), 'prime_inds ' + tag)
            got = m_ci(collection(bits(s), q, index=True))
            same(sorted(int(i) for i in got), list(bits(want_c)),
                 'closure_inds ' + tag)
        # associative versions count, per line, how many of the given lines cross it
        plain = [i for i in bits(s)]
        counts = {there[j]: sum(1 for i in plain if
                                (r.rows[i] >> j if q['side'] == 'o'
                                 else r.cols[i] >> j) & 1)
                  for j in range(len(there))}
        if q['side'] == 'a':
            got = k.associative_aprime(set(arg))
            same({o: int(got.get(o, 0)) for o in objs}, counts, 'associative_aprime ' + tag)
            same({o for o in got if got[o] == len(arg)}, names(want_p, objs),
                 'objects with all in associative_aprime ' + tag)
            check(set(got) <= set(objs), 'associative_aprime names {!r}', got)
            got = k.associative_aprime_inds(set(plain))
            same({objs[o]: int(got.get(o, 0)) for o in range(len(objs))}, counts,
                 'associative_aprime_inds ' + tag)
            same({int(o) for o in got if got[o] == len(arg)}, set(bits(want_p)),
                 'objects with all in associative_aprime_inds ' + tag)
            clo, size = k.associative_aclosure(set(arg))
            ext = r.aprime(s)
            same(int(size), bin(ext).count('1'), 'associative_aclosure size ' + tag)
            want = {atts[j]: bin(r.cols[j] & ext).count('1') for j in range(len(atts))}
            same({a: int(clo.get(a, 0)) for a in atts}, want, 'associative_aclosure ' + tag)
            check(set(clo) <= set(atts), 'associative_aclosure names {!r}', clo)
            same({a for a in clo if clo[a] == size}, names(want_c, atts),
                 'attributes of all in associative_aclosure ' + tag)
        else:
            got = k.associative_oprime_inds(set(plain))
            same({atts[a]: int(got.get(a, 0)) for a in range(len(atts))}, counts,
                 'associative_oprime_inds ' + tag)
            same({int(a) for a in got if got[a] == len(arg)}, set(bits(want_p)),
                 'attributes of all in associative_oprime_inds ' + tag)

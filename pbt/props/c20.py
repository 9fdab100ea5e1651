"""C20 indices of concepts, and filtering by them."""
import decimal
import math

from hypothesis import strategies as st

import fca
from fca.algorithms import filtering as fl
from pbt import gen, ref
from pbt.core import check, same, subcheck
from pbt.lib import build, model, mask, names

ASSUMPTIONS = ['indices are floating-point numbers: they are compared within 1e-9',
               'contexts for the probability index and the extent size have an object, '
               'for the intent size an attribute']

FUNCTIONS = {
    'Intensional stability': fca.compute_istability,
    'Extensional stability': fca.compute_estability,
    'Separation index': fca.compute_separation_index,
    'Probability index': fca.compute_probability,
    'Extent size': fl.compute_extent_size,
    'Intent size': fl.compute_intent_size}


def separation(r, e, i):
    """Share of the crosses in the rows and columns of a concept that are in it."""
    rows = sum(bin(r.rows[g]).count('1') for g in ref.bits(e))
    cols = sum(bin(r.cols[a]).count('1') for a in ref.bits(i))
    area = bin(e).count('1') * bin(i).count('1')
    return area / (rows + cols - area) if area else 1.0


ORACLE = {
    'Intensional stability': ref.istability,
    'Extensional stability': ref.estability,
    'Separation index': separation,
    'Probability index': lambda r, e, i: ref.probability(r, i),
    'Extent size': lambda r, e, i: bin(e).count('1') / r.n,
    'Intent size': lambda r, e, i: bin(i).count('1') / r.m}


def close(x, y):
    return abs(float(x) - float(y)) <= 1e-9


def wanted(name, r, pairs):
    return {p: ORACLE[name](r, *p) for p in pairs}


def domain(name, c):
    return not (name in ('Probability index', 'Extent size') and not c['rows'] or
                name == 'Intent size' and not c['m'])


def pair(x, c):
    return mask(x.extent, c['objs']), mask(x.intent, c['atts'])


def run(c, which):
    k, r = build(c), model(c)
    l = fca.ConceptLattice(k)
    pairs = [pair(x, c) for x in l]
    for name in which:
        if not domain(name, c):
            continue
        got = FUNCTIONS[name](l)
        want = wanted(name, r, pairs)
        same(sorted(pair(x, c) for x in got), sorted(pairs), name + ': concepts')
        for x, v in got.items():
            check(close(v, want[pair(x, c)]), '{} of {!r}: got {!r}, expected {!r}',
                  name, x, v, float(want[pair(x, c)]))
            check(0 <= v <= 1 + 1e-9, '{} of {!r}: {!r}', name, x, v)
        same(sorted(pair(x, c) for x in l), sorted(pairs), name + ': lattice afterwards')


def rich(c):
    return len(set(c['rows'])) > 1 and c['m'] > 1


@subcheck('C20', 'indices', gen.context(max_n=8, max_m=6, tall=(11, 4), wide=(5, 10)),
          quick=4000, shards=4,
          rule='random contexts up to 8 x 6, 11 x 4 and 5 x 10; every index of every '
               'concept against its definition, in exact arithmetic; non-trivial: two '
               'distinct rows and columns', nontrivial=rich)
def indices(c):
    run(c, list(FUNCTIONS))


@subcheck('C20', 'probability', gen.context(max_n=25, max_m=5, min_n=1, tall=(60, 4)),
          quick=1500, shards=2,
          rule='as before, with up to 60 objects: the probability index, separation and '
               'sizes; non-trivial: two distinct rows and columns', nontrivial=rich)
def probability(c):
    run(c, ['Probability index', 'Separation index', 'Extent size', 'Intent size'])


@subcheck('C20', 'repeated lines', gen.blown(), quick=60, shards=3,
          rule='the same indices for contexts with 17 to 70 lines either way, few of them '
               'different', nontrivial=rich)
def repeated_lines(c):
    run(c, ['Probability index', 'Separation index', 'Extent size', 'Intent size'])


def power(p, k):
    return p ** k if k else decimal.Decimal(1)


def many(case):
    """Rows with multiplicities: rows, and how often each of them comes."""
    rows = [x & (1 << case['m']) - 1 for x in case['rows']]
    return rows, [min(t, case['most']) for t in case['times'][:len(rows)]]


@subcheck('C20', 'many objects', st.fixed_dictionaries({
    'rows': st.lists(gen.big(4), min_size=1, max_size=6), 'm': gen.ints(1, 4),
    'times': st.lists(gen.ints(1, 1200), min_size=6, max_size=6),
    'most': st.sampled_from([60, 300, 1200, 1200])}), quick=12, shards=8,
    rule='up to six kinds of rows, each up to 1200 times: every index against its '
         'definition, with 60 decimal digits; non-trivial: more than 1000 objects',
    nontrivial=lambda c: sum(many(c)[1]) > 1000)
def many_objects(case):
    rows, times = many(case)
    m = case['m']
    atts = 'abcd'[:m]
    full = (1 << m) - 1
    n = sum(times)
    k = fca.Context([[bool(x >> j & 1) for j in range(m)]
                     for x, t in zip(rows, times) for _ in range(t)],
                    list(range(n)), list(atts))
    l = fca.ConceptLattice(k)
    got = {name: {mask(x.intent, atts): v for x, v in f(l).items()}
           for name, f in FUNCTIONS.items()}
    kinds = {}
    for x, t in zip(rows, times):
        kinds[x] = kinds.get(x, 0) + t
    have = lambda s: sum(t for x, t in kinds.items() if x & s == s)
    intents = {full}
    for x in kinds:
        intents |= {x & y for y in intents}
    with decimal.localcontext() as ctx:
        ctx.prec = 60
        share = [decimal.Decimal(have(1 << j)) / n for j in range(m)]
        for i in intents:
            size, width = have(i), bin(i).count('1')
            # subsets of the extent with this intent, kind by kind
            sums = {full: 1}
            for x, t in kinds.items():
                if x & i == i:
                    for y, v in list(sums.items()):
                        sums[y & x] = sums.get(y & x, 0) + v * (2 ** t - 1)
            inside = size * width
            around = (sum(t * bin(x).count('1') for x, t in kinds.items() if x & i == i) +
                      sum(have(1 << j) for j in ref.bits(i)) - inside)
            p = decimal.Decimal(1)
            for j in ref.bits(i):
                p *= share[j]
            prob = decimal.Decimal(0)
            for q in range(n + 1):
                term = math.comb(n, q) * power(p, q) * power(1 - p, n - q)
                for j in ref.bits(full & ~i):
                    term *= 1 - power(share[j], q)
                prob += term
            want = {'Intensional stability': decimal.Decimal(sums.get(i, 0)) / 2 ** size,
                    'Separation index': inside / around if inside else 1.0,
                    'Probability index': prob, 'Extent size': size / n,
                    'Intent size': width / m}
            for name, v in want.items():
                check(close(got[name][i], v), '{} of {!r}: got {!r}, expected {!r}', name,
                      names(i, atts), got[name][i], float(v))
    for name, v in got.items():
        same(set(v), intents, name + ': intents')


@subcheck('C20', 'many attributes', gen.huge(few=4, tall=False), quick=12, shards=4,
          rule='one to four objects and 1001 to 2049 attributes: every index against its '
               'definition, with 60 decimal digits; non-trivial: two distinct rows',
          nontrivial=lambda c: len(set(c['rows'])) > 1)
def many_attributes(c):
    n, m, atts = len(c['rows']), c['m'], c['atts']
    l = fca.ConceptLattice(build(c))
    pos = {o: i for i, o in enumerate(c['objs'])}
    got = {name: {sum(1 << pos[o] for o in x.extent): v for x, v in f(l).items()}
           for name, f in FUNCTIONS.items()}
    kinds = {}                      # columns, and how often each comes
    for j in range(m):
        col = sum((r >> j & 1) << i for i, r in enumerate(c['rows']))
        kinds[col] = kinds.get(col, 0) + 1
    full = (1 << n) - 1
    extents = {full}
    for y in kinds:
        extents |= {y & z for z in extents}
    have = lambda e: [y for y in kinds if y & e == e]
    inside_ = lambda e: sum(kinds[y] for y in have(e))
    with decimal.localcontext() as ctx:
        ctx.prec = 60
        share = {y: decimal.Decimal(bin(y).count('1')) / n for y in kinds}
        for e in extents:
            width, size = inside_(e), bin(e).count('1')
            # subsets of the intent with this extent, kind by kind
            sums = {full: 1}
            for y in have(e):
                for z, v in list(sums.items()):
                    sums[y & z] = sums.get(y & z, 0) + v * (2 ** kinds[y] - 1)
            # subsets of the extent with this intent: a column that is not in the
            # intent must be missing from one of the objects
            ist = 0
            for s in range(full + 1):
                if s & e == s:
                    ist += all(y & e == e or y & s != s for y in kinds)
            inside = size * width
            around = (sum(kinds[y] * bin(y).count('1') for y in have(e)) +
                      sum(kinds[y] for i in ref.bits(e) for y in kinds if y >> i & 1) -
                      inside)
            p = decimal.Decimal(1)
            for y in have(e):
                p *= power(share[y], kinds[y])
            prob = decimal.Decimal(0)
            for q in range(n + 1):
                term = math.comb(n, q) * power(p, q) * power(1 - p, n - q)
                for y in kinds:
                    if y & e != e:
                        term *= power(1 - power(share[y], q), kinds[y])
                prob += term
            want = {'Extensional stability': decimal.Decimal(sums.get(e, 0)) / 2 ** width,
                    'Intensional stability': decimal.Decimal(ist) / 2 ** size,
                    'Separation index': inside / around if inside else 1.0,
                    'Probability index': prob, 'Extent size': size / n,
                    'Intent size': width / m}
            for name, v in want.items():
                check(close(got[name][e], v), '{} of {}: got {!r}, expected {!r}', name,
                      bin(e), got[name][e], float(v))
    for name, v in got.items():
        same(set(v), extents, name + ': extents')


def filter_case(most, **args):
    return st.fixed_dictionaries({
        'cxt': gen.context(min_n=1, min_m=1, **args),
        'index': st.sampled_from(sorted(FUNCTIONS)), 'n': gen.ints(0, most),
        'value': st.one_of(gen.ints(0, 16), gen.ints(0, 999)), 'part': gen.ints(0, 20),
        'made': st.booleans(),
        'levels': st.lists(gen.ints(0, 6), min_size=1, max_size=8)})


FILTER = filter_case(20, max_n=7, max_m=5)


@subcheck('C20', 'filters', FILTER, quick=3500, shards=2,
          rule='a random lattice filtered by value, by number and by part, with an index '
               'of the library or arbitrary values with many ties; meta data; '
               'non-trivial: at least three concepts',
          nontrivial=lambda c: len(set(c['cxt']['rows'])) > 1 and c['cxt']['m'] > 1,
          classify=lambda c: ['made up values' if c['made'] else c['index']])
def filters(case):
    c = case['cxt']
    l = fca.ConceptLattice(build(c))
    name = case['index']
    f = FUNCTIONS[name]
    if case['made']:
        lev = case['levels']
        vals = {}
        for i, x in enumerate(l):
            vals[pair(x, c)] = lev[(i * i + i // len(lev)) % len(lev)] / 4
        f = lambda cs: {x: vals[pair(x, c)] for x in cs}
    index = {pair(x, c): v for x, v in f(l).items()}
    all_ = sorted(pair(x, c) for x in l)

    def result(mode, opt):
        s = fca.filter_concepts(l, f, mode, opt)
        check(isinstance(s, fca.ConceptSystem), 'a concept system')
        got = [pair(x, c) for x in s]
        check(len(set(got)) == len(got), '{}: a concept twice', mode)
        check(set(got) <= set(all_), '{}: alien concept', mode)
        same(sorted(pair(x, c) for x in l), all_, 'the lattice that was filtered')
        return got

    def top(got, what):
        out = [index[p] for p in all_ if p not in got]
        check(not out or not got or max(out) <= min(index[p] for p in got),
              '{}: {!r} is dropped, {!r} is kept', what, out, [index[p] for p in got])
    level = (sorted(index.values())[case['value'] % len(all_)] if case['value'] % 2 else
             case['value'] / 16)
    same(sorted(result('value', level)), [p for p in all_ if index[p] >= level],
         'by value %r' % level)
    n = case['n']
    got = result('abs', n)
    same(len(got), min(n, len(all_)), 'by number %d' % n)
    top(got, 'by number')
    same(result('abs', float(n) + 0.5), got, 'by number that is not whole')
    share = case['part'] / 20
    n = int(len(all_) * share)
    got = result('part', share)
    check(len(got) >= n, 'part {}: {} of {} concepts', share, len(got), len(all_))
    top(got, 'by part')
    # the index as meta data
    other = sorted(FUNCTIONS)[(sorted(FUNCTIONS).index(name) + 1) % len(FUNCTIONS)]
    fca.compute_index(l, f, 'my index')
    fca.compute_index(l, FUNCTIONS[other], other)
    second = {pair(x, c): v for x, v in FUNCTIONS[other](l).items()}
    for x in l:
        same(set(x.meta), {'my index', other}, 'meta data of %r' % x)
        same(x.meta['my index'], index[pair(x, c)], 'meta data')
        same(x.meta[other], second[pair(x, c)], 'meta data')
    same(sorted(fl.get_modes()), ['abs', 'part', 'value'], 'modes')
    named = fl.get_compute_functions()
    same(sorted(named), sorted(FUNCTIONS), 'named functions')
    got = {pair(x, c): v for x, v in named[other](l).items()}
    check(set(got) == set(second) and all(close(got[p], second[p]) for p in got),
          '{} by its name: {!r}', other, got)


@subcheck('C20', 'large filters', filter_case(150, max_n=12, max_m=8), quick=120,
          shards=4, rule='the same for lattices of contexts up to 12 x 8; non-trivial: '
          'at least five distinct rows',
          nontrivial=lambda c: len(set(c['cxt']['rows'])) > 4)
def large_filters(case):
    filters(case)

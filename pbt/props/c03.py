"""C03 the order of concepts: lattices, concept systems, concepts as values."""
from hypothesis import strategies as st

import fca
from fca.algorithms.norris import compute_covering_relation, norris
from pbt import gen, ref
from pbt.core import check, raises, same, subcheck
from pbt.lib import build, model, mask, names, shape_classes, table

ASSUMPTIONS = ['the concepts of a concept system have distinct intents']

SMALL = gen.context(max_n=7, max_m=6)


def intents_of(cs, atts):
    return [mask(x.intent, atts) for x in cs]


def check_order(cs_obj, parents_of, c, what, cs=None):
    """cs_obj orders its concepts as their intents do."""
    cs = list(cs_obj) if cs is None else cs
    ints = intents_of(cs, c['atts'])
    cov = ref.covers(ints)
    for x, i in zip(cs, ints):
        same({mask(p.intent, c['atts']) for p in parents_of(x)}, cov[i],
             '%s: parents of %r' % (what, x))
        members(parents_of(x), cs, what + ': parents')
    return ints, cov


def members(some, cs, what):
    """All of some are among cs, with their meta data."""
    for p in some:
        check(any(p == x and p.meta == x.meta for x in cs), '{}: alien {!r}', what, p)


def printed(x):
    # no attributes: the extent is not spelled out, and the other way round
    e = sorted(x.extent) if x.intent else 'G'
    i = sorted(x.intent) if x.extent else 'M'
    return '(%s, %s)' % (e, i) + (' meta: %s' % (x.meta,) if x.meta else '')


def check_queries(s, cs, ints, cov, c, what):
    atts = c['atts']
    for x, i in zip(cs, ints):
        for _ in 0, 1:
            got = s.children(x), s.filter(x), s.ideal(x)
            same({mask(p.intent, atts) for p in got[0]},
                 {j for j in ints if i in cov[j]}, '%s: children of %r' % (what, x))
            same(sorted(mask(p.intent, atts) for p in got[1]),
                 sorted(j for j in ints if j & i == j and j != i), what + ': filter')
            same(sorted(mask(p.intent, atts) for p in got[2]),
                 sorted(j for j in ints if j & i == i and j != i), what + ': ideal')
            for some in got:
                members(some, cs, what + ': answers')
                some.clear()                # they are the caller's
        check(x in s, '{}: {!r} is not in it', what, x)
        twin = fca.Concept(x.extent, x.intent)
        check(twin in s and s.index(twin) == s.index(x) and
              s.parents(twin) == s.parents(x), '{}: an equal concept', what)
        same(s[s.index(x)], x, what + ': index')
        # concepts that share one side with one of it (names of one type: errors of
        # lists print them)
        for u in set(c['objs'][:1]) | set(list(x.extent)[:1]):
            other = fca.Concept(x.extent ^ {u}, x.intent)
            check(other not in s, '{}: contains the stranger {!r}', what, other)
            raises(ValueError, s.index, other)
        for u in set(atts[:1]) | set(list(x.intent)[:1]):
            other = fca.Concept(x.extent, x.intent ^ {u})
            check(other not in s, '{}: contains the stranger {!r}', what, other)
            raises(ValueError, s.index, other)
    same(len(s), len(cs), what + ': len')
    same(list(s[1:3]), list(cs[1:3]), what + ': part')
    same(str(s), '\n'.join(printed(x) for x in cs), what + ': printed')
    least = [i for i in ints if all(i & j == i for j in ints)]
    if least:
        same(mask(s.top_concept.intent, atts), least[0], what + ': top')
        same(mask(s.get_top_concept().intent, atts), least[0], what + ': top')
        members([s.top_concept, s.get_top_concept()], cs, what + ': top')
    most = [i for i in ints if all(i & j == j for j in ints)]
    if most:
        same(mask(s.bottom_concept.intent, atts), most[0], what + ': bottom')
        same(mask(s.get_bottom_concept().intent, atts), most[0], what + ': bottom')
        members([s.bottom_concept, s.get_bottom_concept()], cs, what + ': bottom')


@subcheck('C03', 'lattice', SMALL, quick=1500, shards=4,
          rule='random contexts up to 7 x 6, the lattice against the order of intents; '
               'non-trivial: two distinct rows',
          nontrivial=lambda c: len(set(c['rows'])) > 1 and c['m'] > 0,
          classify=shape_classes)
def lattice(c):
    k, r = build(c), model(c)
    for what, l in (('ConceptLattice', fca.ConceptLattice(k)),
                    ('concept_lattice', k.concept_lattice)):
        ints, cov = check_order(l, l.parents, c, what)
        same(set(ints), r.intents(), what + ': intents')
        check_queries(l, list(l), ints, cov, c, what)
        check(l.context is k, '{}: context', what)
        check(l.get_context() is k, '{}: context', what)
        for x in (l.concepts, l.get_concepts()):
            same(list(x), list(l), what + ': concepts')
        same(mask(l.top_concept.extent, c['objs']), r.G, 'extent of top')
        same(mask(l.bottom_concept.intent, c['atts']), r.M, 'intent of bottom')
        for x in l:
            for p in l.parents(x):
                check(p.extent > x.extent, 'a parent has a larger extent')
        check(fca.Concept(['no such object'], ['no such attribute']) not in l,
              '{}: contains a stranger', what)
    cs, parents = norris(k)
    check_order(cs, parents.__getitem__, c, 'norris')
    same(set(parents), set(cs), 'norris: concepts with parents')
    parents = compute_covering_relation(cs)
    check_order(cs, parents.__getitem__, c, 'compute_covering_relation')


@subcheck('C03', 'large lattice', gen.context(max_n=13, max_m=9, min_n=5, min_m=5,
                                              tall=(50, 6), wide=(6, 50)),
          quick=300, shards=8,
          rule='the same for contexts up to 13 x 9, 50 x 6 and 6 x 50',
          nontrivial=lambda c: len(set(c['rows'])) > 1, classify=shape_classes)
def large_lattice(c):
    lattice(c)


@subcheck('C03', 'repeated lines', gen.blown(), quick=60, shards=3,
          rule='the same for contexts with 17 to 70 lines either way, few of them '
               'different', nontrivial=lambda c: len(set(c['rows'])) > 1)
def repeated_lines(c):
    lattice(c)


@subcheck('C03', 'thousands', gen.huge(), quick=12, shards=2,
          rule='the same for contexts with 1 to 3 lines one way and 1001 to 2049 the other',
          nontrivial=lambda c: len(set(c['rows'])) > 1)
def thousands(c):
    lattice(c)
    for x in build(c).concepts:
        if len(x.extent) * len(x.intent) <= 5000:
            same(sorted(map(repr, x.pairs())),
                 sorted(repr((o, a)) for o in x.extent for a in x.intent), 'pairs')


@st.composite
def many_concepts(draw):
    n = draw(gen.ints(6, 9))
    full = (1 << n) - 1
    rows = [full ^ 1 << i for i in range(n)]
    for _ in range(draw(gen.ints(0, 3))):
        rows[draw(gen.ints(0, n - 1))] ^= 1 << draw(gen.ints(0, n - 1))
    return {'rows': rows, 'm': n, 'objs': draw(gen.name_list(n, gen.ALL_NAMES)),
            'atts': draw(gen.name_list(n, gen.ALL_NAMES)), 'form': 'bool',
            'drop': draw(st.one_of(st.just(0), gen.big(64))),
            'pick': draw(st.lists(gen.ints(0, 511), min_size=6, max_size=6))}


@subcheck('C03', 'many concepts', many_concepts(), quick=12, shards=4,
          rule='lattices and concept systems of up to 512 concepts; non-trivial: more than '
               '100 concepts',
          nontrivial=lambda c: c['m'] > 6)
def many(c):
    k, atts = build(c), c['atts']
    l = k.concept_lattice
    drop = c['drop']
    inside = [x for i, x in enumerate(l)
              if not drop or (drop >> i % 64 & 1) or i % 3 == 0]
    s = fca.ConceptSystem(inside)
    for what, obj, cs in ('lattice', l, list(l)), ('system', s, inside):
        same(list(obj), cs, what)
        same(len(obj), len(cs), what + ': len')
        ints = intents_of(cs, atts)
        cov = ref.covers(ints)
        by = dict(zip(ints, cs))
        for x, i in zip(cs, ints):
            same(set(obj.parents(x)), {by[j] for j in cov[i]}, what + ': parents')
        for p in c['pick']:
            x = cs[p % len(cs)]
            i = ints[p % len(cs)]
            same(set(obj.children(x)), {by[j] for j in ints if i in cov[j]},
                 what + ': children')
            same(sorted(mask(y.intent, atts) for y in obj.filter(x)),
                 sorted(j for j in ints if j & i == j and j != i), what + ': filter')
            same(sorted(mask(y.intent, atts) for y in obj.ideal(x)),
                 sorted(j for j in ints if j & i == i and j != i), what + ': ideal')
            same(obj.index(x), p % len(cs), what + ': index')
            same(obj[p % len(cs)], x, what + ': item')
            check(x in obj and fca.Concept(x.extent ^ set(c['objs'][:1]), x.intent)
                  not in obj, '{}: membership', what)
        for i in ints:
            if all(i & j == i for j in ints):
                same(obj.top_concept, by[i], what + ': top')
                same(obj.get_top_concept(), by[i], what + ': top')
            if all(i & j == j for j in ints):
                same(obj.bottom_concept, by[i], what + ': bottom')
                same(obj.get_bottom_concept(), by[i], what + ': bottom')
        same(str(obj), '\n'.join(printed(x) for x in cs), what + ': printed')
    for p in c['pick']:
        if s and p % 2:
            x = inside.pop(p % len(inside))
            s.remove(x)
        else:
            out = [x for x in l if x not in inside]
            if out:
                s.append(out[p % len(out)])
                inside.append(out[p % len(out)])
    same(list(s), inside, 'changed system')
    ints = intents_of(inside, atts)
    cov = ref.covers(ints)
    by = dict(zip(ints, inside))
    for x, i in zip(inside, ints):
        same(set(s.parents(x)), {by[j] for j in cov[i]}, 'changed system: parents')


def history(cxt, most, least=0):
    return st.fixed_dictionaries({
        'cxt': cxt, 'start': gen.big(32), 'ops': gen.ops([
            'append', 'append', 'remove', 'remove', 'parents', 'children', 'meta',
            'bad', 'twin'], most, min_size=least, nargs=1)})


@subcheck('C03', 'system', history(SMALL, 14), quick=1200, shards=4,
          rule='a concept system started with some concepts of a random context, then '
               'a random history of append/remove/queries; the order is checked after '
               'every step; non-trivial: a change follows a query',
          nontrivial=lambda c: any(
              a[0] in ('parents', 'children') and b[0] in ('append', 'remove')
              for i, a in enumerate(c['ops']) for b in c['ops'][i + 1:]))
def system(case):
    c = case['cxt']
    k = build(c)
    pool = k.concepts
    inside = [x for i, x in enumerate(pool) if case['start'] >> (i % 32) & 1]
    given = list(inside)
    s = fca.ConceptSystem(given)
    other = fca.ConceptSystem()
    for op, sel in case['ops']:
        if op == 'append':
            out = [x for x in pool if x not in inside]
            if out:
                x = out[sel % len(out)]
                s.append(x)
                inside.append(x)
        elif op == 'remove' and inside:
            x = inside[sel % len(inside)]
            # an equal concept is as good
            s.remove(fca.Concept(x.extent, x.intent) if sel % 2 else x)
            inside.remove(x)
        elif op == 'parents' and inside:
            s.parents(inside[sel % len(inside)])
        elif op == 'children' and inside:
            s.children(inside[sel % len(inside)])
        elif op == 'meta' and inside:
            inside[sel % len(inside)].meta['index'] = sel
        elif op == 'twin':
            # another system changes on its own
            if sel % 3 and pool:
                other.append(pool[sel % len(pool)])
            else:
                other = fca.ConceptSystem() if sel % 2 else fca.ConceptSystem(given)
                same(list(other), [] if sel % 2 else given, 'a new system')
        elif op == 'bad':
            try:
                s.append((set(), set()))
            except TypeError:
                pass
            else:
                check(False, 'a pair was accepted as a concept')
        same(list(s), inside, 'members')
        if inside:
            ints, cov = check_order(s, s.parents, c, 'system')
            check_queries(s, inside, ints, cov, c, 'system')
            cov2 = s.compute_covering_relation()
            check_order(s, cov2.__getitem__, c, 'covering relation')
        for x in pool:
            same(x in s, x in inside, 'membership')
    same(given, [x for i, x in enumerate(pool) if case['start'] >> (i % 32) & 1],
         'the list the system was made from')


@subcheck('C03', 'long system', history(gen.context(max_n=10, max_m=7, min_n=4, min_m=3),
                                        45, 18), quick=150, shards=8,
          rule='the same with 18 to 45 steps on contexts up to 10 x 7',
          nontrivial=lambda c: len(set(c['cxt']['rows'])) > 2)
def long_system(case):
    system(case)


PAIR = st.fixed_dictionaries({
    'u': gen.name_list(6, gen.ALL_NAMES), 'v': gen.name_list(6, gen.ALL_NAMES),
    'e': st.lists(gen.ints(0, 63), min_size=2, max_size=2),
    'i': st.lists(gen.ints(0, 63), min_size=2, max_size=2),
    'same': gen.ints(0, 3), 'meta': gen.ints(0, 3), 'late': st.booleans()})


@subcheck('C03', 'concepts as values', PAIR, quick=3000, shards=1,
          rule='two concepts with random extents, intents and meta data, given in '
               'different orders; non-trivial: both have objects and attributes',
          nontrivial=lambda c: all(c['e']) and all(c['i']),
          classify=lambda c: ['equal extents'] * (c['same'] & 1) +
                             ['equal intents'] * (c['same'] >> 1))
def values(case):
    e, i = case['e'], case['i']
    if case['same'] & 1:
        e = [e[0], e[0]]
    if case['same'] & 2:
        i = [i[0], i[0]]
    order = [1, -1]
    xs = []
    for t in (0, 1):
        ext = [case['u'][b] for b in ref.bits(e[t])][::order[t]]
        int_ = [case['v'][b] for b in ref.bits(i[t])][::order[t]]
        x = fca.Concept(ext, int_)
        ext.append('late')                   # the concept keeps its own sets
        same(x.extent, names(e[t], case['u']), 'extent')
        same(x.intent, names(i[t], case['v']), 'intent')
        xs.append(x)
    a, b = xs
    d = {a: 1}
    if case['meta'] & 1:
        a.meta['stability'] = 0.5
    if case['meta'] & 2:
        b.meta['stability'] = 0.25
    equal = e[0] == e[1] and i[0] == i[1]
    same(a == b, equal, 'equality')
    same(a != b, not equal, 'inequality')
    check(a in d, 'a concept is lost as a key when its meta data change')
    same(b in d, equal, 'equal concepts are the same key')
    if equal:
        same(hash(a), hash(b), 'hash')
        same(len({a, b}), 1, 'set of equal concepts')
    same(str(a), printed(a), 'printed')
    same(repr(b), printed(b), 'printed')
    check(a != (a.extent, a.intent), 'a concept is not a pair')
    same(set(a.pairs()), {(o, t) for o in a.extent for t in a.intent}, 'pairs')
    same(len(list(a.pairs())), len(a.extent) * len(a.intent), 'number of pairs')

"""C10 clarified and reduced contexts have the same concepts, and no fewer rows do."""
from hypothesis import strategies as st

import fca
from pbt import gen, ref
from pbt.core import check, same, subcheck
from pbt.lib import build, cells, model, shape_classes, check_context, table, scribble


def sub(small, c, what):
    """A context made of some objects of another, rows unchanged -> row masks."""
    tab = table(c)
    same(list(small.attributes), c['atts'], what + ': attributes')
    objs = list(small.objects)
    check(len(set(objs)) == len(objs), '{}: repeated objects {!r}', what, objs)
    rows = []
    for o, r in zip(objs, cells(small)):
        check(o in c['objs'], '{}: alien object {!r}', what, o)
        same(r, tab[c['objs'].index(o)], '%s: row of %r' % (what, o))
        rows.append(ref.mask_of(j for j, v in enumerate(r) if v))
    check_context(small, cells(small), objs, c['atts'], what)
    return rows


def irreducible(rows, full, what):
    check(len(set(rows)) == len(rows), '{}: repeated rows', what)
    for r in rows:
        if r == full:
            continue
        meet = full
        for s in rows:
            if s & r == r and s != r:
                meet &= s
        check(meet != r, '{}: row {} is an intersection of others', what, bin(r))


def same_closure(rows, kept, full, what):
    """The same intersections: every row dropped is the intersection of kept ones."""
    for r in set(rows):
        meet = full
        for s in kept:
            if s & r == r:
                meet &= s
        check(meet == r, '{}: row {} is lost', what, bin(r))
    check(set(kept) <= set(rows), '{}: new rows', what)


def flip(k, c):
    """The transposed case, and a context read the other way round."""
    tab = table(c)
    rows = [ref.mask_of(i for i in range(len(tab)) if tab[i][j]) for j in range(c['m'])]
    return {'rows': rows, 'm': len(tab), 'objs': c['atts'], 'atts': c['objs']}


def body(c):
    k = build(c)
    full = (1 << c['m']) - 1
    got = k.clarify_objects()
    rows = sub(got, c, 'clarified')
    same(sorted(rows), sorted(set(c['rows'])), 'clarified: rows')
    got = k.reduce_objects()
    rows = sub(got, c, 'reduced objects')
    same_closure(c['rows'], rows, full, 'reduced objects')
    check((full in rows) == (full in c['rows']), 'a full row was lost')
    places = [c['objs'].index(o) for o in got.objects]
    check(places == sorted(places), 'reduced objects: order {!r}', got.objects)
    irreducible(rows, full, 'reduced objects')
    again = got.reduce_objects()
    same(sorted(map(str, again.objects)), sorted(map(str, got.objects)), 'reduced twice')
    got = k.reduce_attributes()
    f = flip(k, c)
    back = fca.Context([[r[j] for r in cells(got)] for j in range(len(got.attributes))],
                       list(got.attributes), list(got.objects))
    rows = sub(back, f, 'reduced attributes')
    fullf = (1 << f['m']) - 1
    same_closure(f['rows'], rows, fullf, 'reduced attributes')
    check((fullf in rows) == (fullf in f['rows']), 'a full column was lost')
    places = [c['atts'].index(a) for a in got.attributes]
    check(places == sorted(places), 'reduced attributes: order {!r}', got.attributes)
    irreducible(rows, fullf, 'reduced attributes')
    both = k.reduce_attributes().reduce_objects()
    if len(c['rows']) <= 10 and c['m'] <= 10:
        b = ref.Ref(cells(both), len(both.attributes))
        # a full row or column is kept, so the extreme concepts survive
        same(len(b.concepts()), len(model(c).concepts()), 'number of concepts')
    made = [f() for f in (k.clarify_objects, k.reduce_objects, k.reduce_attributes)]
    were = [([list(x.objects), list(x.attributes)], cells(x)) for x in made]
    for x in made:
        scribble(x)
    check_context(k, table(c), c['objs'], c['atts'],
                  'the original, after changes of what was made of it')
    made = [f() for f in (k.clarify_objects, k.reduce_objects, k.reduce_attributes)]
    scribble(k)
    for x, (n, t) in zip(made, were):
        check_context(x, t, n[0], n[1], 'made of a context that is changed later')


def reducible(c):
    full = (1 << c['m']) - 1
    rows = set(c['rows'])
    if len(rows) < len(c['rows']):
        return True
    for r in rows:
        meet = full
        for s in rows:
            if s & r == r and s != r:
                meet &= s
        if meet == r != full:
            return True
    return False


RULE = 'non-trivial: two objects have the same row or a row is an intersection of others'

subcheck('C10', 'small', gen.context(max_n=9, max_m=7), quick=2500, shards=4,
         rule='contexts up to 9 x 7; ' + RULE, nontrivial=reducible,
         classify=shape_classes)(body)

subcheck('C10', 'large', gen.context(max_n=30, max_m=12, min_n=4, min_m=4,
                                     tall=(80, 5), wide=(10, 90)), quick=700, shards=4,
         rule='contexts up to 30 x 12, 80 x 5 and 10 x 90; ' + RULE,
         nontrivial=reducible, classify=shape_classes)(body)


@st.composite
def wide_rows(draw):
    """More than 62 attributes, with rows that are intersections of others."""
    m = draw(gen.ints(60, 140))
    base = draw(st.lists(gen.big(m), min_size=2, max_size=6))
    base = [b | draw(gen.big(m)) for b in base]
    for _ in range(draw(gen.ints(1, 5))):
        i, j = draw(gen.ints(0, len(base) - 1)), draw(gen.ints(0, len(base) - 1))
        base.append(base[i] & base[j])
    shift = draw(gen.ints(0, len(base)))
    base = base[shift:] + base[:shift]
    n = len(base)
    return {'rows': base, 'm': m, 'objs': draw(gen.name_list(n, ['letters', 'ints'])),
            'atts': draw(gen.name_list(m, ['letters', 'reversed', 'ints'])),
            'form': draw(st.sampled_from(['bool', 'int', 'numpy']))}


subcheck('C10', 'repeated lines', gen.blown(), quick=150, shards=2,
         rule='contexts with 17 to 70 lines either way, few of them different; ' + RULE,
         nontrivial=reducible)(body)

subcheck('C10', 'wide', wide_rows(), quick=300, shards=2,
         rule='3 to 11 objects with 60 to 140 attributes; ' + RULE,
         nontrivial=reducible, classify=shape_classes)(body)


subcheck('C10', 'thousands', gen.huge(), quick=12, shards=2,
         rule='contexts with 1 to 3 lines one way and 1001 to 2049 the other; ' + RULE,
         nontrivial=reducible)(body)

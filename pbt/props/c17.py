"""C17 many-valued contexts and conceptual scaling."""
import copy

from hypothesis import strategies as st

import fca
from fca.scale import NominalScale, OrdinalScale
from pbt import gen
from pbt.core import check, same, raises, subcheck
from pbt.lib import check_context

ASSUMPTIONS = ['values are numbers, strings or None, told apart as floating-point numbers '
               'where float() reads them; a scale fits the values of its column',
               'names of many-valued attributes and of scale attributes are numbers or '
               'strings without colons']

WORDS = ['red', 'green', 'a b', '', "it's", 'say "x"', 'back\\slash', 'ä', 'Red', 'r',
         'new\nline', '7a', '{}', '%s', "'", '"', None, 'None', 'nano', 10 ** 400, [1, 2], ['x', 1],
         ' red', 'red ', 'RED', '\tred', 'red\u00a0', '\u2003']
NUMBERS = [0, 1, 2, 3, 4, 5, -1, 2.5, 0.1, 1e6, '0', '1', '2', '3', '4', '2.0', ' 3',
           '2.5', '1e0', '-1', 3.0, True, False, 'nan', 'NaN', 'inf', '-Infinity',
           -1e999, '1e999', '-0']


def column(kind):
    if kind == 'small':
        return gen.ints(0, 4)
    if kind == 'number':
        return st.sampled_from(NUMBERS)
    if kind == 'word':
        return st.sampled_from(WORDS)
    return st.sampled_from(NUMBERS + WORDS)


EXPRS = {'small': ['gt', 'le', 'eq', 'between', 'in'],
         'number': ['gt', 'le', 'eq', 'between', 'in'],
         'word': ['eqs', 'has', 'starts', 'ins'], 'mixed': ['eq', 'eqs', 'ins', 'in']}


def render(e):
    op, a, b = e
    n, w = NUMBERS[:10], WORDS[:16]
    x, y = n[a % len(n)], n[b % len(n)]
    s, t = w[a % len(w)], w[b % len(w)]
    return {'gt': 'value > %r' % x, 'le': 'value <= %r' % x, 'eq': 'value == %r' % x,
            'between': '%r <= value < %r' % (x, y), 'in': 'value in (%r, %r)' % (x, y),
            'eqs': 'value == %r' % s, 'has': '%r in value' % s,
            'starts': 'value.startswith(%r)' % s,
            'ins': 'value in [%r, %r]' % (s, t)}[op]


def number(v):
    """The value as scales see it."""
    try:
        v = float(v)
    except (ValueError, TypeError, OverflowError):
        return str(v)
    return NAN if v != v else v


def key(v):
    """Equal for equal values."""
    v = number(v)
    return 'NaN value' if v is NAN else v


def holds(e, v):
    op, a, b = e
    n, w = NUMBERS[:10], WORDS[:16]
    x, y = n[a % len(n)], n[b % len(n)]
    s, t = w[a % len(w)], w[b % len(w)]
    v = number(v)
    return {'gt': lambda: v > x, 'le': lambda: v <= x, 'eq': lambda: v == x,
            'between': lambda: x <= v and v < y, 'in': lambda: v == x or v == y,
            'eqs': lambda: v == s, 'has': lambda: v.find(s) >= 0,
            'starts': lambda: v[:len(s)] == s,
            'ins': lambda: v == s or v == t}[op]()


NAN = float('nan')
NAMES = ['letters', 'reversed', 'numbered', 'shuffled', 'prefix', 'ints', 'ints0', 'floats']


@st.composite
def mv(draw, max_n=7, max_m=5, min_n=0, min_m=0):
    n, m = draw(gen.ints(min_n, max_n)), draw(gen.ints(min_m, max_m))
    kinds = [draw(st.sampled_from(['small', 'small', 'number', 'word', 'mixed']))
             for _ in range(m)]
    cols = [draw(st.lists(column(k), min_size=n, max_size=n)) for k in kinds]
    return {'objs': [x.upper() if isinstance(x, str) else x + 50
                     for x in draw(gen.name_list(n, NAMES))],
            'atts': draw(gen.name_list(m, NAMES)), 'kinds': kinds,
            'table': [[c[i] for c in cols] for i in range(n)]}


@st.composite
def scale(draw):
    r, k = draw(gen.ints(0, 4)), draw(gen.ints(0, 4))
    return {'exprs': [[draw(gen.ints(0, 9)), draw(gen.ints(0, 99)), draw(gen.ints(0, 99))]
                      for _ in range(r)], 'atts': draw(gen.name_list(k, NAMES)),
            'cross': [draw(gen.ints(0, (1 << k) - 1)) for _ in range(r)],
            'how': draw(st.sampled_from(['own', 'own', 'nominal', 'ordinal', 'geq',
                                         'nominal name', 'wide ordinal']))}


def build(c):
    return fca.ManyValuedContext([list(r) for r in c['table']], list(c['objs']),
                                 list(c['atts']))


def values(row):
    return [(type(v), v) for v in row]


def check_mv(got, rows, objs, atts, what):
    check(isinstance(got, fca.ManyValuedContext), '{}: a many-valued context', what)
    same(list(got.objects), list(objs), what + ': objects')
    same(list(got.attributes), list(atts), what + ': attributes')
    same(len(got), len(objs), what + ': len')
    same([values(r) for r in got], [values(r) for r in rows], what + ': values')
    same([values(r) for r in got.table], [values(r) for r in rows], what + ': table')
    same(repr(got), ', '.join(map(str, atts)) + '\n' + ''.join(
        '\t'.join([str(o)] + [str(v) for v in r]) + '\n' for o, r in zip(objs, rows)),
        what + ': printed')
    for i, o in enumerate(objs):
        same(values(got[i]), values(rows[i]), what + ': row')
        for j, a in enumerate(atts):
            v = got.get_value(o, a)
            same((type(v), v), (type(rows[i][j]), rows[i][j]), what + ': value')


def make_scale(spec, kind, j, cxt, c):
    """The real scale, and model: (attribute names, value -> row of cells) or None."""
    how = spec['how']
    if how in ('ordinal', 'geq', 'wide ordinal') and kind != 'small':
        how = 'own'
    if how.startswith('nominal'):
        name = c['atts'][j]                 # an integer means the number of a column
        return NominalScale(name if how == 'nominal name' and isinstance(name, str)
                            else j, cxt), None
    if how in ('ordinal', 'geq', 'wide ordinal'):
        lo, hi = (-2, 6) if how == 'wide ordinal' else (0, 4)
        if how == 'geq':
            return OrdinalScale(lo, hi, 'geq'), (
                ['>= %d' % u for u in range(lo + 1, hi + 1)],
                lambda v: [number(v) >= u for u in range(lo + 1, hi + 1)])
        return OrdinalScale(lo, hi), (
            ['<= %d' % u for u in range(lo, hi)],
            lambda v: [number(v) <= u for u in range(lo, hi)])
    ops = EXPRS[kind]
    exprs, cross = [], []
    for (o, a, b), x in zip(spec['exprs'], spec['cross']):
        e = (ops[o % len(ops)], a, b)
        if render(e) not in [render(f) for f in exprs]:
            exprs.append(e)
            cross.append(x)
    k = len(spec['atts'])
    s = fca.Scale(fca.Context([[bool(x >> t & 1) for t in range(k)] for x in cross],
                              [render(e) for e in exprs], list(spec['atts'])))
    check_context(s, [[bool(x >> t & 1) for t in range(k)] for x in cross],
                  [render(e) for e in exprs], spec['atts'], 'scale')
    return s, (list(spec['atts']),
               lambda v: [any(x >> t & 1 and holds(e, v) for e, x in zip(exprs, cross))
                          for t in range(k)])


@subcheck('C17', 'scaling', st.fixed_dictionaries({
    'mv': mv(), 'scales': st.lists(scale(), min_size=5, max_size=5)}),
    quick=1500, shards=4,
    rule='a random many-valued context, and for every column a random scale of boolean '
         'expressions, a nominal or an ordinal one; non-trivial: at least two objects '
         'and a column',
    nontrivial=lambda c: len(c['mv']['table']) > 1 and c['mv']['atts'],
    classify=lambda c: sorted({s['how'] for s in c['scales'][:len(c['mv']['atts'])]}))
def scaling(case):
    c = case['mv']
    cxt = build(c)
    pairs = [make_scale(s, k, j, cxt, c)
             for j, (s, k) in enumerate(zip(case['scales'], c['kinds']))]
    got = fca.scale_mvcontext(cxt, [p[0] for p in pairs])
    check(type(got) is fca.Context, 'a one-valued context')
    same(list(got.objects), c['objs'], 'objects')
    rows = [[bool(v) for v in r] for r in got]
    at, atts = 0, list(got.attributes)
    wanted = [[] for _ in c['objs']]
    all_names = []
    for j, (s, m) in enumerate(pairs):
        col = [r[j] for r in c['table']]
        if m:
            names, f = m
            for w, v in zip(wanted, col):
                w.extend(f(v))
        else:
            # one attribute for every value, the same for equal values only
            k = len({key(v) for v in col})
            names = [a for a in s.attributes]
            same(len(names), k, 'attributes of the nominal scale')
            part = [r[at:at + k] for r in rows]
            for i, x in enumerate(part):
                same(sum(x), 1, 'crosses of an object in a nominal scale')
                for l in range(i):
                    same(x == part[l], key(col[i]) == key(col[l]),
                         'nominal: %r and %r' % (col[i], col[l]))
            for w, x in zip(wanted, part):
                w.extend(x)
            for x, v in zip(part, col):
                if isinstance(number(v), float):
                    same(key(names[x.index(True)]), key(v), 'nominal name')
        at += len(names)
        all_names += ['%s:%s' % (c['atts'][j], a) for a in names]
    same(atts, all_names, 'derived attributes')
    check_context(got, wanted, c['objs'], all_names, 'derived context')
    check_mv(cxt, c['table'], c['objs'], c['atts'], 'after scaling')


@subcheck('C17', 'large scaling', st.fixed_dictionaries({
    'mv': mv(40, 12, 10, 6), 'scales': st.lists(scale(), min_size=12, max_size=12)}),
    quick=30, shards=8,
    rule='the same for tables up to 40 x 12')
def large_scaling(case):
    scaling(case)


@subcheck('C17', 'ordinal', st.fixed_dictionaries({
    'lo': gen.ints(-12, 12), 'size': gen.ints(0, 14), 'geq': st.booleans()}),
    quick=300, shards=1,
    rule='an ordinal scale of a random integer range and its reading of every value in '
         'it; non-trivial: at least two values', nontrivial=lambda c: c['size'] > 0)
def ordinal(case):
    lo, hi = case['lo'], case['lo'] + case['size']
    s = OrdinalScale(lo, hi, 'geq') if case['geq'] else OrdinalScale(lo, hi)
    cuts = list(range(lo + 1, hi + 1)) if case['geq'] else list(range(lo, hi))
    sign = '>= %d' if case['geq'] else '<= %d'
    same(list(s.attributes), [sign % u for u in cuts], 'attributes')
    mvc = fca.ManyValuedContext([[v] for v in range(lo, hi + 1)],
                                ['g%d' % v for v in range(lo, hi + 1)], ['x'])
    got = fca.scale_mvcontext(mvc, [s])
    check_context(got, [[v >= u if case['geq'] else v <= u for u in cuts]
                        for v in range(lo, hi + 1)],
                  ['g%d' % v for v in range(lo, hi + 1)],
                  ['x:' + sign % u for u in cuts], 'derived context')


HOPS = ['delete object', 'delete attribute', 'delete attributes', 'rename object',
        'rename attribute', 'extract', 'condition', 'by values', 'wrong names',
        'add object', 'add attribute', 'copy', 'transpose']


@subcheck('C17', 'history', st.fixed_dictionaries({
    'mv': mv(), 'ops': gen.ops(HOPS, 7, nargs=2)}), quick=1500, shards=3,
    rule='a random many-valued context and up to seven deletions, renamings and '
         'extractions, each compared with a model that keeps the values and their '
         'types; non-trivial: at least one operation on a non-empty table',
    nontrivial=lambda c: c['ops'] and c['mv']['table'] and c['mv']['atts'],
    classify=lambda c: sorted({o[0] for o in c['ops']}))
def history(case):
    c = case['mv']
    cxt = build(c)
    rows, objs, atts = [list(r) for r in c['table']], list(c['objs']), list(c['atts'])
    check_mv(cxt, rows, objs, atts, 'constructed')
    others = []                             # what was derived, and should stay as it is
    if rows:
        raises(ValueError, fca.ManyValuedContext, rows[1:], objs, atts)
    if rows and atts:
        raises(ValueError, fca.ManyValuedContext, [r[1:] for r in rows], objs, atts)
    for k, (op, a, b) in enumerate(case['ops']):
        what = 'step %d, %s' % (k, op)
        if op == 'delete object' and objs:
            i = a % len(objs)
            cxt.delete_object(objs[i])
            del objs[i], rows[i]
        elif op == 'delete attribute' and atts:
            j = a % len(atts)
            cxt.delete_attribute(atts[j])
            del atts[j]
            for r in rows:
                del r[j]
        elif op == 'delete attributes':
            js = [j for j in range(len(atts)) if a >> j & 1]
            names = [atts[j] for j in js]
            if b % 2:
                names.reverse()
            cxt.delete_attributes(names)
            keep = [j for j in range(len(atts)) if j not in js]
            atts = [atts[j] for j in keep]
            rows = [[r[j] for j in keep] for r in rows]
        elif op == 'rename object' and objs:
            i = a % len(objs)
            cxt.rename_object(objs[i], 'new%d' % k)
            objs[i] = 'new%d' % k
        elif op == 'rename attribute' and atts:
            j = a % len(atts)
            cxt.rename_attribute(atts[j], 'new%d' % k)
            atts[j] = 'new%d' % k
        elif op == 'extract':
            js = [j for j in range(len(atts)) if a >> j & 1]
            if b % 2:
                js.reverse()
            names = [atts[j] for j in js]
            sub = cxt.extract_subcontext(names)
            check_mv(sub, [[r[j] for j in js] for r in rows], objs, names, what)
            others.append((sub, [[r[j] for j in js] for r in rows], list(objs), names))
        elif op == 'condition':
            keep = [i for i in range(len(objs)) if a >> i & 1]
            sub = cxt.extract_subcontext_by_condition(lambda i: a >> i & 1)
            check_mv(sub, [rows[i] for i in keep], [objs[i] for i in keep], atts, what)
            if b % 2:
                others.append((cxt, rows, objs, atts))
                cxt, rows = sub, [list(rows[i]) for i in keep]
                objs, atts = [objs[i] for i in keep], list(atts)
        elif op == 'by values' and objs:
            like = rows[a % len(objs)]
            values_ = {atts[j]: like[j] for j in range(len(atts)) if b >> j & 1}
            keep = [i for i, r in enumerate(rows)
                    if all(r[atts.index(x)] == v for x, v in values_.items())]
            sub = cxt.extract_subcontext_by_attribute_values(values_)
            check_mv(sub, [rows[i] for i in keep], [objs[i] for i in keep], atts, what)
            others.append((sub, [list(rows[i]) for i in keep], [objs[i] for i in keep],
                           list(atts)))
            if b % 3 == 0:
                values_ = {x: 'no such value' for x in atts[:1]}
                sub = cxt.extract_subcontext_by_attribute_values(values_)
                check_mv(sub, [] if atts else rows, [] if atts else objs, atts, what)
        elif op in ('add object', 'add attribute'):
            side, n = (objs, len(atts)) if op == 'add object' else (atts, len(objs))
            pool = NUMBERS + WORDS
            line = [pool[(a + b * i) % len(pool)] for i in range(n)]
            f = cxt.add_object if op == 'add object' else cxt.add_attribute
            raises(ValueError, f, line + [1], 'refused')
            check_mv(cxt, rows, objs, atts, 'refused ' + what)
            if b % 2:
                raises(ValueError, f, line[1:], 'refused') if n else None
                line = tuple(line)
            f(line, 'added%d' % k)
            side.append('added%d' % k)
            if op == 'add object':
                rows.append(list(line))
            else:
                for r, v in zip(rows, line):
                    r.append(v)
        elif op in ('copy', 'transpose'):
            if op == 'copy':
                sub, other = copy.deepcopy(cxt), (rows, objs, atts)
            else:
                sub = cxt.transpose()
                other = [[r[j] for r in rows] for j in range(len(atts))], atts, objs
            check_mv(sub, *other, what)
            mine = (cxt, rows, objs, atts)
            theirs = (sub, [list(r) for r in other[0]], list(other[1]), list(other[2]))
            if b % 2:
                mine, theirs = theirs, mine
            others.append(theirs)
            cxt, rows, objs, atts = mine
        elif op == 'wrong names':
            raises(ValueError, cxt.extract_subcontext, atts[:1] + ['no such name'])
            raises(ValueError, cxt.extract_subcontext_by_attribute_values,
                   {'no such name': 1})
        check_mv(cxt, rows, objs, atts, what)
        for x in others[-4:]:
            check_mv(*x, 'derived before ' + what)


@subcheck('C17', 'long history', st.fixed_dictionaries({
    'mv': mv(25, 14, 5, 5), 'ops': gen.ops(HOPS, 30, min_size=10, nargs=2)}), quick=60,
    shards=4, rule='the same with 10 to 30 steps on tables up to 25 x 14')
def long_history(case):
    history(case)


@st.composite
def huge_mv(draw):
    """Few lines one way and more than a thousand the other, with few kinds of values."""
    k = draw(gen.ints(1, 3))
    tall = draw(st.booleans())
    big = draw(st.sampled_from([1001, 1100, 1500] if tall else [1001, 1025]))
    n, m = (big, k) if tall else (k, big)
    few = [draw(st.sampled_from(['small', 'small', 'number', 'word', 'mixed']))
           for _ in range(k if tall else 3)]
    pools = [draw(st.lists(column(x), min_size=3, max_size=9)) for x in few]
    kinds = [few[j % len(few)] for j in range(m)]
    turn = draw(gen.ints(1, 7))
    table = [[pools[j % len(few)][(i * turn + j // len(few)) % len(pools[j % len(few)])]
              for j in range(m)] for i in range(n)]
    return {'objs': ['G%d' % i for i in range(n)], 'atts': ['a%d' % j for j in range(m)],
            'kinds': kinds, 'table': table}


@st.composite
def huge_case(draw):
    c = draw(huge_mv())
    some = draw(st.lists(scale(), min_size=1, max_size=3))
    return {'mv': c, 'scales': [some[j % len(some)] for j in range(len(c['atts']))]}


@subcheck('C17', 'thousands', huge_case(), quick=6, shards=4,
          rule='many-valued contexts with 1 to 3 lines one way and 1001 to 1500 the other; '
               'non-trivial: always', nontrivial=lambda c: True)
def thousands(case):
    scaling(case)

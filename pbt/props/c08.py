"""C08 modifying a context: every view follows, and nothing else changes."""
import copy

import numpy as np
from hypothesis import strategies as st

import fca
from fca.algorithms.dg_basis import compute_dg_basis_simple
from pbt import gen, ref
from pbt.core import check, same, subcheck
from pbt.props import c01
from pbt.lib import (build, mask, names, imp_masks, shape_classes, check_context,
                     table)
from pbt.theory import dg_exact

ASSUMPTIONS = ['names of one side are of one type; only strings are repeated']

CHANGES = ['add_object', 'add_object_with_intent', 'add_attribute',
           'add_attribute_with_extent', 'delete_object', 'delete_attribute',
           'delete_attributes', 'rename_object', 'rename_attribute',
           'set_object_intent', 'set_attribute_extent', 'remove_empty_objects']
OTHERS = ['fork', 'derive', 'query', 'query', 'abort', 'iterate', 'bad', 'repeat']


class Model:
    def __init__(self, cxt, rows, objs, atts):
        self.cxt, self.rows = cxt, [list(r) for r in rows]
        self.objs, self.atts = list(objs), list(atts)

    def verify(self, what):
        check_context(self.cxt, self.rows, self.objs, self.atts, what)


def fresh(old, sel):
    """A name that is not in use, of the type of the others."""
    if old and all(isinstance(x, (int, float)) for x in old):
        used = set(old)
        pool = [x for x in range(-3, len(old) + 200) if x not in used]
    else:
        pool = [x for x in ('n%d' % i for i in range(60)) if x not in old]
        pool = [x for x in ('A', 'b_1', 'a_0', 'zz', '0', 'not a') if x not in old] + pool
    return pool[sel % 12]


def collect(items, sel):
    items = list(items)
    return [items, set(items), tuple(items)][sel % 3]


def bits_of(sel, n):
    # spread a selector over any number of lines
    x = (sel * 2654435761 + 12345) & ((1 << 64) - 1)
    return [bool(x >> (i * 7 % 61) & 1) for i in range(n)]


def line(values, sel):
    return [list(values), [int(v) for v in values], np.array(values, dtype=bool),
            tuple(values)][sel % 4]


def apply(m, op, a, b, c):
    """Apply one change to the real context and to the model."""
    k = m.cxt
    n, w = len(m.objs), len(m.atts)
    if op in ('add_object', 'add_object_with_intent'):
        row, name = bits_of(b, w), fresh(m.objs, a)
        if op == 'add_object':
            k.add_object(line(row, c), name)
        else:
            k.add_object_with_intent(collect([x for x, v in zip(m.atts, row) if v], c),
                                     name)
        m.rows.append(row)
        m.objs.append(name)
    elif op in ('add_attribute', 'add_attribute_with_extent'):
        col, name = bits_of(b, n), fresh(m.atts, a)
        if op == 'add_attribute':
            k.add_attribute(line(col, c), name)
        else:
            k.add_attribute_with_extent(
                collect([x for x, v in zip(m.objs, col) if v], c), name)
        for r, v in zip(m.rows, col):
            r.append(v)
        m.atts.append(name)
    elif op == 'delete_object' and n:
        i = a % n
        k.delete_object(m.objs[i])
        del m.rows[i], m.objs[i]
    elif op == 'delete_attribute' and w:
        j = a % w
        k.delete_attribute(m.atts[j])
        for r in m.rows:
            del r[j]
        del m.atts[j]
    elif op == 'delete_attributes' and w:
        js = [j for j, v in enumerate(bits_of(b, w)) if v][:3]
        if c % 2:
            js.reverse()
        # any collection, a name may come twice
        given = [m.atts[j] for j in js] + [m.atts[j] for j in js[:c % 3]]
        k.delete_attributes(iter(given) if c % 5 == 0 else collect(given, c))
        for j in sorted(js, reverse=True):
            for r in m.rows:
                del r[j]
            del m.atts[j]
    elif op == 'rename_object' and n:
        i = a % n
        name = m.objs[i] if c % 7 == 0 else fresh(m.objs, b)
        k.rename_object(m.objs[i], name)
        m.objs[i] = name
    elif op == 'rename_attribute' and w:
        j = a % w
        name = m.atts[j] if c % 7 == 0 else fresh(m.atts, b)
        k.rename_attribute(m.atts[j], name)
        m.atts[j] = name
    elif op == 'set_object_intent' and n:
        i, row = a % n, bits_of(b, w)
        k.set_object_intent(collect([x for x, v in zip(m.atts, row) if v], c), m.objs[i])
        m.rows[i] = row
    elif op == 'set_attribute_extent' and w:
        j, col = a % w, bits_of(b, n)
        k.set_attribute_extent(collect([x for x, v in zip(m.objs, col) if v], c),
                               m.atts[j])
        for r, v in zip(m.rows, col):
            r[j] = v
    elif op == 'remove_empty_objects':
        got = k.remove_empty_objects()
        check(got is k, 'remove_empty_objects returns the context')
        keep = [i for i, r in enumerate(m.rows) if any(r)]
        m.rows = [m.rows[i] for i in keep]
        m.objs = [m.objs[i] for i in keep]


class Abort(Exception):
    pass


def query(m, sel):
    """What is computed from the context is computed from its present state."""
    k = m.cxt
    r = ref.Ref(m.rows, len(m.atts))
    what = sel % 9
    if what == 0:
        got = {(mask(x.extent, m.objs), mask(x.intent, m.atts)) for x in k.concepts}
        same(got, r.concepts(), 'concepts of the present context')
    elif what == 1:
        dg_exact(imp_masks(k.attribute_implications, m.atts), r, (), 'basis')
    elif what == 2:
        dg_exact(imp_masks(k.get_attribute_canonical_basis(), m.atts), r, (),
                 'incremental basis')
    elif what == 3:
        t = ref.Ref([[row[j] for row in m.rows] for j in range(len(m.atts))],
                    len(m.objs))
        dg_exact(imp_masks(k.object_implications, m.objs), t, (), 'object basis')
    elif what == 4:
        s = r.M & sel // 9
        same(set(k.aclosure(names(s, m.atts))), names(r.aclosure(s), m.atts), 'closure')
        same(set(k.aprime(names(s, m.atts))), names(r.aprime(s), m.objs), 'extent')
    elif what == 5:
        s = r.G & sel // 9
        same(set(k.oclosure(names(s, m.objs))), names(r.oclosure(s), m.objs), 'closure')
        same(set(k.oprime(names(s, m.objs))), names(r.oprime(s), m.atts), 'intent')
    elif what == 6:
        dg_exact(imp_masks(k.get_attribute_implications(basis=compute_dg_basis_simple),
                           m.atts), r, (), 'simple basis')
    elif what == 8:
        c01.agree(k, r, m.objs, m.atts, [
            {'side': side, 'mask': sel // 9 * (1 + (sel // 9 << 20)), 'rev': sel & 1,
             'dup': sel % 3, 'as': 'list' if sel % 5 else 'set'} for side in 'oa'])
    else:
        same(sorted(map(repr, k.get_object_attribute_pairs())),
             sorted(repr((o, a)) for o, row in zip(m.objs, m.rows)
                    for a, v in zip(m.atts, row) if v), 'pairs')
        for o, row in zip(m.objs, m.rows):
            for a, v in zip(m.atts, row):
                same(bool(k.get_value(o, a)), v, 'value of %r, %r' % (o, a))


def bad(m, a, b, c):
    """A refused change changes nothing."""
    k = m.cxt
    n, w = len(m.objs), len(m.atts)
    alien = 'no such name'
    calls = [(lambda: k.delete_object(alien), KeyError),
             (lambda: k.delete_attribute(alien), KeyError),
             (lambda: k.rename_object(alien, 'x'), KeyError),
             (lambda: k.rename_attribute(alien, 'x'), KeyError),
             (lambda: k.set_object_intent([], alien), KeyError),
             (lambda: k.set_attribute_extent([], alien), KeyError),
             (lambda: k.get_object_intent(alien), KeyError),
             (lambda: k.get_attribute_extent(alien), KeyError)]
    if n:
        calls += [(lambda: k.set_object_intent(m.atts[:1] + [alien], m.objs[a % n]),
                   KeyError),
                  (lambda: k.add_object([True] * (w + 1), 'wide'), ValueError),
                  (lambda: k.add_attribute([True] * (n + 1), 'tall'), ValueError)]
    if w:
        calls += [(lambda: k.set_attribute_extent(m.objs[:1] + [alien], m.atts[a % w]),
                   KeyError),
                  (lambda: k.add_object([True] * (w + 2), 'wide'), ValueError)]
    f, exc = calls[b % len(calls)]
    try:
        f()
    except exc:
        pass
    else:
        check(False, 'call {} of the refused ones was accepted', b % len(calls))


def repeat(m, a, b, c):
    """A repeated name makes every name unique, and every other name stays."""
    k = m.cxt
    which = c % 4
    strings = [x for x in m.objs + m.atts if isinstance(x, str)]
    if len(strings) < len(m.objs) + len(m.atts):
        return
    if which in (0, 1) and m.objs:
        name = m.objs[a % len(m.objs)]
        old = list(m.objs)
        if which == 0:
            row = bits_of(b, len(m.atts))
            k.add_object(row, name)
            m.rows.append(row)
            old.append(name)
        else:
            i = b % len(old)
            k.rename_object(old[i], name)
            old[i] = name
        new = list(k.objects)
    elif which in (2, 3) and m.atts:
        name = m.atts[a % len(m.atts)]
        old = list(m.atts)
        if which == 2:
            col = bits_of(b, len(m.objs))
            k.add_attribute(col, name)
            for r, v in zip(m.rows, col):
                r.append(v)
            old.append(name)
        else:
            j = b % len(old)
            k.rename_attribute(old[j], name)
            old[j] = name
        new = list(k.attributes)
    else:
        return
    check(len(new) == len(old), 'number of names: {!r}', new)
    check(len(set(new)) == len(new), 'repeated names: {!r}', new)
    if old.count(name) == 1:
        same(new, old, 'names')
    for x, y in zip(old, new):
        if not x.startswith(name):
            same(y, x, 'a name that was not repeated')
        else:
            check(y.startswith(name), 'name {!r} became {!r}', x, y)
    if which < 2:
        m.objs = new
    else:
        m.atts = new


def history(case):
    c = case['cxt']
    tab = table(c)
    given = ([list(r) for r in tab], list(c['objs']), list(c['atts']))
    raw = np.array(tab, dtype=bool).reshape(len(tab), c['m']) \
        if c['form'] == 'numpy' else given[0]
    names_as = tuple if c['form'] == 'tuple' else lambda x: x
    first = fca.Context(raw, names_as(given[1]), names_as(given[2]))
    if c['form'] == 'scale':
        first = fca.Scale(first)
    pool = [Model(first, tab, c['objs'], c['atts'])]
    its = []
    for step, (op, a, b, d) in enumerate(case['ops']):
        m = pool[d % len(pool)]
        d //= 7
        if op == 'fork':
            if len(pool) < 3 and a % 3 == 0:
                # a shallow copy is one of its own from the first new line on
                pool.append(Model(copy.copy(m.cxt), m.rows, m.objs, m.atts))
                apply(pool[-1], ('add_object', 'add_attribute')[b % 2], a, b // 2, d)
            elif len(pool) < 3:
                pool.append(Model(copy.deepcopy(m.cxt), m.rows, m.objs, m.atts))
                same(type(pool[-1].cxt), type(m.cxt), 'type of the copy')
        elif op == 'derive':
            if len(pool) < 3:
                k = m.cxt
                if a % 8 == 0:
                    x = k.transpose()
                    pool.append(Model(x, [[r[j] for r in m.rows]
                                          for j in range(len(m.atts))], m.atts, m.objs))
                elif a % 8 == 1:
                    js = [j for j, v in enumerate(bits_of(b, len(m.atts))) if v]
                    x = k.extract_subcontext([m.atts[j] for j in js])
                    pool.append(Model(x, [[r[j] for j in js] for r in m.rows], m.objs,
                                      [m.atts[j] for j in js]))
                elif a % 8 == 2:
                    x = k.extract_subcontext_filtered_by_attributes(m.atts[:1])
                    keep = [i for i, r in enumerate(m.rows) if all(r[:1])]
                    pool.append(Model(x, [m.rows[i] for i in keep],
                                      [m.objs[i] for i in keep], m.atts))
                elif a % 8 == 3 and all(isinstance(x, str) for x in m.atts):
                    x = k.complementary()
                    pool.append(Model(x, [[not v for v in r] for r in m.rows], m.objs,
                                      ['not ' + y for y in m.atts]))
                elif a % 8 == 4 and all(isinstance(x, str) for x in m.atts):
                    x = k.compound()
                    pool.append(Model(x, [r + [not v for v in r] for r in m.rows],
                                      m.objs, x.attributes))
                elif a % 8 == 5:
                    x = k * k.transpose()
                    pool.append(Model(x, [[any(p and q for p, q in zip(r, t))
                                           for t in m.rows] for r in m.rows],
                                      m.objs, m.objs))
                else:
                    x = [k.reduce_objects, k.clarify_objects, k.reduce_attributes][
                        b % 3]()
                    pool.append(Model(x, [[bool(v) for v in r] for r in x], x.objects,
                                      x.attributes))
        elif op == 'query':
            query(m, a)
        elif op == 'iterate':
            its.append(m.cxt.attribute_implications_iter())
            next(its[-1], None)
        elif op == 'abort':
            left = [a % 3]

            def cond(s):
                left[0] -= 1
                if left[0] < 0:
                    raise Abort()
                return True
            try:
                m.cxt.get_attribute_implications(cond=cond)
            except Abort:
                pass
        elif op == 'bad':
            bad(m, a, b, d)
        elif op == 'repeat':
            repeat(m, a, b, d)
        else:
            apply(m, op, a, b, d)
        for i, x in enumerate(pool):
            x.verify('context %d after step %d, %s' % (i, step, op))
    for m in pool:
        for sel in (0, 1, 2, 3, 7, 8 + 9 * len(m.objs) * 7919):
            query(m, sel)
    same(given[1:], (c['objs'], c['atts']), 'the lists of names given')
    same([[bool(v) for v in r] for r in raw], tab, 'the table given')


def changes_after_query(c):
    seen = False
    for op in c['ops']:
        if op[0] in ('query', 'abort', 'iterate', 'fork', 'derive'):
            seen = True
        elif seen and op[0] in CHANGES:
            return True
    return False


subcheck('C08', 'histories', st.fixed_dictionaries({
    'cxt': gen.context(max_n=5, max_m=5, forms=['bool', 'numpy', 'tuple', 'scale']),
    'ops': gen.ops(CHANGES + OTHERS, 16, min_size=3)}), quick=1800, shards=8,
    rule='a random context and up to 14 changes, queries, copies, derived contexts, '
         'aborted computations, refused calls and repeated names on up to three '
         'contexts; every view of all of them is compared with a model after every '
         'step; non-trivial: a change follows a query or a copy',
    nontrivial=changes_after_query,
    classify=lambda c: sorted({o[0] for o in c['ops']}))(history)

subcheck('C08', 'long histories', st.fixed_dictionaries({
    'cxt': gen.context(max_n=9, max_m=8, forms=['bool', 'numpy', 'tuple', 'scale'], tall=(40, 5),
                       wide=(5, 40)),
    'ops': gen.ops(CHANGES + OTHERS, 50, min_size=18)}), quick=130, shards=8,
    rule='the same with 18 to 50 steps, on contexts up to 9 x 8, 40 x 5 and 5 x 40',
    nontrivial=changes_after_query, classify=lambda c: shape_classes(c['cxt']))(history)

subcheck('C08', 'single changes', st.fixed_dictionaries({
    'cxt': gen.context(max_n=9, max_m=8, tall=(40, 4), wide=(4, 70)),
    'ops': gen.ops(CHANGES, 3, min_size=1)}), quick=2000, shards=4,
    rule='larger contexts (up to 40 x 4 and 4 x 70) and up to three changes; '
         'non-trivial: the context has a cross',
    nontrivial=lambda c: any(c['cxt']['rows']),
    classify=lambda c: shape_classes(c['cxt']))(
        lambda case: single(case))


subcheck('C08', 'repeated lines', st.fixed_dictionaries({
    'cxt': gen.blown(), 'ops': gen.ops(CHANGES, 3, min_size=1)}), quick=60, shards=4,
    rule='the same for contexts with 17 to 70 lines either way, few of them different',
    nontrivial=lambda c: any(c['cxt']['rows']))(lambda case: single(case))


subcheck('C08', 'thousands', st.fixed_dictionaries({
    'cxt': gen.huge(), 'ops': gen.ops(CHANGES, 3, min_size=1)}), quick=10, shards=2,
    rule='the same for contexts with 1 to 3 lines one way and 1001 to 2049 the other',
    nontrivial=lambda c: any(c['cxt']['rows']))(lambda case: single(case))


def single(case):
    c = case['cxt']
    m = Model(build(c), table(c), c['objs'], c['atts'])
    for step, (op, a, b, d) in enumerate(case['ops']):
        apply(m, op, a, b, d)
        m.verify('after step %d, %s' % (step, op))


CREATE = st.fixed_dictionaries({
    'objs': st.lists(st.sampled_from(['a', 'b', 'a_0', 'a_1', 'c', 'a_0_0', 'b_2']),
                     max_size=6),
    'atts': st.lists(st.sampled_from(['a', 'b', 'a_0', 'a_1', 'c', 'a_0_0', 'b_2']),
                     max_size=6),
    'bits': gen.big(36)})


@subcheck('C08', 'repeated names', CREATE, quick=4000, shards=1,
          rule='contexts created with repeated names, some of which look like the names '
               'given to repeated ones; non-trivial: a name is repeated',
          nontrivial=lambda c: len(set(c['objs'])) < len(c['objs']) or
          len(set(c['atts'])) < len(c['atts']))
def repeated(case):
    n, w = len(case['objs']), len(case['atts'])
    tab = [[bool(case['bits'] >> (i * 6 + j) & 1) for j in range(w)] for i in range(n)]
    objs, atts = list(case['objs']), list(case['atts'])
    k = fca.Context([list(r) for r in tab], objs, atts)
    same((objs, atts), (case['objs'], case['atts']), 'the lists given')
    for old, new in ((objs, list(k.objects)), (atts, list(k.attributes))):
        check(len(set(new)) == len(new) == len(old), 'names {!r} became {!r}', old, new)
        for x, y in zip(old, new):
            check(y.startswith(x), 'name {!r} became {!r}', x, y)
        if len(set(old)) == len(old):
            same(new, old, 'names without repeats')
    check_context(k, tab, k.objects, k.attributes, 'context with renamed lines')


@subcheck('C08', 'random contexts', st.fixed_dictionaries({
    'n': gen.ints(0, 40), 'm': gen.ints(0, 40),
    'density': st.sampled_from([0, 0.0, 1, 1.0, 0.02, 0.3, 0.5, 0.97])}), quick=600,
    shards=1, rule='random contexts of any size have the names g0, g1, ... and m0, m1, '
                   '..., no cross at density 0, all at density 1, and no share that is '
                   'all but impossible between; non-trivial: both sides have lines',
    nontrivial=lambda c: c['n'] and c['m'])
def random_contexts(c):
    n, m, d = c['n'], c['m'], c['density']
    k = fca.make_random_context(n, m, d)
    rows = [[bool(v) for v in r] for r in k]
    same((len(rows), {len(r) for r in rows}), (n, {m} if n else set()), 'size')
    check_context(k, rows, ['g%d' % i for i in range(n)], ['m%d' % j for j in range(m)],
                  'a random context')
    crosses = sum(map(sum, rows))
    # ten standard deviations: below 1e-20 by Chernoff, with room for small tables
    most = 10 * (n * m * d * (1 - d)) ** 0.5 + (20 if 0 < d < 1 else 0)
    check(abs(crosses - n * m * d) <= most, '{} crosses in {} x {} at density {}', crosses,
          n, m, d)

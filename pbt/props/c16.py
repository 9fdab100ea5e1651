"""C16 contexts with partially known examples, and their exploration."""
import copy

from hypothesis import strategies as st

import fca
from fca.partial_context import PartialContext
from fca.algorithms.dg_basis import compute_partial_dg_basis
from fca.algorithms.exploration_ import exploration as ex
from pbt import gen, ref
from pbt.core import check, same, raises, subcheck
from pbt.lib import mask, names, imp_masks, table
from pbt.theory import dg_exact, equivalent

ASSUMPTIONS = ['with partly known objects the implications a basis lists are only '
               'claimed to be plausible (and some to exist unless all that are '
               'plausible are confirmed): the closure of a partial context is not '
               'idempotent']


@st.composite
def partial(draw, max_n=5, max_m=5, kinds=gen.ALL_NAMES, min_n=0, min_m=0):
    """A context case (what is possible) plus "x": the certain part of each row."""
    c = draw(gen.context(max_n=max_n, max_m=max_m, kinds=kinds, forms=['bool'],
                         min_n=min_n, min_m=min_m))
    style = draw(st.sampled_from(['all', 'some', 'some', 'some', 'many', 'none']))
    x = []
    for r in c['rows']:
        if style == 'all':
            x.append(r)
        elif style == 'none':
            x.append(0)
        else:
            s = r & draw(gen.subset(c['m']))
            x.append(s if style == 'some' else s | r & draw(gen.subset(c['m'])))
    return dict(c, x=x)


def tables(c):
    return table(dict(c, rows=c['x'])), table(c)


def build(c):
    x, q = tables(c)
    return PartialContext(x, q, list(c['objs']), list(c['atts']))


def verify(p, x, q, objs, atts, what):
    """x, q: row masks."""
    same(list(p.objects), list(objs), what + ': objects')
    same(list(p.attributes), list(atts), what + ': attributes')
    pairs = [(set(a), set(b)) for a, b in p.intents()]
    same(pairs, [(names(a, atts), names(b, atts)) for a, b in zip(x, q)],
         what + ': intents')
    for a, b in pairs:
        check(a <= b, '{}: certain but not possible', what)
    for part, rows in ((p.x_context, x), (p.q_context, q)):
        same([list(map(bool, r)) for r in part],
             [[bool(r >> j & 1) for j in range(len(atts))] for r in rows],
             what + ': table')
        same(list(part.objects), list(objs), what + ': objects')


def xqclosure(s, x, q, full):
    for a, b in zip(x, q):
        if a & s == s:
            full &= b
    return full


def uncertain(c):
    return any(a != b for a, b in zip(c['x'], c['rows']))


def small(m):
    return st.lists(st.tuples(gen.ints(0, 255), gen.ints(0, 255)).map(list), max_size=m)


@subcheck('C16', 'values', st.fixed_dictionaries({
    'p': partial(), 'bad': gen.ints(0, 10 ** 6), 'sets': small(4)}), quick=2500, shards=2,
    rule='a random partial context: construction, what must be refused, views, '
         'transposition, copies, closures and additions; non-trivial: something is '
         'uncertain', nontrivial=lambda c: uncertain(c['p']))
def values(case):
    c = case['p']
    x, q, objs, atts, m = c['x'], c['rows'], c['objs'], c['atts'], c['m']
    p = build(c)
    verify(p, x, q, objs, atts, 'partial context')
    # what is certain must be possible
    n = len(objs)
    if n and m:
        i, j = case['bad'] % n, case['bad'] // 7 % m
        xt, qt = tables(c)
        xt[i][j], qt[i][j] = True, False
        raises(ValueError, PartialContext, xt, qt, list(objs), list(atts))
        xt, qt = tables(c)
        raises(ValueError, PartialContext, xt[1:], qt, list(objs), list(atts))
        raises(ValueError, PartialContext, [r[1:] for r in xt], qt, list(objs),
               list(atts))
    same(repr(p), '\n'.join([', '.join(map(str, atts)), ', '.join(map(str, objs)), ''] + [
        ''.join('X' if a >> j & 1 else '?' if b >> j & 1 else '.' for j in range(m))
        for a, b in zip(x, q)]), 'printed')
    # transposition
    t = p.transpose()
    col = lambda rows: [sum((r >> j & 1) << i for i, r in enumerate(rows))
                        for j in range(m)]
    verify(t, col(x), col(q), atts, objs, 'transposed')
    tt = t.transpose()
    verify(tt, x, q, objs, atts, 'transposed twice')
    # closure
    for s, _ in case['sets'] + [[0, 0]]:
        s &= (1 << m) - 1
        same(mask(p.xq_aclosure(names(s, atts)), atts),
             xqclosure(s, x, q, (1 << m) - 1), 'closure of %s' % bin(s))
    # additions, to the copy only
    d = copy.deepcopy(p)
    dx, dq, dobjs = list(x), list(q), list(objs)
    for k, (a, b) in enumerate(case['sets']):
        a, b = a & (1 << m) - 1, b & (1 << m) - 1
        name = 1000 + k if objs and isinstance(objs[0], (int, float)) else 'new%d' % k
        pair = names(a, atts), names(b, atts)
        if a & b == a:
            d.add_object_with_intent(pair, name)
            dx.append(a), dq.append(b), dobjs.append(name)
        else:
            raises(ValueError, d.add_object_with_intent, pair, name)
        verify(d, dx, dq, dobjs, atts, 'after an addition')
    verify(p, x, q, objs, atts, 'original after changes of its copy')


REPEATED = ['a', 'b', 'a_0', 'a_1', 'c', 'a_0_0', 'b_2']


def renamed(old, new, what):
    check(len(set(new)) == len(new) == len(old), '{}: {!r} became {!r}', what, old, new)
    for s, t in zip(old, new):
        check(t.startswith(s), '{}: {!r} became {!r}', what, s, t)
    if len(set(old)) == len(old):
        same(list(new), list(old), what + ': names without repeats')


@subcheck('C16', 'repeated names', st.fixed_dictionaries({
    'objs': st.lists(st.sampled_from(REPEATED), max_size=5),
    'atts': st.lists(st.sampled_from(REPEATED), max_size=5),
    'x': gen.big(25), 'q': gen.big(25), 'form': st.sampled_from([list, tuple]).map(
        lambda t: t.__name__), 'adds': st.lists(st.tuples(
            gen.ints(0, 31), gen.ints(0, 31), st.sampled_from(REPEATED)).map(list),
            max_size=4)}), quick=1500, shards=1,
    rule='partial contexts with repeated names, and additions under names in use: all '
         'views have the same new names; non-trivial: a name is repeated',
    nontrivial=lambda c: len(set(c['objs'])) < len(c['objs']) or
    len(set(c['atts'])) < len(c['atts']) or
    bool({a[2] for a in c['adds']} & set(c['objs'])))
def repeated(case):
    form = {'list': list, 'tuple': tuple}[case['form']]
    objs, atts = form(case['objs']), form(case['atts'])
    n, m = len(objs), len(atts)
    full = (1 << m) - 1
    q = [case['q'] >> 5 * i & full for i in range(n)]
    x = [r & case['x'] >> 5 * i for i, r in enumerate(q)]
    p = PartialContext(table({'rows': x, 'm': m}), table({'rows': q, 'm': m}), objs, atts)
    same((list(objs), list(atts)), (case['objs'], case['atts']), 'the names given')
    renamed(objs, p.objects, 'objects')
    renamed(atts, p.attributes, 'attributes')
    atts = list(p.attributes)
    verify(p, x, q, p.objects, atts, 'partial context')
    verify(p.transpose().transpose(), x, q, p.objects, atts, 'transposed twice')
    for a, b, name in case['adds']:
        old = list(p.objects) + [name]
        a, b = a & full, b & full
        p.add_object_with_intent((names(a & b, atts), names(b, atts)), name)
        x.append(a & b), q.append(b)
        renamed(old, p.objects, 'after an addition')
        for s, t in zip(old, p.objects):
            check(s == t or s == name or t.startswith(name),
                  'name {!r} became {!r}, added {!r}', s, t, name)
        verify(p, x, q, p.objects, atts, 'after an addition')
    s = case['x'] & full
    same(mask(p.xq_aclosure(names(s, atts)), atts), xqclosure(s, x, q, full), 'closure')
    d = copy.deepcopy(p)
    verify(d, x, q, p.objects, atts, 'copy')


# premises with one bit in four, conclusions with one in two
IMPS = st.lists(st.tuples(st.tuples(gen.ints(0, 255), gen.ints(0, 255)).map(
    lambda x: x[0] & x[1]), gen.ints(0, 255)).map(list), max_size=4)
MANY_IMPS = st.lists(st.tuples(st.tuples(gen.ints(0, 255), gen.ints(0, 255)).map(
    lambda x: x[0] & x[1]), st.tuples(gen.ints(0, 255), gen.ints(0, 255)).map(
        lambda x: x[0] & x[1])).map(list), min_size=2, max_size=9)
WIDE = partial(max_n=10, max_m=8, min_m=4)


def completed(a, b, imps):
    """Union and intersection of the closed sets between a and b, by definition."""
    free = list(ref.bits(b & ~a))
    lo, hi, found = b, a, False
    for k in range(1 << len(free)):
        s = a
        for t, j in enumerate(free):
            if k >> t & 1:
                s |= 1 << j
        if all(s & p != p or s & r == r for p, r in imps):
            lo, hi, found = lo & s, hi | s, True
    return (lo, hi) if found else None


def completed_fast(a, b, imps):
    """The same, for many attributes."""
    lo = ref.closure(a, imps)
    if lo & ~b:
        return None
    return lo, sum(1 << j for j in ref.bits(b)
                   if not ref.closure(lo | 1 << j, imps) & ~b)


@st.composite
def large_completion_case(draw):
    p = draw(partial(max_n=12, max_m=60, min_n=3, min_m=17,
                     kinds=['numbered', 'shuffled', 'ints']))
    m = p['m']

    def few():
        s = 0
        for _ in range(draw(gen.ints(0, 3))):
            s |= 1 << draw(gen.ints(0, m - 1))
        return s
    imps = []
    for _ in range(draw(gen.ints(1, 20))):
        a, b = few(), few()
        if imps and draw(st.booleans()):        # chains
            a = imps[-1][1]
        imps.append([a, b])
    if draw(st.booleans()):
        imps.reverse()
    return {'p': p, 'imps': imps, 'hold': draw(st.sampled_from([True, True, False])),
            'sparse': draw(st.booleans())}


@subcheck('C16', 'large completion', large_completion_case(), quick=100, shards=3,
          rule='up to 20 implications, chains of them included, and partial contexts up to '
               '12 x 60; every completed row is compared with what follows; non-trivial: '
               'something is uncertain', nontrivial=lambda c: uncertain(c['p']))
def large_completion(case):
    c = case['p']
    x, q, objs, atts = c['x'], c['rows'], c['objs'], c['atts']
    if case['sparse']:
        x = [a & ((a >> 1) | (a << 1)) & ~(a >> 2) for a in x]
    imps = [(p, p | r) for p, r in case['imps']]
    for a, b in zip(x, q):
        if bin(b & ~a).count('1') <= 8:
            same(completed_fast(a, b, imps), completed(a, b, imps), 'the oracle')
    if case['hold']:
        q = [ref.closure(b, imps) for b in q]
    p = build(dict(c, x=x, rows=q))
    real = [fca.Implication(names(a, atts), names(b, atts)) for a, b in imps]
    want = [completed_fast(a, b, imps) for a, b in zip(x, q)]
    if None in want:
        raises(ValueError, p.complete, real)
        verify(p, x, q, objs, atts, 'after a refused completion')
        return
    p.complete(real)
    verify(p, [w[0] for w in want], [w[1] for w in want], objs, atts, 'completed')


@st.composite
def chain_case(draw):
    """A long chain of implications, whole stretches of which are uncertain."""
    m = draw(st.sampled_from([1001, 1100, 1500]))
    n = draw(gen.ints(1, 3))
    step = draw(st.sampled_from([1, 1, 2]))
    x, q = [], []
    for _ in range(n):
        # uncertain from a to b; certain is b, or nothing
        a = draw(st.one_of(gen.ints(0, 5), gen.ints(0, m - 1)))
        b = min(m - 1, a + draw(gen.ints(0, 9)))
        if draw(st.booleans()):
            x.append(1 << b)
            q.append((1 << m) - (1 << a))
        else:
            x.append(0)
            q.append((1 << b + 1) - (1 << a))
    return {'m': m, 'step': step, 'x': x, 'q': q}


@subcheck('C16', 'thousands', chain_case(), quick=8, shards=4,
          rule='partial contexts with 1001 to 1500 attributes completed by a chain of '
               'implications as long; closures, copies and transposition; non-trivial: '
               'something is certain', nontrivial=lambda c: any(c['x']))
def thousands(case):
    m, step, x, q = case['m'], case['step'], case['x'], case['q']
    atts = ['a%d' % j for j in range(m)]
    objs = ['g%d' % i for i in range(len(x))]
    c = {'rows': q, 'm': m, 'x': x, 'objs': objs, 'atts': atts}
    p = build(c)
    verify(p, x, q, objs, atts, 'partial context')
    t = p.transpose()
    col = lambda rows: [sum((r >> j & 1) << i for i, r in enumerate(rows))
                        for j in range(m)]
    verify(t, col(x), col(q), atts, objs, 'transposed')
    for s in [0, 1 << m - 1] + x:
        same(mask(p.xq_aclosure(names(s, atts)), atts),
             xqclosure(s, x, q, (1 << m) - 1), 'closure')
    imps = [(1 << j, 1 << j | 1 << j + step) for j in range(m - step)]
    real = [fca.Implication(names(a, atts), names(b, atts)) for a, b in imps]
    # what is certain drags all later ones along; what is possible needs all later ones
    want = []
    for a, b in zip(x, q):
        for r in range(step):
            on = False
            for j in range(r, m, step):
                on = on or bool(a >> j & 1)
                a |= on << j
            ok = True
            for j in reversed(range(r, m, step)):
                ok = ok and bool(b >> j & 1)
                b &= ~((not ok) << j)
        want.append((a, b) if a & ~b == 0 else None)
    if None in want:
        raises(ValueError, p.complete, real)
        verify(p, x, q, objs, atts, 'after a refused completion')
        return
    p.complete(real)
    verify(p, [w[0] for w in want], [w[1] for w in want], objs, atts, 'completed')


def small_imps(raw, m, style=None):
    full = (1 << m) - 1
    return [(p & full, (p | r) & full) for p, r in raw]


@subcheck('C16', 'completion', st.fixed_dictionaries({
    'p': partial(), 'imps': IMPS, 'hold': st.booleans(), 'keep': gen.ints(0, 31)}),
    quick=3000, shards=2,
    rule='a random partial context and up to four implications; every completed row is '
         'compared with the union and the intersection of all its closed completions; '
         'non-trivial: the implications change something or are refused',
    nontrivial=lambda c: uncertain(c['p']) and any(
        completed(a, b, small_imps(c['imps'], c['p']['m'])) != (a, b)
        for a, b in zip(c['p']['x'], c['p']['rows'])))
def completion(case):
    c = case['p']
    x, q, objs, atts, m = c['x'], c['rows'], c['objs'], c['atts'], c['m']
    imps = small_imps(case['imps'], m)
    if case['hold']:
        # every possible row is closed: nothing to refuse
        q = [ref.closure(b, imps) for b in q]
        c = dict(c, rows=q)
    p = build(c)
    real = [fca.Implication(names(a, atts), names(b, atts)) for a, b in imps]
    want = [completed(a, b, imps) for a, b in zip(x, q)]
    if None in want:
        raises(ValueError, p.complete, real)
        verify(p, x, q, objs, atts, 'after a refused completion')
        return
    p.complete(real)
    nx, nq = [w[0] for w in want], [w[1] for w in want]
    verify(p, nx, nq, objs, atts, 'completed')
    p.complete(real)
    verify(p, nx, nq, objs, atts, 'completed twice')


@subcheck('C16', 'wide completion', st.fixed_dictionaries({
    'p': WIDE, 'imps': MANY_IMPS, 'hold': st.booleans()}), quick=400, shards=4,
    rule='the same with up to nine implications on contexts up to 10 x 8',
    nontrivial=lambda c: uncertain(c['p']))
def wide_completion(case):
    completion(case)


@subcheck('C16', 'history', st.fixed_dictionaries({
    'p': partial(max_n=6, max_m=6), 'ops': st.lists(st.tuples(
        st.sampled_from(['add', 'add', 'add bad', 'complete', 'copy', 'transpose',
                         'closure', 'basis', 'print']), gen.ints(0, 255),
        gen.ints(0, 255), IMPS).map(list), min_size=4, max_size=25)}),
    quick=300, shards=4,
    rule='up to 25 additions, completions and queries on a partial context and on its '
         'copies, each compared with a model; non-trivial: something is uncertain',
    nontrivial=lambda c: uncertain(c['p']))
def history(case):
    c = case['p']
    atts, m = c['atts'], c['m']
    full = (1 << m) - 1
    pool = [[build(c), list(c['x']), list(c['rows']), list(c['objs'])]]
    for k, (op, a, b, raw) in enumerate(case['ops']):
        w = pool[(a ^ b) % len(pool)]
        p, x, q, objs = w
        name = 1000 + k if objs and isinstance(objs[0], (int, float)) else 'new%d' % k
        imps = small_imps(raw, m)
        real = [fca.Implication(names(s, atts), names(t, atts)) for s, t in imps]
        a, b = a & full, b & full
        if op == 'add':
            p.add_object_with_intent((names(a & b, atts), names(b, atts)), name)
            x.append(a & b), q.append(b), objs.append(name)
        elif op == 'add bad' and a & b != a:
            raises(ValueError, p.add_object_with_intent,
                   (names(a, atts), names(b, atts)), name)
        elif op == 'complete':
            want = [completed(s, t, imps) for s, t in zip(x, q)]
            if None in want:
                raises(ValueError, p.complete, real)
            else:
                p.complete(real)
                w[1], w[2] = [t[0] for t in want], [t[1] for t in want]
        elif op == 'copy' and len(pool) < 3:
            pool.append([copy.deepcopy(p), list(x), list(q), list(objs)])
        elif op == 'transpose' and len(pool) < 3:
            pool.append([p.transpose().transpose(), list(x), list(q), list(objs)])
        elif op == 'closure':
            got = p.xq_aclosure(names(a, atts))
            same(mask(got, atts), xqclosure(a, x, q, full), 'closure')
            got.clear()
        elif op == 'basis':
            same(not p.get_attribute_implications(), all(
                xqclosure(s, x, q, full) == s for s in range(full + 1)), 'empty basis')
        elif op == 'print':
            same(repr(p), ', '.join(map(str, atts)) + '\n' + ', '.join(map(str, objs)) +
                 '\n' + ''.join('\n' + ''.join(
                     'X' if s >> j & 1 else '?' if t >> j & 1 else '.' for j in range(m))
                     for s, t in zip(x, q)), 'printed')
        for w in pool:
            verify(*w[:1], w[1], w[2], w[3], atts, 'after step %d, %s' % (k, op))


@subcheck('C16', 'basis', st.fixed_dictionaries({
    'p': partial(), 'bg': IMPS, 'cond': st.sampled_from([None, None, None, 1, 2])}),
    quick=2500, shards=2,
    rule='a random partial context and background implications; the listed implications '
         'are plausible and within the condition, none are listed iff all plausible ones '
         'follow from the background, and with nothing uncertain they are the '
         'Duquenne-Guigues basis; non-trivial: something is uncertain, or nothing is and '
         'the basis is not empty',
    nontrivial=lambda c: len(c['p']['rows']) > 0 and c['p']['m'] > 1,
    classify=lambda c: ['uncertain' if uncertain(c['p']) else 'certain'])
def basis(case):
    c = case['p']
    x, q, atts, m = c['x'], c['rows'], c['atts'], c['m']
    full = (1 << m) - 1
    bg = [(a, b) for a, b in small_imps(case['bg'], m)
          if xqclosure(a, x, q, full) & b == b]
    # (closed conclusions are not needed: the background is only used to close)
    p = build(c)
    real = [fca.Implication(names(a, atts), names(b, atts)) for a, b in bg]
    cond = case['cond']
    args = {} if cond is None else {'cond': lambda s: len(s) <= cond}
    got = imp_masks(p.get_attribute_implications(confirmed=real, **args), atts)
    same(imp_masks(compute_partial_dg_basis(p, imp_basis=real, **args), atts), got,
         'basis computed twice')
    for a, b in got:
        same(b, xqclosure(a, x, q, full), 'conclusion of %s' % bin(a))
        check(a != b, 'trivial implication {}', bin(a))
        same(ref.closure(a, bg), a, 'closure of premise %s under the background' % bin(a))
        check(cond is None or bin(a).count('1') <= cond, 'premise {}', bin(a))
    if cond is None:
        same(not got, all(xqclosure(s, x, q, full) == s or ref.closure(s, bg) != s
                          for s in range(full + 1)), 'nothing is open')
        if not uncertain(c):
            sound = ref.Ref([[bool(r >> j & 1) for j in range(m)] for r in q], m)
            dg_exact(got, sound, bg, 'basis')
    verify(p, x, q, c['objs'], atts, 'after the basis')


@subcheck('C16', 'wide basis', st.fixed_dictionaries({
    'p': WIDE, 'bg': IMPS, 'cond': st.sampled_from([None, None, None, 1, 2])}),
    quick=200, shards=4,
    rule='the same for contexts up to 10 x 8', nontrivial=lambda c: True,
    classify=lambda c: ['uncertain' if uncertain(c['p']) else 'certain'])
def wide_basis(case):
    basis(case)


class Expert:
    """Knows a target context, tells only a part of each counterexample."""

    def __init__(self, rows, m, atts, blur, many):
        self.rows, self.m, self.atts, self.blur, self.many = rows, m, atts, blur, many
        self.n = 0
        self.given = []

    def holds(self, p, q):
        return all(r & p != p or r & q == q for r in self.rows)

    def provide_counterexample(self, imp):
        p = mask(imp.premise, self.atts)
        q = p | mask(imp.conclusion, self.atts)
        bad = [r for r in self.rows if r & p == p and r & q != q]
        bad = bad if self.many else bad[:1]
        out = [], []
        for r in bad:
            x = self.blur[self.n % len(self.blur)]
            self.n += 1
            j = next(j for j in range(self.m) if (q & ~r) >> j & 1)
            certain = p | r & x
            possible = r | (x >> 10 & ~(1 << j) & (1 << self.m) - 1)
            out[0].append('e%d' % self.n)
            out[1].append((names(certain, self.atts), names(possible, self.atts)))
            self.given.append((certain, possible, r))
        return out


@subcheck('C16', 'session', st.fixed_dictionaries({
    'cxt': gen.context(max_n=6, max_m=5, forms=['bool'], kinds=gen.STR_NAMES,
                       wide=(8, 6)),
    'start': gen.ints(0, 9), 'blur': st.lists(gen.big(20), min_size=1, max_size=8),
    'picks': st.lists(gen.ints(0, 999), min_size=1, max_size=6), 'many': st.booleans()}),
    quick=900, shards=3,
    rule='an exploration with partly known examples and an expert who knows a random '
         'target context: every known row always lies between what is certain and what '
         'is possible, and in the end the confirmed implications have exactly the '
         'target intents as closed sets; non-trivial: something has to be rejected and '
         'something confirmed',
    nontrivial=lambda c: len(set(c['cxt']['rows'])) > 2 and c['cxt']['m'] > 1 and
    c['start'] < len(c['cxt']['rows']))
def session(case):
    c = case['cxt']
    atts, m, target = c['atts'], c['m'], c['rows']
    full = (1 << m) - 1
    n = min(case['start'], len(target))
    blur = case['blur']
    truth = list(target[:n])
    x0 = [r & blur[i % len(blur)] for i, r in enumerate(truth)]
    q0 = [r | blur[i % len(blur)] >> 10 & full for i, r in enumerate(truth)]
    p = build(dict(c, rows=q0, x=x0, objs=['g%d' % i for i in range(n)]))
    db = ex.ExplorationDB(p, [])
    expert = Expert(target, m, atts, blur, case['many'])
    e = ex.AttributeExploration(db, expert)
    picks = case['picks']
    for turn in range(2 ** (m + 2) * (len(target) + 2)):
        o = e.get_open_implications()
        x, q = ([mask(i[k], atts) for i in p.intents()] for k in (0, 1))
        rows = truth + [g[2] for g in expert.given]
        same(len(x), len(rows), 'number of examples')
        for a, b, r in zip(x, q, rows):
            check(a & r == a and r & b == r, 'what is known of {} went wrong: {} {}',
                  bin(r), bin(a), bin(b))
        base = imp_masks(db.base, atts)
        same([completed(a, b, base) for a, b in zip(x, q)], list(zip(x, q))
             if turn else [completed(a, b, base) for a, b in zip(x, q)], 'completed rows')
        for i in o:
            s = mask(i.premise, atts)
            same(s | mask(i.conclusion, atts), xqclosure(s, x, q, full),
                 'conclusion of the open implication with premise %s' % bin(s))
        if not o:
            break
        imp = o[picks[turn % len(picks)] % len(o)]
        s = mask(imp.premise, atts)
        if expert.holds(s, s | mask(imp.conclusion, atts)):
            e.confirm_implication(imp)
        else:
            e.reject_implication(imp)
    else:
        check(False, 'the exploration does not end')
    equivalent(imp_masks(db.base, atts), ref.Ref(table(c), m), 'explored base')

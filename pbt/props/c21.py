"""C21 patterns of positive examples, and their exploration."""
from hypothesis import strategies as st

import fca
from fca.algorithms import patterns as pt
from pbt import gen, ref
from pbt.core import check, same, raises, subcheck
from pbt.lib import build, check_context, mask, names, table

ASSUMPTIONS = ['the positive and the negative context have the same attributes, in any '
               'order', 'generators of patterns for the ranking yield pairs of an '
               'attribute set and a number',
               'an object with all attributes occurs nowhere for the purposes of '
               'patterns']


def default_ranking():
    """The ranking fails on the patterns the default generator yields."""
    pos = fca.Context([[True, False], [False, True]], ['1', '2'], ['a', 'b'])
    neg = fca.Context([[False, True]], ['3'], ['a', 'b'])
    e = pt.BasicPatternExploration(pos, neg)
    try:
        e.get_unconfirmed_patterns_with_examples()
    except TypeError:
        return True
    return False


KNOWN = {'default ranking': default_ranking}


@st.composite
def many_lines(draw):
    """A positive context with many lines either way and a few negative examples."""
    c = draw(gen.blown())
    full = (1 << c['m']) - 1
    neg = []
    for _ in range(draw(gen.ints(0, 4))):
        r = draw(st.sampled_from(c['rows'] + [full, draw(gen.big(c['m']))]))
        neg.append(r & ~(1 << draw(gen.ints(0, c['m'] - 1))))
    ints = c['objs'] and isinstance(c['objs'][0], int)
    return dict(c, form='bool', neg=neg, order=draw(gen.ints(0, 1000)),
                nobjs=[1000 + i if ints else 'neg%d' % i for i in range(len(neg))])


@st.composite
def two(draw, max_n=6, max_m=5, max_neg=4, min_n=0, min_m=0):
    c = draw(gen.context(max_n=max_n, max_m=max_m, forms=['bool', 'numpy'], tall=(12, 5),
                         wide=(5, 9), min_n=min_n, min_m=min_m) if not min_n else
             gen.context(max_n=max_n, max_m=max_m, forms=['bool', 'numpy'], min_n=min_n,
                         min_m=min_m))
    k = draw(gen.ints(0, max_neg))
    neg = draw(gen.rows(k, c['m']))
    style = draw(gen.ints(0, 2))
    if c['rows']:
        for i in range(len(neg)):
            if style == 1:                      # near a positive example
                neg[i] = c['rows'][neg[i] % len(c['rows'])] & neg[i]
            elif style == 2:
                neg[i] &= draw(gen.subset(c['m']))
    nobjs = ([100 + i for i in range(k)] if c['objs'] and isinstance(c['objs'][0], (int, float))
             else ['neg%d' % i for i in range(k)])
    return dict(c, neg=neg, nobjs=nobjs, order=draw(st.one_of(
        st.just(0), gen.ints(1, 1000))))


def order(c):
    """The order of the attributes in the negative context."""
    return sorted(range(c['m']), key=lambda j: (j + 1) * c['order'] % 1009)


def natts(c):
    return [c['atts'][j] for j in order(c)]


def ntable(c, rows):
    return [[bool(r >> j & 1) for j in order(c)] for r in rows]


def make(c):
    neg = [sum((r >> j & 1) << i for i, j in enumerate(order(c))) for r in c['neg']]
    return build(c), build({'rows': neg, 'm': c['m'], 'objs': c['nobjs'],
                            'atts': natts(c), 'form': c['form']})


def occurs(s, rows, full):
    return any(r & s == s and r != full for r in rows)


def interesting(c):
    return len(set(c['rows'])) > 1 and c['m'] > 1 and len(c['neg']) > 0


@subcheck('C21', 'generator', two(), quick=4000, shards=3,
          rule='random positive and negative contexts; the patterns found, against the '
               'concepts of the reduced positive context whose attributes occur together '
               'in no negative example; non-trivial: two distinct positive examples and '
               'a negative one', nontrivial=interesting)
def generator(c):
    pos, neg = make(c)
    atts, full = c['atts'], (1 << c['m']) - 1
    got = [x for x in pt.iterate_positive_concepts(pos, neg)]
    ints = [mask(x.intent, atts) for x in got]
    check(len(set(ints)) == len(ints), 'a pattern twice')
    for x, i in zip(got, ints):
        check(not occurs(i, c['neg'], full), '{!r} occurs in a negative example', x)
    # reduced attributes and objects are decided by another property
    red = pos.reduce_attributes()
    keep = [a for a in red.attributes]
    some = mask(keep, atts)
    closed = {r & some for r in ref.Ref(table(c), c['m']).intents()}
    same(sorted(ints), sorted(i for i in closed if not occurs(i, c['neg'], full)),
         'patterns')
    for x, i in zip(got, ints):
        have = {o for o, r in zip(c['objs'], c['rows']) if r & i == i}
        check(set(x.extent) <= have, 'extent of {!r}', x)
    # every positive example that is separable at all is covered by a pattern
    for r in c['rows']:
        if not occurs(r & some, c['neg'], full):
            check(any(r & i == i for i in ints), 'no pattern covers {}', bin(r))
    check_context(pos, table(c), c['objs'], atts, 'positive context afterwards')
    check_context(neg, ntable(c, c['neg']), c['nobjs'], natts(c),
                  'negative context afterwards')


OPS = ['confirm', 'confirm', 'confirm', 'confirm any', 'negative', 'negative',
       'negative with pattern', 'negative without pattern', 'positive', 'spoil']


def pick(m, sel):
    return (sel * 2654435761 + 99991) >> 7 & (1 << m) - 1


@subcheck('C21', 'exploration', st.fixed_dictionaries({
    'cxts': two(max_n=5, max_m=5, max_neg=3), 'ops': gen.ops(OPS, 10, nargs=2),
    'gen': st.lists(gen.ints(0, 511), max_size=6)}), quick=4000, shards=4,
    rule='a pattern exploration of random contexts: up to ten confirmations, examples and '
         'calls that must be refused, every query compared with a model after each step; '
         'non-trivial: two distinct positive examples, a negative one and two steps',
    nontrivial=lambda c: interesting(c['cxts']) and len(c['ops']) > 1,
    classify=lambda c: sorted({o[0] for o in c['ops']}))
def exploration(case):
    c = case['cxts']
    atts, m = c['atts'], c['m']
    full = (1 << m) - 1
    pos, neg = make(c)
    made = [g & full for g in case['gen']]
    calls = []

    def yield_patterns(p, n):
        check_context(p, table(dict(c, rows=prows)), pobjs, atts, 'given to the generator')
        check_context(n, ntable(c, nrows), nobjs, natts(c), 'given to the generator')
        return [(names(g, atts), 1) for g in made]

    def expert(pattern):
        calls.append(set(pattern))
        return [('new', {'x'}), ('newer', set(pattern))]
    e = pt.BasicPatternExploration(pos, neg, expert, yield_patterns)
    prows, nrows, pobjs, nobjs = (list(c['rows']), list(c['neg']), list(c['objs']),
                                  list(c['nobjs']))
    confirmed = []

    def explained(r):
        return any(p & r == p for p in confirmed)

    def verify(what):
        check_context(e.positive_cxt, table(dict(c, rows=prows)), pobjs, atts,
                      what + ': positive')
        check_context(e.negative_cxt, ntable(c, nrows), nobjs, natts(c),
                      what + ': negative')
        same([mask(p, atts) for p in e.confirmed_patterns], confirmed,
             what + ': confirmed')
        same([(o, set(i)) for o, i in e.iterate_unexplained_examples()],
             [(o, names(r, atts)) for o, r in zip(pobjs, prows) if not explained(r)],
             what + ': unexplained')
        for g in made + confirmed[:2] + prows[:2]:
            same(bool(e.is_explained(names(g, atts))), explained(g), what + ': explained')
            same(sorted(((o, sorted(map(str, i))) for o, i in
                         e.iterate_examples(names(g, atts))), key=str),
                 sorted(((o, sorted(map(str, names(r, atts))))
                         for o, r in zip(pobjs, prows) if r & g == g), key=str),
                 what + ': examples')
        rank = e.get_unconfirmed_patterns_with_examples()
        rank = [(mask(p, atts), n) for p, n in rank]
        want = [(g, sum(r & g == g and not explained(r) for r in prows))
                for g in made if not explained(g)]
        same(sorted(rank), sorted(want), what + ': ranking')
        same([n for _, n in rank], sorted([n for _, n in rank], reverse=True),
             what + ': order of the ranking')
    verify('at first')
    n = 0
    for step, (op, a, b) in enumerate(case['ops']):
        what = 'step %d, %s' % (step, op)
        name = 1000 + step if isinstance((pobjs + nobjs + [''])[0], (int, float)) else 'x%d' % step
        if op == 'confirm' or op == 'confirm any':
            p = pick(m, a)
            if op == 'confirm' and prows:
                p &= prows[b % len(prows)]
                if b % 3 == 0:
                    p = prows[b % len(prows)]
            if not occurs(p, prows, full):
                x = raises(pt.NotAPositivePattern, e.confirm_pattern, names(p, atts))
                same(set(x.atts), names(p, atts), 'pattern of the error')
                check(str(x.atts) in str(x), 'error {!r} of {!r}', str(x), x.atts)
            elif occurs(p, nrows, full):
                x = raises(pt.NotANegativePattern, e.confirm_pattern, names(p, atts))
                same(set(x.atts), names(p, atts), 'pattern of the error')
                check(str(x.atts) in str(x), 'error {!r} of {!r}', str(x), x.atts)
            else:
                told = names(p, atts)
                check(e.confirm_pattern(told) is e, 'result')
                confirmed.append(p)
                told.symmetric_difference_update(atts[:1])  # it was the caller's
        elif op == 'negative':
            s = pick(m, a)
            check(e.add_negative_example(name, names(s, atts)) is e, 'result')
            nrows.append(s)
            nobjs.append(name)
        elif op == 'negative with pattern':
            p = pick(m, a)
            s = p | pick(m, b)
            e.add_negative_example(name, names(s, atts), names(p, atts))
            nrows.append(s)
            nobjs.append(name)
        elif op == 'negative without pattern':
            p, s = pick(m, a), pick(m, b)
            if p & s != p:
                x = raises(pt.NotNegativeExample, e.add_negative_example, name,
                           names(s, atts), names(p, atts))
                same((set(x.intent), set(x.pattern)), (names(s, atts), names(p, atts)),
                     'example and pattern of the error')
                check(str(x.intent) in str(x) and str(x.pattern) in str(x),
                      'error {!r} of {!r}, {!r}', str(x), x.intent, x.pattern)
        elif op == 'positive':
            s = pick(m, a)
            check(e.add_positive_example(name, names(s, atts)) is e, 'result')
            prows.append(s)
            pobjs.append(name)
        elif op == 'spoil':
            s = names(pick(m, a), atts)
            del calls[:]
            same(list(e.iterate_new_objects(s)), [('new', {'x'}), ('newer', s)],
                 'examples of the expert')
            same(calls, [s], 'calls of the expert')
            for o, i in e.iterate_unexplained_examples():
                i.add('spoiled')
            for o, i in e.iterate_examples(s):
                i.clear()
        verify(what)
    check_context(pos, table(c), c['objs'], atts, 'initial positive context')
    check_context(neg, ntable(c, c['neg']), c['nobjs'], natts(c),
                  'initial negative context')


subcheck('C21', 'long exploration', st.fixed_dictionaries({
    'cxts': two(max_n=22, max_m=12, max_neg=2, min_n=9, min_m=7),
    'ops': gen.ops(['confirm', 'confirm', 'confirm', 'confirm', 'negative', 'positive'], 40,
                   min_size=14, nargs=2),
    'gen': st.lists(gen.ints(0, 4095), max_size=4)}), quick=150, shards=4,
    rule='9 to 22 positive examples over 7 to 12 attributes and 14 to 40 steps, mostly '
         'confirmations of the whole row of an example; non-trivial as above',
    nontrivial=lambda c: interesting(c['cxts']),
    classify=lambda c: ['%d steps' % (len(c['ops']) // 10 * 10)])(exploration)


@subcheck('C21', 'repeated lines', many_lines(), quick=60, shards=3,
          rule='patterns of positive contexts with 17 to 70 lines either way, few of them '
               'different', nontrivial=interesting)
def repeated_lines(c):
    generator(c)


@st.composite
def huge_two(draw):
    c = draw(gen.huge())
    names_ = draw(gen.ints(0, 2))
    neg = []
    for _ in range(names_):
        r = draw(st.sampled_from(c['rows'] + [0]))
        if draw(st.booleans()) and c['m']:
            r ^= 1 << draw(gen.ints(0, c['m'] - 1))
        neg.append(r)
    ints_ = isinstance(c['objs'][0], int)
    return dict(c, neg=neg, nobjs=[10 ** 6 + i if ints_ else 'neg%d' % i
                                   for i in range(names_)],
                order=draw(st.sampled_from([0, 7])))


@subcheck('C21', 'thousands', huge_two(), quick=12, shards=4,
          rule='patterns of positive contexts with 1 to 3 lines one way and 1001 to 2049 '
               'the other', nontrivial=interesting)
def thousands(c):
    generator(c)


@subcheck('C21', 'mismatch', st.fixed_dictionaries({
    'cxts': two(max_n=3, max_m=4, max_neg=2), 'j': gen.ints(0, 9), 'how': gen.ints(0, 2)}),
    quick=500, shards=1,
    rule='contexts whose attributes differ must be refused, and the default generator is '
         'the one of the library; non-trivial: there is an attribute',
    nontrivial=lambda c: c['cxts']['m'] > 0)
def mismatch(case):
    c = case['cxts']
    pos, neg = make(c)
    e = pt.BasicPatternExploration(pos, neg)
    same(sorted(mask(x.intent, c['atts']) for x in e.iterate_patterns_with_examples()),
         sorted(mask(x.intent, c['atts'])
                for x in pt.iterate_positive_concepts(pos, neg)), 'patterns')
    if c['m']:
        a = c['atts'][case['j'] % c['m']]
        if case['how'] == 0:
            neg.delete_attribute(a)
        elif case['how'] == 1:
            neg.rename_attribute(a, 'no such name' if isinstance(a, str) else 999)
        else:
            pos.delete_attribute(a)
        x = raises(pt.AttributeMismatch, pt.BasicPatternExploration, pos, neg)
        same((list(x.pos_atts), list(x.neg_atts)),
             (list(pos.attributes), list(neg.attributes)), 'attributes of the error')

"""C06 closures under sets of implications."""
from hypothesis import strategies as st

import fca
from fca.algorithms import closure_operators as co
from pbt import gen, ref
from pbt.core import check, same, subcheck
from pbt.lib import mask, names

ASSUMPTIONS = ['the names in one set of implications are of one type (sortable)']


@st.composite
def case(draw, m, k, wide=False):
    n = draw(gen.ints(1, m))
    atts = draw(gen.name_list(n, gen.ALL_NAMES))
    count = draw(gen.ints(0, k))
    imps = []
    s = draw(gen.big(n)) & draw(gen.big(n))
    if draw(st.booleans()):
        s &= draw(gen.big(n))
    for _ in range(count):
        kind = draw(gen.ints(0, 15))
        if kind > 9:                                # a step further from s
            p = ref.closure(s, imps) & draw(gen.big(n))
            imps.append([p, 1 << draw(gen.ints(0, n - 1))])
            continue
        if kind == 0 and imps:                      # an equal one again
            imps.append(list(imps[draw(gen.ints(0, len(imps) - 1))]))
            continue
        p, q = draw(gen.big(n)), draw(gen.big(n))
        if kind <= 4:
            p &= draw(gen.big(n))
        if kind in (2, 3, 5, 6):
            q &= draw(gen.big(n))
        if kind == 7:
            p = 1 << draw(gen.ints(0, n - 1))
        if kind == 8:                               # links of a chain
            j = draw(gen.ints(0, n - 1))
            p, q = 1 << j, 1 << ((j + 1) % n)
        if kind == 9:
            p = draw(st.sampled_from([0, 0, p & q]))
        imps.append([p, q])
    turn = draw(gen.ints(0, 30))
    imps = imps[turn % (len(imps) + 1):] + imps[:turn % (len(imps) + 1)]
    return {'atts': atts, 'imps': imps, 's': s,
            'unit': draw(st.booleans()), 'perm': draw(gen.ints(1, 1000)),
            'pref': draw(gen.ints(0, n))}


def live(c):
    """The closure takes at least two steps."""
    s1 = c['s']
    for p, q in c['imps']:
        if p & c['s'] == p:
            s1 |= q
    return ref.closure(c['s'], c['imps']) != s1


def body(c):
    atts = c['atts']

    def objects(pairs):
        out = []
        for p, q in pairs:
            if c['unit'] and bin(q).count('1') == 1 and not p & q:
                out.append(fca.UnitImplication(names(p, atts),
                                               atts[q.bit_length() - 1]))
            else:
                out.append(fca.Implication(names(p, atts), names(q, atts)))
        return out
    pairs = c['imps']
    want = names(ref.closure(c['s'], pairs), atts)
    order = sorted(range(len(pairs)), key=lambda i: (i * c['perm']) % 1009)
    for what, f in (('simple', co.simple_closure), ('linear', co.lin_closure)):
        for ps in (pairs, [pairs[i] for i in order], pairs + pairs[:2]):
            imps = objects(ps)
            s = names(c['s'], atts)
            before = list(imps)
            got = f(s, imps)
            same(set(got), want, '%s closure under %r' % (what, imps))
            same(s, names(c['s'], atts), '%s: its argument' % what)
            check(len(imps) == len(before) and
                  all(a is b for a, b in zip(imps, before)),
                  '{}: the list of implications changed', what)
            for i, (p, q) in zip(imps, ps):
                same(i.get_premise(), names(p, atts), what + ': a premise afterwards')
                same(i.get_conclusion(), names(q, atts),
                     what + ': a conclusion afterwards')
            again = set(got)
            got.clear()                 # the answer is the caller's
            same(s, names(c['s'], atts), '%s: its argument, answer changed' % what)
            for i, (p, q) in zip(imps, ps):
                same((i.get_premise(), i.get_conclusion()),
                     (names(p, atts), names(q, atts)), what + ': answer changed')
            got2 = f(again, imps)
            same(set(got2), want, '%s closure of the closure' % what)
    # the closure that gives up when the first attributes change
    for ps in (pairs, [pairs[i] for i in order]):
        imps = objects(ps)
        s = names(c['s'], atts)
        ok, got = co.closure(s, list(atts), imps, c['pref'])
        keep = (1 << c['pref']) - 1
        clo = ref.closure(c['s'], pairs)
        if (clo & keep) == (c['s'] & keep):
            check(ok is True or ok == 1, 'prefix closure gave up: {!r}', imps)
            same(set(got), want, 'prefix closure under %r' % imps)
        else:
            same((bool(ok), set(got)), (False, set()),
                 'prefix closure under %r' % imps)
        got.clear()
        same(s, names(c['s'], atts), 'prefix closure: its argument')
        same(len(imps), len(ps), 'prefix closure: number of implications')


subcheck('C06', 'small', case(6, 7), quick=2500, shards=4,
         rule='up to 7 implications over up to 6 attributes with repeats, empty sides '
              'and chains, in several orders; non-trivial: the closure takes more than '
              'one round', nontrivial=live)(body)

subcheck('C06', 'large', case(40, 30), quick=1000, shards=4,
         rule='up to 30 implications over up to 40 attributes; non-trivial as above',
         nontrivial=live)(body)


@subcheck('C06', 'thousands', st.fixed_dictionaries({
    'n': st.sampled_from([1001, 1024, 1100]), 'start': gen.ints(0, 3),
    'links': st.lists(gen.ints(0, 1000), max_size=3), 'step': gen.ints(1, 1000),
    'gap': st.lists(gen.ints(0, 1099), max_size=2), 'pref': gen.ints(0, 1001)}),
    quick=6, shards=2,
    rule='a chain of 1001 to 1100 implications, each of which needs the one before, in '
         'different orders, with gaps and shortcuts; non-trivial: no gap',
    nontrivial=lambda c: not c['gap'])
def thousands(c):
    n = c['n']
    links = [(i, i + 1) for i in range(n - 1) if i not in c['gap']]
    links += [(i, (i * 7 + c['step']) % n) for i in c['links']]
    atts = list(range(n))
    pairs = [[1 << a, 1 << b] for a, b in links]
    want = names(ref.closure(1 << c['start'], pairs), atts)
    shuffled = sorted(links, key=lambda l: (l[0] * c['step']) % 1009)
    for what, order in (('forwards', links), ('backwards', links[::-1]),
                        ('shuffled', shuffled)):
        imps = [fca.Implication({a}, {b}) for a, b in order]
        same(co.lin_closure({c['start']}, imps), want, 'linear closure, ' + what)
        same(co.simple_closure({c['start']}, imps), want, 'simple closure, ' + what)
        if what != 'shuffled':
            ok, got = co.closure({c['start']}, atts, imps, c['pref'])
            if any(x < c['pref'] for x in want - {c['start']}):
                same((bool(ok), set(got)), (False, set()), 'prefix closure, ' + what)
            else:
                same((bool(ok), got), (True, want), 'prefix closure, ' + what)

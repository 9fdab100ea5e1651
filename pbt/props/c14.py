"""C14 the basic exploration of attributes and objects (algorithms.exploration)."""
from hypothesis import strategies as st

import fca
from fca.algorithms import exploration as ex
from pbt import gen, ref
from pbt.core import check, same, subcheck
from pbt.core import raises as refuses
from pbt.lib import build, mask, names, imp_masks, check_context, table
from pbt.theory import dg_exact

ASSUMPTIONS = ['names of one side are of one type; names of new lines are new']

OPS = ['confirm a', 'confirm a', 'confirm o', 'counter a', 'counter a', 'counter o',
       'bad counter a', 'bad counter o', 'add object', 'add attribute', 'edit object',
       'edit attribute', 'conflict', 'breach a', 'breach o', 'recompute', 'print']


def raises(exc, f, *args):
    """The error tells which set is refused, and for which implication."""
    bad = next(x for x in args if isinstance(x, set))
    before = set(bad)
    e = refuses(exc, f, *args)
    same(bad, before, 'the refused set afterwards')
    same(e.set, before, 'set of the error')
    check(str(e.set) in str(e), 'error {!r} of {!r}', str(e), before)
    if exc is not ex.BasisConflict:
        imp = f.__self__.attribute_implications if 'attr' in f.__name__ else \
            f.__self__.object_implications
        check(e.implication == imp[args[-1]] and str(e.implication) in str(e),
              'error {!r} for {!r}', str(e), imp[args[-1]])


class World:
    def __init__(self, c):
        self.rows, self.objs, self.atts = table(c), list(c['objs']), list(c['atts'])
        self.given = build(c)
        self.e = ex.BasicExploration(self.given)
        self.ca, self.co = [], []           # confirmed, as (premise, closed set)
        self.case = c

    def respects(self, s, kind):
        return all(not p <= s or q <= s for p, q in (self.ca if kind == 'a' else self.co))

    def intent(self, i):
        return {a for a, v in zip(self.atts, self.rows[i]) if v}

    def extent(self, j):
        return {o for o, r in zip(self.objs, self.rows) if r[j]}

    def verify(self, what):
        e = self.e
        check_context(e.context, self.rows, self.objs, self.atts, what)
        columns = [[r[j] for r in self.rows] for j in range(len(self.atts))]
        for kind, r, open_, conf, mine, seq in (
                ('attribute', ref.Ref(self.rows, len(self.atts)),
                 e.attribute_implications, e.confirmed_attribute_implications, self.ca,
                 self.atts),
                ('object', ref.Ref(columns, len(self.objs)), e.object_implications,
                 e.confirmed_object_implications, self.co, self.objs)):
            same([(set(i.premise), set(i.premise | i.conclusion)) for i in conf], mine,
                 '%s: confirmed %s implications' % (what, kind))
            known = {(mask(p, seq), mask(q, seq)) for p, q in mine}
            got = imp_masks(open_, seq)
            check(not known & set(got), '{}: a confirmed {} implication is open', what,
                  kind)
            # open and confirmed ones of the present basis make it up
            basis = dict(r.pseudo_intents())
            rest = {p: q for p, q in basis.items() if (p, q) not in known}
            check(dict(got) == rest and len(got) == len(rest),
                  '{}: open {} implications: missing {!r}, wrong {!r}', what, kind,
                  sorted(set(rest.items()) - set(got)),
                  sorted(set(got) - set(rest.items())))


def fresh(old, sel):
    if old and all(isinstance(x, (int, float)) for x in old):
        return [x for x in range(0, 99) if x not in old][sel % 5]
    return [x for x in ['x%d' % i for i in range(40)] if x not in old][sel % 5]


def pick(seq, sel):
    x = sel * 2654435761 + 99991
    return {a for i, a in enumerate(seq) if x >> (7 + 3 * i) & 1}


def put_object(w, s, name):
    w.objs.append(name)
    w.rows.append([a in s for a in w.atts])


def put_attribute(w, s, name):
    w.atts.append(name)
    for o, r in zip(w.objs, w.rows):
        r.append(o in s)


def close(s, imps):
    s = set(s)
    while True:
        t = set(s)
        for p, q in imps:
            if p <= t:
                t |= q
        if t == s:
            return s
        s = t


def step(w, op, a, b):
    e = w.e
    kind = op[-1]
    if op in ('confirm a', 'confirm o'):
        open_ = e.attribute_implications if kind == 'a' else e.object_implications
        if open_:
            i = a % len(open_)
            imp = open_[i]
            (w.ca if kind == 'a' else w.co).append(
                (set(imp.premise), set(imp.premise | imp.conclusion)))
            (e.confirm_attribute_implication if kind == 'a' else
             e.confirm_object_implication)(i)
    elif op in ('counter a', 'counter o', 'bad counter a', 'bad counter o'):
        open_ = e.attribute_implications if kind == 'a' else e.object_implications
        seq = w.atts if kind == 'a' else w.objs
        names_ = w.objs if kind == 'a' else w.atts
        conf = w.ca if kind == 'a' else w.co
        f = (e.counter_example_for_attr_implication if kind == 'a' else
             e.counter_example_for_obj_implication)
        if not open_:
            return
        i = a % len(open_)
        p, q = set(open_[i].premise), set(open_[i].conclusion)
        name = fresh(names_, b)
        if op.startswith('bad'):
            which = b % 3
            if which == 0 and p:
                s = pick(seq, b) - {sorted(p, key=str)[a % len(p)]}
                raises(ex.NotCounterExamplePremise, f, name, s, i)
            elif which == 1:
                raises(ex.NotCounterExampleConclusion, f, name, pick(seq, b) | p | q, i)
            elif which == 2:
                s = p | (pick(seq, b) - q)
                if not w.respects(s, kind):
                    raises(ex.BasisConflict, f, name, s, i)
            return
        s = p | (pick(seq, b) - q)
        if not w.respects(s, kind):
            s = close(p, conf)
        if q <= s or not w.respects(s, kind):
            return
        f(name, set(s), i)
        (put_object if kind == 'a' else put_attribute)(w, s, name)
    elif op == 'add object':
        s, name = pick(w.atts, a), fresh(w.objs, b)
        if w.respects(s, 'a'):
            e.add_object(set(s), name)
            put_object(w, s, name)
        else:
            raises(ex.BasisConflict, e.add_object, s, name)
    elif op == 'add attribute':
        s, name = pick(w.objs, a), fresh(w.atts, b)
        if w.respects(s, 'o'):
            e.add_attribute(set(s), name)
            put_attribute(w, s, name)
        else:
            raises(ex.BasisConflict, e.add_attribute, s, name)
    elif op == 'edit object' and w.objs:
        i, s = a % len(w.objs), pick(w.atts, b)
        if w.respects(s, 'a'):
            e.edit_object(set(s), w.objs[i])
            w.rows[i] = [x in s for x in w.atts]
        else:
            raises(ex.BasisConflict, e.edit_object, s, w.objs[i])
    elif op == 'edit attribute' and w.atts:
        j, s = a % len(w.atts), pick(w.objs, b)
        if w.respects(s, 'o'):
            e.edit_attribute(set(s), w.atts[j])
            for o, r in zip(w.objs, w.rows):
                r[j] = o in s
        else:
            raises(ex.BasisConflict, e.edit_attribute, s, w.atts[j])
    elif op == 'conflict':
        for kind, conf, seq, f, g in (
                ('a', w.ca, w.atts, e.add_object, e.check_intent_for_conflicts),
                ('o', w.co, w.objs, e.add_attribute, e.check_extent_for_conflicts)):
            for p, q in conf[-1:]:
                if p != q:
                    raises(ex.BasisConflict, f, set(p), 'new')
                    check(not g(set(p)), 'a conflict is not seen')
            s = pick(seq, a)
            same(bool(g(set(s))), w.respects(s, kind), 'conflict of %r' % s)
    elif op in ('breach a', 'breach o'):
        # sets that break a confirmed implication, best of all exactly one of them
        seq, conf = (w.atts, w.ca) if kind == 'a' else (w.objs, w.co)
        names_ = w.objs if kind == 'a' else w.atts
        open_ = e.attribute_implications if kind == 'a' else e.object_implications
        sets = [names(x, seq) for x in range(1 << len(seq))]
        sets = [s for s in sets if not w.respects(s, kind)]
        few = [s for s in sets if sum(p <= s and not q <= s for p, q in conf) == 1]
        sets = few if few and b % 4 else sets
        if not sets:
            return
        s, name = sets[a % len(sets)], fresh(names_, b)
        raises(ex.BasisConflict, e.add_object if kind == 'a' else e.add_attribute,
               set(s), name)
        if names_:
            raises(ex.BasisConflict, e.edit_object if kind == 'a' else e.edit_attribute,
                   set(s), names_[b % len(names_)])
        f = (e.counter_example_for_attr_implication if kind == 'a' else
             e.counter_example_for_obj_implication)
        some = [(i, t) for t in sets for i, x in enumerate(open_)
                if x.premise <= t and not x.conclusion <= t]
        if some:
            i, t = some[a % len(some)]
            raises(ex.BasisConflict, f, name, set(t), i)
    elif op == 'recompute':
        e.recompute_basis()
    elif op == 'print':
        want = ''
        for head, lines in (
                ('Context:', [e.context]),
                ('Attribute implications:', e.attribute_implications),
                ('Confirmed attribute implications:',
                 e.confirmed_attribute_implications),
                ('Object implications:', e.object_implications),
                ('Confirmed object implications:', e.confirmed_object_implications)):
            want += '%s\n%s\n' % (head, '=' * len(head))
            want += ''.join('%s\n' % x for x in lines)
        same(str(e), want, 'printed')


@st.composite
def listed(draw, most):
    """A context, now and then with names that look like lists of others."""
    c = draw(gen.context(max_n=most, max_m=most, forms=['bool']))
    for side, pool in (('atts', ['a', 'b', 'a, b', 'b, c', 'c', 'a, b, c']),
                       ('objs', ['x', 'y', 'x, y', 'not (x)', 'not (x, y)', 'y, z'])):
        if draw(gen.ints(0, 5)) == 0:
            c[side] = draw(st.permutations(pool))[:len(c[side])]
    return c


def real_history(c):
    seen = False
    for o in c['ops']:
        if o[0].startswith('confirm'):
            seen = True
        elif seen and o[0] not in ('recompute', 'print', 'conflict'):
            return True
    return False


@subcheck('C14', 'histories', st.fixed_dictionaries({
    'cxt': listed(4), 'ops': gen.ops(OPS, 14, min_size=2, nargs=2)}), quick=1000, shards=8,
    rule='a random context and up to 14 confirmations, counterexamples, edits and '
         'refused calls; context, open and confirmed implications of both kinds are '
         'compared with a model after every step; non-trivial: something follows a '
         'confirmation', nontrivial=real_history,
    classify=lambda c: sorted({o[0] for o in c['ops']}))
def histories(case):
    w = World(case['cxt'])
    w.verify('at first')
    for i, (op, a, b) in enumerate(case['ops']):
        if len(w.objs) > 8 or len(w.atts) > 8:
            break
        step(w, op, a, b)
        w.verify('after step %d, %s' % (i, op))
    c = case['cxt']
    check_context(w.given, table(c), c['objs'], c['atts'], 'the context given')


@subcheck('C14', 'long histories', st.fixed_dictionaries({
    'cxt': listed(5), 'ops': gen.ops(OPS, 40, min_size=18, nargs=2)}), quick=250, shards=8,
    rule='the same with 18 to 40 steps on contexts up to 5 x 5',
    nontrivial=real_history)
def long_histories(case):
    histories(case)

"""C15 exploration sessions (exploration2)."""
from hypothesis import strategies as st

import fca
from fca.algorithms.exploration2 import exploration as ex
from fca.algorithms.exploration2.examples.numbers import CommandLineExploration
from pbt import gen, ref
from pbt.core import check, same, raises, subcheck
from pbt.lib import build, mask, names, imp_masks, check_context, table, shape_classes
from pbt.theory import dg_exact, equivalent

ASSUMPTIONS = ['only implications that hold in the context are accepted']

OPS = ['accept', 'accept', 'accept valid', 'reject', 'reject', 'reject false',
       'reject conflict', 'add', 'add conflict', 'spoil']


def pick(seq, sel):
    x = sel * 2654435761 + 99991
    return {a for i, a in enumerate(seq) if x >> (7 + 3 * i) & 1}


def fresh(old, sel):
    if old and all(isinstance(x, (int, float)) for x in old):
        return [x for x in range(0, 99) if x not in old][sel % 5]
    return [x for x in ['x%d' % i for i in range(60)] if x not in old][sel % 5]


class World:
    def __init__(self, c):
        self.rows, self.objs, self.atts = table(c), list(c['objs']), list(c['atts'])
        self.cxt = build(c)
        self.face = ex.ExplorationContext(self.cxt)
        self.s = ex.Exploration(self.face).create_session()
        self.acc = []

    def bg(self):
        return [(mask(p, self.atts), mask(q, self.atts)) for p, q in self.acc]

    def respects(self, s):
        return all(not p <= s or q <= s for p, q in self.acc)

    def verify(self, what):
        v = self.s.context
        check(v is self.s.get_context(), 'context')
        same(list(v.objects), self.objs, what + ': objects')
        same(list(v.get_objects()), self.objs, what + ': objects')
        same(list(v.attributes), self.atts, what + ': attributes')
        for o, r in zip(self.objs, self.rows):
            same(set(v.get_intent(o)), {a for a, x in zip(self.atts, r) if x},
                 '%s: intent of %r' % (what, o))
        for j, a in enumerate(self.atts):
            same(set(v.get_extent(a)), {o for o, r in zip(self.objs, self.rows) if r[j]},
                 '%s: extent of %r' % (what, a))
        same([(set(i.premise), set(i.premise | i.conclusion))
              for i in self.s.get_accepted_implications()], self.acc,
             what + ': accepted')
        dg_exact(imp_masks(self.s.get_candidates(), self.atts),
                 ref.Ref(self.rows, len(self.atts)), self.bg(), what + ': candidates')

    def put(self, s, name):
        self.objs.append(name)
        self.rows.append([a in s for a in self.atts])


def step(w, op, a, b):
    s = w.s
    cands = s.get_candidates()
    r = ref.Ref(w.rows, len(w.atts))
    name = fresh(w.objs, b)
    if op == 'accept' and cands:
        imp = cands[a % len(cands)]
        w.acc.append((set(imp.premise), set(imp.premise | imp.conclusion)))
        s.accept_implication(imp)
    elif op == 'accept valid':
        p = mask(pick(w.atts, a), w.atts)
        q = p | r.aclosure(p) & mask(pick(w.atts, b), w.atts)
        p, q = names(p, w.atts), names(q, w.atts)
        w.acc.append((p, q))
        s.accept_implication(fca.Implication(p, q))
    elif op == 'reject' and cands:
        imp = cands[a % len(cands)]
        x = set(imp.premise) | (pick(w.atts, b) - set(imp.conclusion))
        if not w.respects(x):
            x = set(imp.premise)            # a pseudo-intent respects the accepted
        s.reject_implication(imp, name, set(x))
        w.put(x, name)
    elif op == 'reject false' and cands:
        imp = cands[a % len(cands)]
        x = pick(w.atts, b)
        if imp.premise <= x:
            x |= imp.conclusion
        raises(ex.FalseCounterexample, s.reject_implication, imp, name, x)
    elif op == 'reject conflict' and cands and w.acc:
        imp = cands[a % len(cands)]
        for p, q in w.acc:
            x = set(imp.premise) | p
            if not w.respects(x) and not imp.conclusion <= x:
                raises(ex.IllegalContextModification, s.reject_implication, imp, name, x)
                return
    elif op == 'add':
        x = pick(w.atts, a)
        if w.respects(x):
            s.context.add_object(name, set(x))
            w.put(x, name)
        else:
            raises(ex.IllegalContextModification, s.context.add_object, name, x)
    elif op == 'add conflict':
        for p, q in w.acc:
            if not q <= p:
                raises(ex.IllegalContextModification, s.context.add_object, name, set(p))
                return
    elif op == 'spoil':
        s.get_accepted_implications().append('spoiled')
        s.get_candidates().append('spoiled')
        s.context.objects.append('spoiled')
        s.context.attributes.append('spoiled')
        for o in w.objs:
            s.context.get_intent(o).add('spoiled')
        for x in w.atts:
            s.context.get_extent(x).add('spoiled')


@subcheck('C15', 'histories', st.fixed_dictionaries({
    'cxt': gen.context(max_n=5, max_m=5, forms=['bool']),
    'ops': gen.ops(OPS, 14, min_size=2, nargs=2)}), quick=1000, shards=5,
    rule='a random context and up to 14 answers, additions and refused calls; all views '
         'are compared with a model after every step; non-trivial: something follows '
         'an acceptance',
    nontrivial=lambda c: any(o[0].startswith('accept') for o in c['ops'][:-1]),
    classify=lambda c: sorted({o[0] for o in c['ops']}))
def histories(case):
    w = World(case['cxt'])
    w.verify('at first')
    for i, (op, a, b) in enumerate(case['ops']):
        step(w, op, a, b)
        w.verify('after step %d, %s' % (i, op))


@subcheck('C15', 'long histories', st.fixed_dictionaries({
    'cxt': gen.context(max_n=8, max_m=7, forms=['bool'], tall=(30, 4), wide=(4, 9)),
    'ops': gen.ops(OPS, 45, min_size=18, nargs=2)}), quick=100, shards=8,
    rule='the same with 18 to 45 steps on contexts up to 8 x 7, 30 x 4 and 4 x 9',
    nontrivial=lambda c: any(o[0].startswith('accept') for o in c['ops'][:-1]),
    classify=lambda c: shape_classes(c['cxt']))
def long_histories(case):
    histories(case)


@subcheck('C15', 'to the end', st.fixed_dictionaries({
    'cxt': gen.context(max_n=7, max_m=5, kinds=gen.STR_NAMES, forms=['bool']),
    'start': gen.ints(0, 7),
    'picks': st.lists(gen.ints(0, 999), min_size=1, max_size=9)}), quick=700, shards=3,
    rule='a session with an expert who knows a random target context, in a random '
         'order: it ends, and what was accepted has exactly the target intents as '
         'closed sets; non-trivial: more than two distinct rows, not all of them known '
         'at first',
    nontrivial=lambda c: len(set(c['cxt']['rows'])) > 2 and c['cxt']['m'] > 1 and
    c['start'] < len(c['cxt']['rows']))
def to_the_end(case):
    c = case['cxt']
    target, atts, picks = table(c), c['atts'], case['picks']
    rows = [{a for a, v in zip(atts, r) if v} for r in target]
    n = min(case['start'], len(target))
    cxt = fca.Context([list(r) for r in target[:n]], ['g%d' % i for i in range(n)],
                      list(atts))
    if picks[0] % 2:
        e = ex.Exploration(ex.ExplorationContext(cxt))
    else:                                   # a first session, about something else
        other = fca.Context([[True]], ['g'], ['only'])
        e = ex.Exploration(ex.ExplorationContext(other))
        e.create_session().accept_implication(fca.Implication(set(), {'only'}))
        e.set_context(ex.ExplorationContext(cxt))
    s = e.create_session()
    for turn in range(2 ** (c['m'] + 1) + len(target) + 5):
        o = s.get_candidates()
        if not o:
            break
        imp = o[picks[turn % len(picks)] % len(o)]
        bad = [x for x in rows if not imp.is_respected(x)]
        if bad:
            s.reject_implication(imp, 'e%d' % turn, set(bad[picks[0] % len(bad)]))
        else:
            s.accept_implication(imp)
    else:
        check(False, 'the session does not end')
    equivalent(imp_masks(s.get_accepted_implications(), atts), ref.Ref(target, c['m']),
               'accepted implications')


class Numbers(CommandLineExploration):
    """The expert of the example program, who knows some numbers."""
    def __init__(self, numbers, picks):
        super().__init__()
        self.numbers, self.picks, self.turn = numbers, picks, 0

    def is_valid(self, imp):
        self.turn += 1
        check(self.turn < 200, 'the session does not end')
        self.imp = imp
        return all(imp.is_respected(self.get_intent(n)) for n in self.numbers)

    def ask_for_counterexample(self):
        bad = [n for n in self.numbers if not self.imp.is_respected(self.get_intent(n))]
        return bad[self.picks[self.turn % len(self.picks)] % len(bad)]


@subcheck('C15', 'numbers', st.fixed_dictionaries({
    'numbers': st.lists(gen.ints(1, 130), max_size=12, unique=True),
    'picks': st.lists(gen.ints(0, 999), min_size=1, max_size=9)}), quick=400, shards=1,
    rule='the exploration of properties of numbers, with an expert who knows up to 12 of '
         'them: it ends with the implications of those; non-trivial: three numbers',
    nontrivial=lambda c: len(c['numbers']) > 2)
def numbers(case):
    e = Numbers(case['numbers'], case['picks'])
    atts = ['even', 'odd', 'divided_by_three', 'prime', 'factorial']
    same(set(e._session.context.attributes), set(atts), 'attributes')
    for n in case['numbers']:
        x = e.get_intent(n)
        same(('even' in x, 'odd' in x, 'divided_by_three' in x),
             (n % 2 == 0, n % 2 == 1, n % 3 == 0), 'properties of %d' % n)
        if n > 1:
            same('prime' in x, all(n % d for d in range(2, n)), 'prime %d' % n)
        same('factorial' in x, n in (1, 2, 6, 24, 120), 'factorial %d' % n)
    e.explore()
    same(list(e._session.get_candidates()), [], 'open implications')
    table_ = [[a in e.get_intent(n) for a in atts] for n in case['numbers']]
    equivalent(imp_masks(e._session.get_accepted_implications(), atts),
               ref.Ref(table_, 5), 'accepted implications')
    check(set(e._session.context.objects) <= set(case['numbers']), 'objects')
    for n in e._session.context.objects:
        same(set(e._session.context.get_intent(n)), e.get_intent(n), 'intent of %d' % n)

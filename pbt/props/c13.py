"""C13 attribute exploration with background knowledge (exploration_)."""
from hypothesis import strategies as st

import fca
from fca.algorithms.exploration_ import exploration as ex
from pbt import gen, ref
from pbt.core import check, same, raises, subcheck
from pbt.lib import (build, mask, names, imp_masks, check_context, table,
                     shape_classes)
from pbt.theory import dg_exact, equivalent, sound

ASSUMPTIONS = ['only implications that hold in the context are confirmed',
               'attributes mentioned by confirmed implications are not renamed or '
               'deleted', 'names of one side are of one type']

OPS = ['confirm', 'confirm', 'confirm valid', 'unconfirm', 'reject', 'reject badly', 'add', 'add', 'add bad name',
       'add conflict', 'delete example', 'edit example', 'edit intent',
       'edit example name', 'edit conflict', 'edit taken name', 'add attribute',
       'add attribute name', 'delete attribute', 'edit attribute', 'edit attribute name',
       'edit attribute conflict', 'touch', 'spoil']


class World:
    """The context and the base as they should be."""

    def __init__(self, c, cond=None):
        self.rows, self.objs, self.atts = table(c), list(c['objs']), list(c['atts'])
        self.base = []                      # (premise names, conclusion names)
        self.cxt = build(c)
        self.limit = cond
        self.imps = []
        args = () if cond is None else (lambda a: len(a) <= cond,)
        self.db = ex.ExplorationDB(self.cxt, self.imps, *args)
        self.expert = Scripted()
        self.e = ex.AttributeExploration(self.db, self.expert)

    def ref(self):
        return ref.Ref(self.rows, len(self.atts))

    def bg(self):
        return [(mask(p, self.atts), mask(p | q, self.atts)) for p, q in self.base]

    def respects(self, intent):
        return all(not p <= intent or q <= intent for p, q in self.base)

    def intent(self, i):
        return {a for a, v in zip(self.atts, self.rows[i]) if v}

    def row(self, intent):
        return [a in intent for a in self.atts]

    def mentioned(self):
        return set().union(*[p | q for p, q in self.base]) if self.base else set()

    def verify(self, what):
        db = self.db
        same(list(db.objects), self.objs, what + ': objects')
        same(list(db.attributes), self.atts, what + ': attributes')
        same(list(db.get_object_names()), self.objs, what + ': objects')
        same(list(db.get_attribute_names()), self.atts, what + ': attributes')
        check_context(self.cxt, self.rows, self.objs, self.atts, what)
        got = [(set(i.premise), set(i.premise | i.conclusion)) for i in db.base]
        same(got, [(p, p | q) for p, q in self.base], what + ': base')
        same(len(db.get_base()), len(self.base), what + ': base')
        for i in range(len(self.objs)):
            check(self.respects(self.intent(i)), '{}: {!r} conflicts with the base',
                  what, self.objs[i])
        pairs = imp_masks(db.open_implications, self.atts)
        same(imp_masks(db.get_open_implications(), self.atts), pairs,
             what + ': open implications')
        if self.limit is None:
            dg_exact(pairs, self.ref(), self.bg(), what + ': open implications')
        else:
            sound(pairs, self.ref(), what + ': open implications')
            for i in db.open_implications:
                check(len(i.premise) <= self.limit, '{}: {!r} is out of question', what, i)


class Scripted:
    answer = None

    def provide_counterexample(self, imp):
        return self.answer


def confirm(w, imp, how):
    """By any way there is."""
    (w.db.confirm_implication, w.e.confirm_implication,
     lambda i: w.e.confirm_implications([i]))[how % 3](imp)


def fresh(old, sel):
    if old and all(isinstance(x, (int, float)) for x in old):
        return [x for x in range(0, 99) if x not in old][sel % 5]
    return [x for x in ['x%d' % i for i in range(40)] if x not in old][sel % 5]


def random_intent(w, sel):
    x = sel * 2654435761 + 99991
    return {a for i, a in enumerate(w.atts) if x >> (7 + 3 * i) & 1}


def allowed_intent(w, sel):
    """A random intent that respects the base."""
    s = ref.closure(mask(random_intent(w, sel), w.atts), w.bg())
    return names(s, w.atts)


def conflicting(w, sel):
    """An intent that does not, if there is one."""
    for t in range(40):
        s = random_intent(w, sel + t * 7919)
        if not w.respects(s):
            return s
    if w.base:
        p, q = w.base[sel % len(w.base)]
        if q - p:
            return set(p)
    return None


def step(w, op, a, b):
    db = w.db
    if op == 'confirm':
        o = db.open_implications
        if o:
            imp = o[a % len(o)]
            w.base.append((set(imp.premise), set(imp.conclusion)))
            confirm(w, imp, b)
    elif op == 'confirm valid':
        p = mask(random_intent(w, a), w.atts)
        q = w.ref().aclosure(p) & mask(random_intent(w, b), w.atts)
        p, q = names(p, w.atts), names(q, w.atts)
        w.base.append((p, q - p))
        confirm(w, fca.Implication(p, q), a // 3)
    elif op == 'unconfirm' and w.base:
        p, q = w.base[a % len(w.base)]
        # the base is a list: the first equal one goes
        i = next(i for i, x in enumerate(w.base) if x[0] == p and
                 x[1] - x[0] == q - p)
        del w.base[i]
        (w.e if b % 2 else db).unconfirm_implication(fca.Implication(p, q))
    elif op in ('reject', 'reject badly'):
        o = w.e.get_open_implications()
        if not o:
            return
        imp, name = o[a % len(o)], fresh(w.objs, b)
        p = set(imp.premise)
        s = p | (random_intent(w, b) - set(imp.conclusion))
        if op == 'reject':
            if not w.respects(s):
                s = names(ref.closure(mask(p, w.atts), w.bg()), w.atts)
            if imp.conclusion <= s:         # only the base says so
                return
            w.expert.answer = (name, set(s)) if a % 2 else ([name], [set(s)])
            w.e.reject_implication(imp)
            w.objs.append(name)
            w.rows.append(w.row(s))
            return
        if imp.is_respected(s) or a % 3 == 0:
            s, error = (s | imp.conclusion, ex.NotCounterexample)
            if not p & s == p or not imp.conclusion <= s:
                return
        elif not w.respects(s):
            error = ex.IllegalContextModification
        elif w.objs:
            name, error = w.objs[b % len(w.objs)], ex.NotUniqueObjectName
        else:
            return
        w.expert.answer = (name, set(s)) if a % 2 else ([name], [set(s)])
        raises(error, w.e.reject_implication, imp)
    elif op == 'add':
        s, name = allowed_intent(w, a), fresh(w.objs, b)
        db.add_example(name, set(s))
        w.objs.append(name)
        w.rows.append(w.row(s))
    elif op == 'add bad name' and w.objs:
        raises(ex.NotUniqueObjectName, db.add_example, w.objs[a % len(w.objs)],
               allowed_intent(w, b))
    elif op == 'add conflict':
        s = conflicting(w, a)
        if s is not None:
            raises(ex.IllegalContextModification, db.add_example, fresh(w.objs, b), s)
    elif op == 'delete example' and w.objs:
        i = a % len(w.objs)
        db.delete_example(w.objs[i])
        del w.objs[i], w.rows[i]
    elif op in ('edit example', 'edit intent', 'edit example name') and w.objs:
        i = a % len(w.objs)
        s = w.intent(i) if op == 'edit example name' else allowed_intent(w, b)
        name = w.objs[i] if op == 'edit intent' else fresh(w.objs, b)
        db.edit_example(name, w.objs[i], set(s))
        w.objs[i], w.rows[i] = name, w.row(s)
    elif op == 'edit conflict' and w.objs:
        s = conflicting(w, b)
        if s is not None:
            i = a % len(w.objs)
            name = fresh(w.objs, b) if b % 2 else w.objs[i]
            raises(ex.IllegalContextModification, db.edit_example, name, w.objs[i], s)
    elif op == 'edit taken name' and len(w.objs) > 1:
        i = a % len(w.objs)
        j = (i + 1 + b % (len(w.objs) - 1)) % len(w.objs)
        raises(ex.NotUniqueObjectName, db.edit_example, w.objs[j], w.objs[i],
               allowed_intent(w, b))
    elif op == 'add attribute':
        name = fresh(w.atts, a)
        ext = {o for i, o in enumerate(w.objs) if b >> i % 16 & 1}
        db.add_attribute(name, ext)
        w.atts.append(name)
        for o, r in zip(w.objs, w.rows):
            r.append(o in ext)
    elif op == 'add attribute name' and w.atts:
        raises(ex.NotUniqueAttributeName, db.add_attribute, w.atts[a % len(w.atts)],
               set())
    elif op == 'delete attribute':
        free = [x for x in w.atts if x not in w.mentioned()]
        if free:
            x = free[a % len(free)]
            db.delete_attribute(x)
            j = w.atts.index(x)
            del w.atts[j]
            for r in w.rows:
                del r[j]
    elif op == 'edit attribute' and w.atts:
        j = a % len(w.atts)
        x = w.atts[j]
        ext = {o for i, o in enumerate(w.objs) if b >> i % 16 & 1}
        name = x if x in w.mentioned() or b % 3 == 0 else fresh(w.atts, b)
        new = [(w.intent(i) | {x}) if o in ext else (w.intent(i) - {x})
               for i, o in enumerate(w.objs)]
        if all(w.respects(s) for s in new):
            db.edit_attribute(name, x, ext)
            for r, o in zip(w.rows, w.objs):
                r[j] = o in ext
            w.atts[j] = name
        else:
            raises(ex.IllegalContextModification, db.edit_attribute, name, x, ext)
    elif op == 'edit attribute name' and len(w.atts) > 1:
        j = a % len(w.atts)
        i = (j + 1 + b % (len(w.atts) - 1)) % len(w.atts)
        ext = {o for o, r in zip(w.objs, w.rows) if r[j]}
        raises(ex.NotUniqueAttributeName, db.edit_attribute, w.atts[i], w.atts[j], ext)
    elif op == 'edit attribute conflict' and w.base and w.objs:
        p, q = w.base[a % len(w.base)]
        for x in sorted(q - p, key=str):
            ext = {o for o, r in zip(w.objs, w.rows) if r[w.atts.index(x)]}
            for i, o in enumerate(w.objs):
                if o in ext and p <= w.intent(i):
                    raises(ex.IllegalContextModification, db.edit_attribute, x, x,
                           ext - {o})
                    return
    elif op == 'touch':
        db.touch()
    elif op == 'spoil':
        db.open_implications.append('spoiled')
        db.base.append('spoiled')
        del db.get_open_implications()[:]
        del db.get_base()[:]


HIST = st.fixed_dictionaries({
    'cxt': gen.context(max_n=5, max_m=5, forms=['bool']),
    'cond': st.sampled_from([None, None, None, None, 1, 2]),
    'ops': gen.ops(OPS, 16, min_size=2, nargs=2)})


def real_history(c):
    seen = False
    for o in c['ops']:
        if o[0].startswith('confirm'):
            seen = True
        elif seen and o[0] not in ('touch', 'spoil'):
            return True
    return False


@subcheck('C13', 'database', HIST, quick=1300, shards=7,
          rule='a random context and up to 16 confirmations, withdrawals, changes of '
               'examples and attributes and calls that must be refused; all views are '
               'compared with a model after every step; non-trivial: something follows '
               'a confirmation', nontrivial=real_history,
          classify=lambda c: sorted({o[0] for o in c['ops']}))
def database(case):
    w = World(case['cxt'], case['cond'])
    w.verify('at first')
    for i, (op, a, b) in enumerate(case['ops']):
        step(w, op, a, b)
        w.verify('after step %d, %s' % (i, op))


@subcheck('C13', 'long database', st.fixed_dictionaries({
    'cxt': gen.context(max_n=9, max_m=6, forms=['bool'], tall=(30, 4), wide=(5, 9)),
    'cond': st.sampled_from([None, None, None, None, 1, 2]),
    'ops': gen.ops(OPS, 45, min_size=18, nargs=2)}), quick=250, shards=8,
          rule='the same with 18 to 45 steps, on contexts up to 9 x 6, 30 x 4 and 5 x 9',
          nontrivial=real_history, classify=lambda c: shape_classes(c['cxt']))
def long_database(case):
    database(case)


class Expert:
    """Knows the target context."""

    def __init__(self, target, atts, order, many):
        self.rows = [{a for a, v in zip(atts, r) if v} for r in target]
        self.order, self.many = order, many
        self.lie = None
        self.n = 0

    def holds(self, imp):
        return all(not imp.premise <= r or imp.conclusion <= r for r in self.rows)

    def provide_counterexample(self, imp):
        bad = [r for r in self.rows if imp.premise <= r and not imp.conclusion <= r]
        if self.lie is not None:
            # on its own, or before one that is true
            bad = [self.lie] + (bad[:1] if self.many else [])
        self.n += 1
        if self.many and len(bad) > 1:
            return (['e%d_%d' % (self.n, i) for i in range(len(bad))],
                    [set(r) for r in bad])
        return 'e%d' % self.n, set(bad[self.order % len(bad)])


SESSION = st.fixed_dictionaries({
    'cxt': gen.context(max_n=7, max_m=5, forms=['bool'], kinds=gen.STR_NAMES),
    'start': gen.ints(0, 7), 'picks': st.lists(gen.ints(0, 999), min_size=1, max_size=9),
    'many': st.booleans(), 'lie': st.booleans()})


@subcheck('C13', 'session', SESSION, quick=500, shards=3,
          rule='an exploration with an expert who knows a random target context, '
               'answering open implications in a random order: it ends, and what was '
               'confirmed has exactly the target intents as closed sets; non-trivial: '
               'an implication is rejected and one is confirmed',
          nontrivial=lambda c: len(set(c['cxt']['rows'])) > 2 and c['cxt']['m'] > 1 and
          c['start'] < len(c['cxt']['rows']))
def session(case):
    c = case['cxt']
    target, atts = table(c), c['atts']
    r = ref.Ref(target, c['m'])
    n = min(case['start'], len(target))
    cxt = fca.Context([list(x) for x in target[:n]], ['g%d' % i for i in range(n)],
                      list(atts))
    db = ex.ExplorationDB(cxt, [])
    picks = case['picks']
    expert = Expert(target, atts, picks[0], case['many'])
    e = ex.AttributeExploration(db, expert)
    for turn in range(2 ** (c['m'] + 1) + len(target) + 5):
        o = e.get_open_implications()
        if not o:
            break
        imp = o[picks[turn % len(picks)] % len(o)]
        if expert.holds(imp):
            more = [x for x in o if x is not imp and expert.holds(x)]
            if case['many'] and more:
                e.confirm_implications([imp, more[picks[0] % len(more)]])
            else:
                e.confirm_implication(imp)
        else:
            if case['lie']:
                # the closure of the premise is no counterexample
                expert.lie = set(imp.premise) | set(imp.conclusion)
                before = (list(db.objects), imp_masks(db.open_implications, atts))
                raises(ex.NotCounterexample, e.reject_implication, imp)
                same((list(db.objects), imp_masks(db.open_implications, atts)), before,
                     'after a refused counterexample')
                expert.lie = None
            e.reject_implication(imp)
    else:
        check(False, 'the exploration does not end')
    equivalent(imp_masks(db.base, atts), r, 'explored base')
    now = ref.Ref([[bool(v) for v in row] for row in cxt], c['m'])
    same(now.intents(), r.intents(), 'intents of the explored context')
    for imp in list(db.base)[:2]:
        e.unconfirm_implication(imp)
        check(imp not in db.base, 'withdrawn implication')
        dg_exact(imp_masks(db.open_implications, atts), now,
                 imp_masks(db.base, atts), 'open after withdrawal')

"""C23 interrupted computations leave no trace."""
from hypothesis import strategies as st

import fca
from fca.algorithms import filtering as fl
from fca.algorithms import implication_covers as ic
from fca.algorithms import closure_operators as co
from fca.algorithms.exploration_ import exploration as ex
from pbt import gen, sched, world
from pbt.core import same, subcheck
from pbt.props.c22 import talk

ASSUMPTIONS = ['a computation is interrupted before a line or a bytecode instruction of '
               'the library, as by KeyboardInterrupt',
               'interrupted changes are not claimed to be done or undone']


@subcheck('C23', 'interrupted', st.fixed_dictionaries({
    'world': world.worlds(), 'before': world.calls(2, 0), 'todo': world.calls(2),
    'at': gen.ints(0, 10 ** 6), 'late': st.booleans(),
    'fine': st.sampled_from([False, False, True]), 'after': world.calls(3)}),
    quick=600, shards=8,
    rule='up to two computations, interrupted at a random step; nothing that was asked '
         'about has changed, and these and other computations give the answers they give '
         'on fresh objects; non-trivial: two objects and two attributes',
    nontrivial=talk,
    classify=lambda c: sorted({j[0] for j in c['todo']}))
def interrupted(case):
    cw, todo = case['world'], case['todo']
    rest = case['before'] + todo + case['after']
    fresh = world.World(cw)
    want = world.run(fresh, rest)
    steps = sched.length(lambda: world.run(world.World(cw), todo), case['fine'])
    w = world.World(cw)
    world.run(w, case['before'])
    made = sched.length(lambda: world.World(cw), case['fine'])
    n = max(1, steps - made)
    at = 1 + case['at'] % n
    if case['late']:
        at = n - case['at'] % min(n, 20)
    sched.interrupt(lambda: world.run(w, todo), at, case['fine'])
    w.verify('after an interrupted computation')
    got = world.run(w, rest)
    for (name, a), x, y in zip(rest, got, want):
        same(x, y, 'after an interruption at step %d: %s (%d)' % (at, name, a))
    w.verify('afterwards')
    world.later(w, cw['change'], todo)


subcheck('C23', 'larger', st.fixed_dictionaries({
    'world': world.worlds(12, 7, 5, 4), 'before': world.calls(2, 0),
    'todo': world.calls(3), 'at': gen.ints(0, 10 ** 6), 'late': st.booleans(),
    'fine': st.sampled_from([False, False, True]), 'after': world.calls(3)}),
    quick=25, shards=8, rule='the same on contexts of 5 x 4 to 12 x 7',
    nontrivial=talk, classify=lambda c: sorted({j[0] for j in c['todo']}))(interrupted)


class Failed(Exception):
    pass


def failing(f, left):
    """f, that fails when it is called the next time after so many."""
    def g(*args, **kwargs):
        left[0] -= 1
        if left[0] < 0:
            raise Failed()
        return f(*args, **kwargs)
    return g


END = object()


def iterator(f):
    """Asks for some, fails, and leaves the iterator behind."""
    def g(w, fail):
        it = iter(f(w))
        more = fail(lambda: next(it, END))
        while more() is not END:
            pass
    return g


class Rude:
    provide_counterexample = None


def rejecting(w, fail):
    """An expert who fails to give an example."""
    k = fca.Context([], [], list(w.atts))
    db = ex.ExplorationDB(k, [])
    expert = Rude()
    expert.provide_counterexample = fail(world.Expert(w.cxt).provide_counterexample)
    e = ex.AttributeExploration(db, expert)
    try:
        for _ in range(50):
            open_ = sorted(e.get_open_implications(), key=world.plain_imp)
            bad = [i for i in open_ if not i.conclusion <= w.cxt.aclosure(i.premise)]
            if not bad:
                break
            before = (world.plain_context(k), world.plain_imps(open_))
            e.reject_implication(bad[0])
    except Failed:
        same((world.plain_context(k), world.plain_imps(e.get_open_implications())),
             before, 'the exploration whose expert failed')
        same(world.plain_imps(db.open_implications), world.plain_imps(
            k.get_attribute_implications()), 'its open implications')
        raise


CALLBACKS = {
    'cond': lambda w, fail: w.cxt.get_attribute_implications(cond=fail(lambda p: True)),
    'short cond': lambda w, fail: w.cxt.get_attribute_implications(
        cond=fail(lambda p: len(p) < 2)),
    'basis': lambda w, fail: w.cxt.get_attribute_implications(
        basis=fail(fca.compute_dg_basis_simple)),
    'builder': lambda w, fail: fca.ConceptLattice(w.cxt, builder=fail(fca.norris)),
    'condition': lambda w, fail: w.mv.extract_subcontext_by_condition(
        fail(lambda i: True)),
    'filter': lambda w, fail: fl.filter_concepts(w.lat, fail(fca.compute_istability),
                                                 'value', 0.5),
    'redundant': lambda w, fail: [ic.is_redundant(i, w.imps, close=fail(
        co.simple_closure)) for i in w.imps],
    'expert': rejecting,
    'concepts': iterator(lambda w: w.cxt.iterate_concepts()),
    'implications': iterator(lambda w: w.cxt.attribute_implications_iter()),
    'patterns': iterator(lambda w: world.pt.iterate_positive_concepts(w.cxt, w.neg)),
    'factors': iterator(lambda w: world.fac.algorithm2(w.cxt)),
    'rows': iterator(lambda w: w.cxt),
    'intents': iterator(lambda w: w.cxt.intents()),
}


AGAIN = {'cond': 'basis', 'short cond': 'conditional basis', 'basis': 'basis',
         'builder': 'lattice', 'filter': 'filtered', 'redundant': 'redundancy',
         'expert': 'exploration', 'concepts': 'concept list', 'implications': 'basis',
         'patterns': 'pattern list', 'factors': 'factorisation', 'intents': 'views'}


@subcheck('C23', 'callbacks', st.fixed_dictionaries({
    'world': world.worlds(min_m=1), 'calls': st.lists(st.tuples(
        st.sampled_from(sorted(CALLBACKS)), gen.ints(0, 7)).map(list), min_size=1,
        max_size=3), 'after': world.calls(3)}), quick=500, shards=4,
    rule='up to three computations whose condition, index function, closure operator, '
         'lattice builder or expert fails at some call, and iterators that are left '
         'behind: nothing has changed, and later answers are right; non-trivial: two '
         'objects and two attributes', nontrivial=talk,
    classify=lambda c: sorted({j[0] for j in c['calls']}))
def callbacks(case):
    cw = case['world']
    want = world.run(world.World(cw), case['after'])
    w = world.World(cw)
    for name, n in case['calls']:
        left = [n]
        try:
            CALLBACKS[name](w, lambda f: failing(f, left))
        except Failed:
            pass
        w.verify('after a failure of ' + name)
    got = world.run(w, case['after'])
    for (name, a), x, y in zip(case['after'], got, want):
        same(x, y, 'after %r: %s (%d)' % (case['calls'], name, a))
    # what failed is asked for again when the context has changed
    world.later(w, cw['change'], [[AGAIN[name], n] for name, n in case['calls']
                                  if name in AGAIN] + case['after'])

"""C22 computations in several threads do not disturb each other."""
from hypothesis import strategies as st

import fca
from fca.algorithms import closure_operators as co
from fca.algorithms import implication_covers as ic
from pbt import gen, ref, sched, world
from pbt.core import same, subcheck
from pbt.lib import names
from pbt.props import c06

ASSUMPTIONS = ['threads switch between lines or bytecode instructions of the library; '
               'one step of the interpreter is not divided',
               'computations only read what they share: changes of one object by '
               'several threads are not claimed']

SCHEDULES = st.one_of(
    st.lists(gen.ints(1, 9), min_size=1, max_size=8),
    st.lists(st.one_of(gen.ints(1, 3), gen.ints(1, 400)), min_size=2, max_size=12),
    st.lists(gen.ints(20, 2000), min_size=1, max_size=6))


def shared(case):
    jobs = case['jobs']
    # what each gives on its own
    want = [world.run(world.World(case['world']), todo) for todo in jobs]
    w = world.World(case['world'])
    got, switches = sched.interleave(
        [lambda todo=todo: world.run(w, todo) for todo in jobs],
        case['turns'], case['fine'])
    for i, todo in enumerate(jobs):
        for (name, a), x, y in zip(todo, got[i], want[i]):
            same(x, y, 'thread %d: %s (%d)' % (i, name, a))
    w.verify('afterwards')
    for i, todo in enumerate(jobs):
        same(world.run(w, todo), want[i], 'asked again, as thread %d did' % i)
    if not case['fine']:
        world.later(w, case['world']['change'], jobs[0])


def talk(c):
    return len(c['world']['cxt']['rows']) > 1 and c['world']['cxt']['m'] > 1


subcheck('C22', 'mixed', st.fixed_dictionaries({
    'world': world.worlds(), 'jobs': st.lists(world.calls(3), min_size=2, max_size=3),
    'turns': SCHEDULES, 'fine': st.sampled_from([False, False, False, True])}),
    quick=250, shards=8,
    rule='two or three threads, each with up to three computations on one context, '
         'lattice, concept system, many-valued context, partial context, list of '
         'implications and files; turns of 1 to 2000 lines or instructions: every answer '
         'is the one the thread gets alone, and nothing shared has changed; non-trivial: '
         'two objects and two attributes',
    nontrivial=talk,
    classify=lambda c: sorted({j[0] for t in c['jobs'] for j in t}))(shared)


subcheck('C22', 'larger', st.fixed_dictionaries({
    'world': world.worlds(12, 7, 5, 4),
    'jobs': st.lists(world.calls(4), min_size=2, max_size=4),
    'turns': SCHEDULES, 'fine': st.sampled_from([False, False, False, True])}),
    quick=12, shards=8,
    rule='the same with up to four threads of up to four computations, on contexts of '
         '5 x 4 to 12 x 7', nontrivial=talk,
    classify=lambda c: sorted({j[0] for t in c['jobs'] for j in t}))(shared)


@st.composite
def alike(draw):
    """The same computation in several threads, on one context or on several."""
    name = draw(st.sampled_from(world.NAMES))
    n = draw(gen.ints(2, 3))
    several = draw(st.booleans())
    one = draw(world.worlds())
    return {'name': name, 'args': [draw(gen.ints(0, 999)) for _ in range(n)],
            'same': draw(st.booleans()),
            'worlds': [draw(world.worlds()) for _ in range(n)] if several else [one],
            'turns': draw(SCHEDULES), 'fine': draw(st.sampled_from([False, False, True]))}


@subcheck('C22', 'alike', alike(), quick=350, shards=8,
          rule='the same computation in two or three threads, all about the same things '
               'or each about others; non-trivial: two objects and two attributes',
          nontrivial=lambda c: all(talk({'world': w}) for w in c['worlds']),
          classify=lambda c: [c['name'], 'several' if len(c['worlds']) > 1 else 'one'])
def alike_body(case):
    cases, args = case['worlds'], case['args']
    n = len(args)
    if case['same']:
        args = [args[0]] * n
    f = world.COMPUTE[case['name']]
    want = [f(world.World(cases[i % len(cases)]), a) for i, a in enumerate(args)]
    ws = [world.World(c) for c in cases]
    got, _ = sched.interleave(
        [lambda i=i: f(ws[i % len(ws)], args[i]) for i in range(n)],
        case['turns'], case['fine'])
    for i in range(n):
        same(got[i], want[i], '%s (%d) in thread %d' % (case['name'], args[i], i))
    for w in ws:
        w.verify('after ' + case['name'])
    for i in range(n):
        same(f(ws[i % len(ws)], args[i]), want[i], case['name'] + ' again')


CLOSE = {
    'simple': lambda s, i, atts, n: (True, co.simple_closure(s, i)),
    'linear': lambda s, i, atts, n: (True, co.lin_closure(s, i)),
    'prefix': lambda s, i, atts, n: co.closure(s, list(atts), i, n),
    'redundant': lambda s, i, atts, n: (
        True, {j for j, x in enumerate(i) if ic.is_redundant(x, i[:j] + i[j + 1:])}),
    'respected': lambda s, i, atts, n: (
        True, {j for j, x in enumerate(i) if x.is_respected(s)}),
}


@subcheck('C22', 'closures', st.fixed_dictionaries({
    'imps': c06.case(14, 14),
    'jobs': st.lists(st.lists(st.tuples(st.sampled_from(
        ['linear', 'linear', 'simple', 'prefix', 'redundant', 'respected']),
        gen.big(14)).map(list), min_size=1, max_size=5), min_size=2, max_size=3),
    'turns': SCHEDULES, 'fine': st.sampled_from([False, False, True])}), quick=350,
    shards=8, rule='two or three threads that close sets under one list of '
    'implications and ask which are redundant or respected; non-trivial: the closure of '
    'some set takes more than one round', nontrivial=lambda c: c06.live(c['imps']),
    classify=lambda c: sorted({j[0] for t in c['jobs'] for j in t}))
def closures(case):
    c = case['imps']
    atts, pairs = c['atts'], c['imps']
    full = (1 << len(atts)) - 1
    imps = [fca.Implication(names(p, atts), names(q, atts)) for p, q in pairs]
    # every job starts from the set of the case, too
    jobs = [[('linear', c['s'])] * (i < 2) + [(k, s & full) for k, s in job]
            for i, job in enumerate(case['jobs'])]

    def want(kind, s):
        t = ref.closure(s, pairs)
        keep = (1 << c['pref']) - 1
        if kind == 'prefix' and t & keep != s & keep:
            return False, set()
        if kind == 'redundant':
            return True, {i for i, (p, q) in enumerate(pairs)
                          if not q & ~p & ~ref.closure(p, pairs[:i] + pairs[i + 1:])}
        if kind == 'respected':
            return True, {i for i, (p, q) in enumerate(pairs)
                          if p & ~s or not q & ~p & ~s}
        return True, names(t, atts)
    got, _ = sched.interleave(
        [lambda job=job: [CLOSE[k](names(s, atts), imps, atts, c['pref'])
                          for k, s in job] for job in jobs], case['turns'], case['fine'])
    for i, job in enumerate(jobs):
        for (k, s), (ok, x) in zip(job, got[i]):
            same((bool(ok), set(x)), want(k, s),
                 'thread %d: %s of %r under %r' % (i, k, names(s, atts), imps))
    same([(i.get_premise(), i.get_conclusion()) for i in imps],
         [(names(p, atts), names(q, atts)) for p, q in pairs], 'implications afterwards')

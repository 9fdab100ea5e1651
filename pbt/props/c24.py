"""C24 the same input gives the same answer in every process."""
import base64
import copy
import os
import pickle

from hypothesis import strategies as st

import fca
from fca.algorithms import exploration as basic
from fca.algorithms import filtering as fl
from fca.algorithms import implication_covers as ic
from fca.algorithms import patterns as pt
from fca.algorithms.dg_basis import compute_dg_basis_simple
from fca.algorithms.exploration2 import exploration as two
from fca.algorithms.exploration_ import exploration as ex
from pbt import elsewhere, gen, world
from pbt.core import same, subcheck
from pbt.lib import tmp
from pbt.props.c22 import talk

ASSUMPTIONS = [
    'other processes: of the same interpreter, with other hash seeds, and one of them '
    'with the C locale, where the functions that use the encoding of the locale (write_cxt, read_cxt, '
    'write_dot, write_fimi, read_txt, read_txt_with_names) are asked about ASCII names '
    'only',
    'the order of clarified objects, of compute_implication_cover, of the factors, of filtered concepts '
    'whose stability ties and of the lines of dot, xml and fimi files is not claimed']


def listed(cs):
    return [(world.key(x.extent), world.key(x.intent)) for x in cs]


def imps(xs):
    return [world.plain_imp(i) for i in xs]


def shown(w, xs):
    """Premise and conclusion as they are, in the same order."""
    return [(world.key(i.premise), world.key(i.conclusion)) for i in xs]


def minimized(w, a):
    xs = w.make_imps()
    ic.minimize(xs)
    return shown(w, xs)


def second(w, a):
    s = two.Exploration(two.ExplorationContext(copy.deepcopy(w.cxt))).create_session()
    out = [imps(s.get_candidates())]
    while s.get_candidates() and len(out) < 4:
        s.accept_implication(s.get_candidates()[a % len(s.get_candidates())])
        out.append(imps(s.get_candidates()))
    return out, imps(s.get_accepted_implications())


def explored(w, a):
    """By position: the first, the last or another open implication."""
    db = ex.ExplorationDB(fca.Context([], [], list(w.atts)), [])
    e = ex.AttributeExploration(db, world.Expert(w.cxt))
    log = []
    for _ in range(60):
        open_ = list(e.get_open_implications())
        if not open_:
            break
        i = open_[a % len(open_)]
        log.append(imps(open_))
        if i.conclusion <= w.cxt.aclosure(i.premise):
            e.confirm_implication(i)
        else:
            e.reject_implication(i)
    return log, imps(db.base), world.plain_context(db._cxt)


def by_number(w, a):
    e = basic.BasicExploration(copy.deepcopy(w.cxt))
    log = [imps(e.attribute_implications), imps(e.object_implications)]
    for _ in range(4):
        if e.attribute_implications:
            e.confirm_attribute_implication(a % len(e.attribute_implications))
        log.append((imps(e.attribute_implications),
                    imps(e.confirmed_attribute_implications)))
    return log


def indexed(w, a):
    return [(listed([x]), round(float(v), 9))
            for x, v in fca.compute_separation_index(w.lat).items()]


ORDERED = {
    'concepts': lambda w, a: (listed(w.cxt.concepts), listed(w.cxt.iterate_concepts()),
                              listed(w.cxt.get_concepts()), listed(fca.norris(w.cxt)[0])),
    'lattice': lambda w, a: (listed(fca.ConceptLattice(w.cxt)),
                             str(fca.ConceptLattice(w.cxt))),
    'system': lambda w, a: listed(fca.ConceptSystem(w.cxt.concepts)),
    'positions': lambda w, a: [(w.lat.index(x), listed([w.lat[i]]))
                               for i, x in enumerate(w.lat)],
    'filter': lambda w, a: [(listed(y.filter(x)), listed(y.ideal(x)))
                            for y in (w.lat, w.cs) for x in y],
    'basis': lambda w, a: (shown(w, fca.compute_dg_basis(w.cxt)),
                           shown(w, w.cxt.attribute_implications)),
    'simple basis': lambda w, a: shown(w, compute_dg_basis_simple(w.cxt)),
    'iterated basis': lambda w, a: shown(w, w.cxt.attribute_implications_iter()),
    'object basis': lambda w, a: shown(w, w.cxt.object_implications),
    'incremental basis': lambda w, a: shown(w, w.cxt.get_attribute_canonical_basis()),
    'partial basis': lambda w, a: shown(w, w.partial.get_attribute_implications()),
    'minimized': minimized,
    'pairs': lambda w, a: (list(map(str, w.cxt.object_attribute_pairs)),
                           list(map(str, w.cxt.get_object_attribute_pairs()))),
    'patterns': lambda w, a: listed(pt.iterate_positive_concepts(w.cxt, w.neg)),
    'separation': indexed,
    'first separated': lambda w, a: listed(fl.filter_concepts(
        w.lat, fca.compute_separation_index, 'abs', 1 + a % 5)),
    'implication texts': lambda w, a: [str(i) for i in w.imps],
    'exploration': explored, 'basic exploration': by_number, 'second exploration': second,
    'context text': lambda w, a: (repr(w.cxt), repr(w.mv), repr(w.partial)),
}
for _name in world.NAMES:
    if _name not in ('indices', 'writing', 'reading'):
        ORDERED['op ' + _name] = world.COMPUTE[_name]

# what a written file says, and how it says it where that is claimed
TEXT = ['cxt', 'mv', 'ucxt', 'umv']


def file_text(kind):
    def f(w, a):
        write, read, own = world.FORMATS[kind]
        if not own(w) or local(kind, w):
            return None
        path = tmp('elsewhere')
        write(w, path)
        if kind in ('dot', 'udot', 'fimi'):     # in any order; at most six names a label
            return ''.join(sorted(world.read(path))) if max(
                len(w.objs), len(w.atts)) <= 6 else None
        return world.read(path) if kind in TEXT else None, read(path)
    return f


def local(kind, w):
    """A file in the encoding of the locale: only names that every locale has."""
    return kind in ('cxt', 'dot', 'fimi', 'txt', 'names') and not all(
        str(x).isascii() for x in w.objs + w.atts)


for _name in world.KINDS:
    ORDERED['file ' + _name] = file_text(_name)
KINDS = sorted(ORDERED, key=lambda x: (x != 'basis', x))


def answers(case, w=None):
    w = w or world.World(case['world'], files=False)
    out = []
    for kind, a in case['asks']:
        try:
            out.append(repr(ORDERED[kind](w, a)))
        except Exception as e:              # the same everywhere, too
            out.append('%s: %s' % (type(e).__name__, e))
    return out


SHARED = ['cxt', 'lat', 'cs', 'imps', 'mv', 'scales', 'neg', 'partial']


def packed(w, how):
    return base64.b64encode(pickle.dumps({k: getattr(w, k) for k in SHARED},
                                         how)).decode()


def unpacked(case, text):
    w = world.World(case['world'], files=False)
    w.__dict__.update(pickle.loads(base64.b64decode(text)))
    return w


def equal_objects(case, w):
    """Equal to those that were made here, also as keys."""
    mine = world.World(case['world'], files=False)
    same(w.cxt == mine.cxt and w.neg == mine.neg, True, 'contexts are equal')
    for i, j in zip(w.imps, mine.imps):
        same((i == j, hash(i) == hash(j), len({i, j}), str(i)), (1, True, 1, str(j)),
             'an equal implication')
    for a, b in ((w.lat, mine.lat), (w.cs, mine.cs)):
        for x, y in zip(a, b):
            same((x == y, hash(x) == hash(y), len({x, y}), y in a, a.index(y)),
                 (True, True, 1, True, b.index(y)), 'an equal concept')
            same((listed(a.filter(y)), listed(a.ideal(y)), world.concepts(a.parents(y)),
                  world.concepts(a.children(y))),
                 (listed(b.filter(y)), listed(b.ideal(y)), world.concepts(b.parents(y)),
                  world.concepts(b.children(y))), 'the neighbours of an equal concept')


def serve(case):
    """What a child does."""
    if 'file' in case:
        kind, path, write = case['file']
        f = world.FORMATS[kind][0 if write else 1]
        return f(world.World(case['world'], files=False), path) if write else repr(f(path))
    if 'pickle' not in case:
        return answers(case)
    w = unpacked(case, case['pickle'])
    w.verify('objects from another process')
    equal_objects(case, w)
    out = answers(case, w)
    w.verify('objects from another process, asked')
    return out, packed(w, case['how'])


CHILDREN = {}
BETWEEN = [25]


def children():
    if not CHILDREN:
        CHILDREN['another'] = elsewhere.Elsewhere(1234567)
        CHILDREN['a plain'] = elsewhere.Elsewhere(7654321, plain=True)
    BETWEEN[0] -= 1
    if not BETWEEN[0]:                      # other histories
        BETWEEN[0] = 25
        CHILDREN['a plain'].stop()
    return CHILDREN.items()


def asks(n):
    return st.lists(st.tuples(st.sampled_from(KINDS), gen.ints(0, 9999)).map(list),
                    min_size=3, max_size=n)


@subcheck('C24', 'processes', st.fixed_dictionaries({
    'world': world.worlds(), 'before': world.calls(3, 0), 'asks': asks(8)}),
    quick=150, shards=8,
    rule='3 to 8 questions whose answer has an order or a text, asked twice here (after '
         'other computations, and alone) and, in another order, in two other processes '
         'with other hash seeds, one of them with the C locale and often restarted; '
         'non-trivial: two objects and two attributes',
    nontrivial=talk, classify=lambda c: sorted({j[0] for j in c['asks']}))
def processes(case):
    w = world.World(case['world'])
    world.run(w, case['before'])
    mine = []
    for kind, a in case['asks']:
        mine.append(repr(ORDERED[kind](w, a)))
    w.verify('after the questions')
    asked = {'world': case['world'], 'asks': case['asks']}
    for got, want, (kind, a) in zip(answers(asked), mine, case['asks']):
        same(got, want, 'asked again: %s (%d)' % (kind, a))
    back = {'world': case['world'], 'asks': case['asks'][::-1]}
    for which, child in children():
        for got, want, (kind, a) in zip(child.ask(back), mine[::-1], back['asks']):
            same(got, want, 'in %s process: %s (%d)' % (which, kind, a))


subcheck('C24', 'larger', st.fixed_dictionaries({
    'world': world.worlds(12, 7, 5, 4), 'before': world.calls(2, 0), 'asks': asks(5)}),
    quick=40, shards=8, rule='the same on contexts of 5 x 4 to 12 x 7',
    nontrivial=talk, classify=lambda c: sorted({j[0] for j in c['asks']}))(processes)


@subcheck('C24', 'pickled', st.fixed_dictionaries({
    'world': world.worlds(), 'before': world.calls(3, 0), 'asks': asks(6),
    'how': gen.ints(0, pickle.HIGHEST_PROTOCOL), 'after': st.booleans()}),
    quick=100, shards=8,
    rule='contexts, lattices, concept systems, implications, many-valued and partial '
         'contexts and scales, pickled before or after questions, loaded in two other '
         'processes, asked there, pickled there and loaded here; non-trivial: two objects '
         'and two attributes',
    nontrivial=talk, classify=lambda c: sorted({j[0] for j in c['asks']}))
def pickled(case):
    w = world.World(case['world'], files=False)
    world.run(w, [x for x in case['before'] if x[0] not in ('writing', 'reading')])
    asked = {'world': case['world'], 'asks': case['asks'], 'how': case['how']}
    want = answers(asked)
    if case['after']:
        answers(asked, w)
    asked['pickle'] = packed(w, case['how'])
    for which, child in children():
        got, back = child.ask(asked)
        same(got, want, 'of pickled objects in %s process: %r' % (which, case['asks']))
        w = unpacked(case, back)
        w.verify('pickled in %s process' % which)
        equal_objects(asked, w)
        same(answers(asked, w), want, 'pickled in %s process: %r' % (which, case['asks']))


@subcheck('C24', 'files', st.fixed_dictionaries({
    'world': world.worlds(), 'kinds': st.lists(st.sampled_from(
        [k for k in world.KINDS if k not in ('dot', 'udot', 'fimi')]), min_size=1,
        max_size=4), 'there': st.booleans()}), quick=60, shards=4,
    rule='one to four files, written here or in a process with another hash seed and '
         'read in another process with the C locale, or the other way round; '
         'non-trivial: two objects and two attributes',
    nontrivial=talk, classify=lambda c: c['kinds'])
def files(case):
    w = world.World(case['world'])
    order = [x for _, x in children()]
    if case['there']:
        order.reverse()
    for kind in case['kinds']:
        write, read, own = world.FORMATS[kind]
        if not own(w) or local(kind, w):
            continue
        want = repr(read(w.files[kind]))
        same([x.ask({'world': case['world'], 'file': [kind, os.path.abspath(
            w.files[kind]), False]}) for x in order], [want] * 2,
            'a %s file read in other processes' % kind)
        path = os.path.abspath(tmp('written'))
        order[0].ask({'world': case['world'], 'file': [kind, path, True]})
        same((order[1].ask({'world': case['world'], 'file': [kind, path, False]}),
              repr(read(path))), (want, want),
             'a %s file written in another process' % kind)
    w.verify('after files')

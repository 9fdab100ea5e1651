"""Things several computations share, and computations that should leave them alone.

Every computation takes the world and a number that says which; it returns plain
data that only depends on what the world holds, never on the order of sets.
"""
import copy
import os
import pickle

from hypothesis import strategies as st

import fca
from fca import readwrite as rw
from fca.algorithms import closure_operators as co
from fca.algorithms import exploration as basic
from fca.algorithms import factors as fac
from fca.algorithms import filtering as fl
from fca.algorithms import implication_covers as ic
from fca.algorithms import patterns as pt
from fca.algorithms.dg_basis import compute_dg_basis_simple
from fca.algorithms.exploration2 import exploration as two
from fca.algorithms.exploration_ import exploration as ex
from fca.partial_context import PartialContext
from fca.readwrite import tab_separated as tab
from fca.readwrite.comma_separated import read_csv, read_mv_csv
from fca.readwrite.dot import uwrite_dot
from fca.readwrite.fimi import write_fimi
from fca.readwrite.xml_ import uread_xml
from fca.scale import NominalScale, OrdinalScale
from pbt import gen
from pbt.core import same
from pbt.lib import build, check_context, names, table, tmp


@st.composite
def worlds(draw, max_n=5, max_m=4, min_n=0, min_m=0):
    c = draw(gen.context(max_n=max_n, max_m=max_m, kinds=gen.FILE_NAMES,
                         forms=['bool', 'bool', 'numpy'], min_n=min_n, min_m=min_m))
    n, m = len(c['rows']), c['m']
    return {'cxt': c, 'neg': draw(gen.rows(draw(gen.ints(0, 3)), m)),
            'imps': draw(st.lists(st.tuples(gen.big(m), gen.big(m)).map(list),
                                  max_size=4)),
            'change': draw(gen.ints(0, 9999)),
            'values': draw(st.lists(st.lists(gen.ints(0, 3), min_size=2, max_size=2),
                                    min_size=n, max_size=n))}


class World:
    def __init__(self, case, files=True):
        self.case = case
        c = self.c = case['cxt']
        self.objs, self.atts, self.m = list(c['objs']), list(c['atts']), c['m']
        self.cxt = build(c)
        self.lat = fca.ConceptLattice(build(c))
        for i, x in enumerate(self.lat):
            x.meta = {'p': i / 7}
        self.cs = fca.ConceptSystem(list(fca.ConceptLattice(build(c))))
        self.imps = self.make_imps()
        self.mv = fca.ManyValuedContext([list(r) for r in case['values']],
                                        list(self.objs), ['v', 'w'])
        self.scales = [NominalScale(0, self.mv), OrdinalScale(0, 3)]
        self.neg = fca.Context(table({'rows': case['neg'], 'm': self.m}),
                               ['n%d' % i for i in range(len(case['neg']))],
                               list(self.atts))
        x = table({'rows': [r & r >> 1 for r in c['rows']], 'm': self.m})
        q = table({'rows': [r & r >> 1 | r for r in c['rows']], 'm': self.m})
        self.partial = PartialContext(x, q, list(self.objs), list(self.atts))
        self.files = {}
        if files:
            for kind, (write, _, own) in sorted(FORMATS.items()):
                if own(self):
                    self.files[kind] = tmp('shared.' + kind)
                    write(self, self.files[kind])
            self.text = {k: read(p) for k, p in self.files.items()}

    def make_imps(self):
        return [fca.Implication(names(p, self.atts), names(q, self.atts))
                for p, q in self.case['imps']]

    def verify(self, what):
        """Everything is as it was made."""
        fresh = World(self.case, files=False)
        tab_ = table(self.c)
        check_context(self.cxt, tab_, self.objs, self.atts, what + ': context')
        same(facts(self.cxt), facts(fresh.cxt), what + ': derivations')
        check_context(self.lat.context, tab_, self.objs, self.atts, what + ': lattice')
        for mine, theirs in ((self.lat, fresh.lat), (self.cs, fresh.cs)):
            same(order(mine), order(theirs), what + ': concepts')
            same([x.meta for x in mine], [x.meta for x in theirs], what + ': meta')
        same([plain_imp(i) for i in self.imps], [plain_imp(i) for i in fresh.imps],
             what + ': implications')
        same(many(self.mv), many(fresh.mv), what + ': values')
        same([plain_context(s) for s in self.scales],
             [plain_context(s) for s in fresh.scales], what + ': scales')
        same(plain_context(self.neg), plain_context(fresh.neg), what + ': other context')
        same(plain_partial(self.partial), plain_partial(fresh.partial),
             what + ': partial context')
        for k, p in self.files.items():
            same(read(p), self.text[k], what + ': file ' + k)


def read(path):
    with open(path, encoding='utf-8', newline='') as f:
        return f.read()


def key(s):
    return tuple(sorted(map(str, s)))


def concepts(cs):
    return sorted((key(x.extent), key(x.intent)) for x in cs)


def order(cs):
    cs_ = list(cs)
    out = []
    for x in cs_:
        out.append((key(x.extent), key(x.intent), concepts(cs.parents(x)),
                    concepts(cs.children(x))))
    return sorted(out)


def plain_imp(i):
    return key(i.premise), key(i.premise | i.conclusion)


def plain_imps(imps):
    return sorted(map(plain_imp, imps))


def plain_context(k):
    return (list(map(str, k.objects)), list(map(str, k.attributes)),
            [[bool(v) for v in r] for r in k])


def many(k):
    return list(k.objects), list(k.attributes), [[str(v) for v in r] for r in k]


def plain_partial(p):
    return (list(p.objects), list(p.attributes),
            [(key(a), key(b)) for a, b in p.intents()])


def facts(k):
    return ([key(k.get_object_intent(o)) for o in k.objects],
            [key(k.get_attribute_extent(a)) for a in k.attributes],
            [key(k.aclosure([a])) for a in k.attributes],
            [key(k.oclosure([o])) for o in k.objects], key(k.aclosure([])))


# kind: (write, read, can it be written)
FORMATS = {
    'cxt': (lambda w, p: rw.write_cxt(w.cxt, p), lambda p: plain_context(rw.read_cxt(p)),
            lambda w: True),
    'ucxt': (lambda w, p: rw.uwrite_cxt(w.cxt, p),
             lambda p: plain_context(rw.uread_cxt(p)), lambda w: True),
    'xml': (lambda w, p: rw.write_xml(p, w.lat),
            lambda p: sorted((key(x.extent), key(x.intent), sorted(x.meta.items()))
                             for x in rw.read_xml(p)), lambda w: True),
    'uxml': (lambda w, p: rw.write_xml(p, w.cs),
             lambda p: concepts(uread_xml(p)), lambda w: True),
    'mv': (lambda w, p: rw.write_mv_txt(w.mv, p), lambda p: many(rw.read_mv_txt(p)),
           lambda w: True),
    'umv': (lambda w, p: tab.uwrite_mv_txt(w.mv, p), lambda p: many(tab.uread_mv_txt(p)),
            lambda w: True),
    'csv': (lambda w, p: put_csv(p, w.mv), lambda p: many(read_mv_csv(p)),
            lambda w: True),
    'csv1': (lambda w, p: put_csv(p, w.cxt), lambda p: plain_context(read_csv(p)),
             lambda w: w.m > 0),
    'txt': (lambda w, p: put_txt(p, w, False), lambda p: plain_context(rw.read_txt(p)),
            lambda w: w.m > 0),
    'names': (lambda w, p: put_txt(p, w, True),
              lambda p: plain_context(rw.read_txt_with_names(p)), lambda w: w.m > 0),
    'dot': (lambda w, p: rw.write_dot(w.lat, p), lambda p: sorted(read(p).split('\n')),
            lambda w: True),
    'udot': (lambda w, p: uwrite_dot(w.cs, p, full=True), lambda p: len(read(p)),
             lambda w: True),
    'fimi': (lambda w, p: write_fimi(w.cxt, p),
             lambda p: [sorted(l.split()) for l in read(p).split('\n')], lambda w: True),
}
KINDS = sorted(FORMATS)


def put_csv(path, k):
    with open(path, 'w', encoding='utf-8') as f:
        f.write(','.join('"%s"' % a for a in k.attributes) + '\n')
        for o, r in zip(k.objects, k):
            f.write(','.join(['"%s"' % o] + [str(int(v)) for v in r]) + '\n')


def put_txt(path, w, with_names):
    with open(path, 'w', encoding='utf-8') as f:
        f.write('\t'.join(w.atts) + '\n\n')
        for o, r in zip(w.objs, table(w.c)):
            f.write('\t'.join([o] * with_names + [str(int(v)) for v in r]) + '\n')


def subset(w, a):
    return names(a * 2654435761 >> 5 & (1 << w.m) - 1, w.atts)


def osubset(w, a):
    return names(a * 2654435761 >> 9 & (1 << len(w.objs)) - 1, w.objs)


COMPUTE = {}


def op(f):
    COMPUTE[f.__name__.replace('_', ' ')] = f
    return f


@op
def concept_list(w, a):
    return concepts([w.cxt.iterate_concepts, w.cxt.get_concepts, lambda: w.cxt.concepts,
                     lambda: fca.norris(w.cxt)[0]][a % 4]())


@op
def lattice(w, a):
    l = fca.ConceptLattice(w.cxt)
    return order(l), concepts([l.top_concept, l.bottom_concept])


@op
def lattice_queries(w, a):
    l = (w.lat, w.cs)[a % 2]
    x = l[a // 2 % len(l)]
    return (concepts(l.parents(x)), concepts(l.children(x)), concepts(l.filter(x)),
            concepts(l.ideal(x)), concepts([l.top_concept, l.bottom_concept]),
            l.index(x), x in l, str(l) == str(l), len(l))


@op
def covering_relation(w, a):
    got = fca.compute_covering_relation(w.cs) if a % 2 else w.cs.compute_covering_relation()
    return sorted((concepts([x]), concepts(y)) for x, y in got.items())


@op
def basis(w, a):
    k = w.cxt
    return plain_imps([
        lambda: k.attribute_implications, lambda: k.get_attribute_implications(),
        lambda: list(k.attribute_implications_iter()),
        lambda: k.get_attribute_implications(basis=compute_dg_basis_simple),
        lambda: fca.compute_dg_basis(k)][a % 5]())


@op
def object_basis(w, a):
    return plain_imps(w.cxt.object_implications)


@op
def incremental_basis(w, a):
    return plain_imps(w.cxt.get_attribute_canonical_basis())


@op
def conditional_basis(w, a):
    most = a % 3
    return plain_imps(w.cxt.get_attribute_implications(cond=lambda p: len(p) <= most))


@op
def relative_basis(w, a):
    s = subset(w, a)
    bg = [fca.Implication(set(s), set(w.cxt.aclosure(s)))]
    out = plain_imps(w.cxt.get_attribute_implications(confirmed=bg))
    return out, plain_imps(bg)


@op
def derivations(w, a):
    k, s, o = w.cxt, subset(w, a), osubset(w, a)
    si = [i for i, x in enumerate(w.atts) if x in s]
    oi = [i for i, x in enumerate(w.objs) if x in o]
    return (key(k.aprime(s)), key(k.aclosure(s)), key(k.oprime(o)), key(k.oclosure(o)),
            key(k.aprime_inds(si)), key(k.oprime_inds(oi)), key(co.aclosure(s, k)),
            key(co.oclosure(o, k)), key(co.aprime(s, k)), key(co.oprime(o, k)),
            facts(k))


@op
def views(w, a):
    k = w.cxt
    return (repr(k), [key(x) for x in k.intents()], plain_context(k),
            sorted(map(str, k.get_object_attribute_pairs())), len(k),
            k == w.lat.context, k == w.neg, k == copy.deepcopy(k))


@op
def derived(w, a):
    k, s = w.cxt, [x for x in w.atts if x in subset(w, a // 9)]
    return plain_context([
        k.transpose, k.complementary, k.compound, lambda: k * k.transpose(),
        lambda: k.extract_subcontext(s),
        lambda: k.extract_subcontext_filtered_by_attributes(s, ('and', 'or')[a % 2]),
        lambda: copy.copy(k), lambda: pickle.loads(pickle.dumps(k)),
        lambda: fca.Context(k.table, k.objects, k.attributes)][a % 9]())


@op
def reduced(w, a):
    k = w.cxt
    got = [k.clarify_objects, k.reduce_objects, k.reduce_attributes][a % 3]()
    if a % 3 == 0:                          # any order
        return sorted(zip(*plain_context(got)[::2])), list(got.attributes)
    return plain_context(got)


@op
def changes(w, a):
    """A history of a copy's own."""
    k = copy.deepcopy(w.cxt)
    out = [plain_imps(k.attribute_implications)]
    k.add_object([bool(a >> j & 1) for j in range(w.m)], 'added')
    out.append(concepts(k.concepts))
    k.add_attribute([bool(a >> i & 1) for i in range(len(k))], 'added too')
    k.rename_object('added', 'renamed')
    out.append(plain_imps(k.attribute_implications))
    if w.m:
        k.delete_attribute(w.atts[a % w.m])
    k.set_object_intent(list(k.attributes)[:2], 'renamed')
    out += [plain_context(k), plain_imps(k.get_attribute_canonical_basis())]
    return out


@op
def factorisation(w, a):
    f = (fac.algorithm2, fac.algorithm2_weighted)[a % 2]
    got = [x for x, _ in f(w.cxt)]
    p, q = fac.make_factor_cxts(got)
    return sorted(map(str, (p * q).object_attribute_pairs)), all(
        x in concepts(w.cs) for x in concepts(got))


@op
def conditional_factors(w, a):
    got = [x[0] for x in fac.algorithm2_w_condition(w.cxt, min_atts_and_objs=1)]
    return all(x in concepts(w.cs) for x in concepts(got))


@op
def cover(w, a):
    imps = ic.compute_implication_cover(w.cxt)
    if a % 2:
        ic.minimize(imps)
    sets = [names(s, w.atts) for s in range(1 << w.m)]
    return [key(co.simple_closure(s, imps)) for s in sets]


@op
def redundancy(w, a):
    imps = w.make_imps()
    ic.minimize(imps)
    return [bool(ic.is_redundant(x, w.imps[:i] + w.imps[i + 1:]))
            for i, x in enumerate(w.imps)], len(imps)


@op
def closures(w, a):
    s = subset(w, a)
    out = [key(co.simple_closure(s, w.imps)), key(co.lin_closure(s, w.imps))]
    ok, t = co.closure(s, list(w.atts), w.imps, a % (w.m + 1))
    return out + [bool(ok), key(t), key(s)]


@op
def implications(w, a):
    s = subset(w, a)
    out = []
    for i in w.imps:
        j = copy.deepcopy(i)
        k = pickle.loads(pickle.dumps(i))
        out.append((bool(i.is_respected(s)), i == j == k, hash(i) == hash(j) == hash(k),
                    plain_imp(i), fca.Implication.str2imp(str(i)) == i
                    if not set(''.join(w.atts)) & set(',=>') else True))
    return out


@op
def indices(w, a):
    fs = [fca.compute_istability, fca.compute_estability, fca.compute_separation_index]
    if w.objs:
        fs += [fca.compute_probability, fl.compute_extent_size]
    got = fs[a % len(fs)](w.lat)
    return sorted((key(x.extent), key(x.intent), round(float(v), 9))
                  for x, v in got.items())


@op
def filtered(w, a):
    return concepts(fl.filter_concepts(w.lat, fca.compute_istability, 'value',
                                       a % 5 / 4 - 1e-12))


@op
def pattern_list(w, a):
    return sorted(key(x.intent) for x in pt.iterate_positive_concepts(w.cxt, w.neg))


@op
def scaled(w, a):
    return plain_context(fca.scale_mvcontext(w.mv, w.scales))


@op
def values(w, a):
    k = w.mv
    i = a // 5 % max(1, len(w.objs))
    return many([
        k.transpose, lambda: k.extract_subcontext(['w']), lambda: copy.deepcopy(k),
        lambda: k.extract_subcontext_by_condition(lambda j: j >= i),
        lambda: k.extract_subcontext_by_attribute_values({'v': a // 5 % 4})][a % 5]()), \
        repr(k)


@op
def partial(w, a):
    p = w.partial
    return (key(p.xq_aclosure(subset(w, a))), plain_partial(p.transpose()),
            plain_partial(copy.deepcopy(p)), repr(p),
            not p.get_attribute_implications())


@op
def partial_additions(w, a):
    p = copy.deepcopy(w.partial)
    s, t = subset(w, a), subset(w, a // 7)
    p.add_object_with_intent((s & t, t), 'added')
    try:
        p.complete(w.imps)
    except ValueError:
        pass
    return plain_partial(p)


@op
def writing(w, a):
    write, read_, own = FORMATS[KINDS[a % len(KINDS)]]
    if not own(w):
        return None
    path = tmp('own')
    write(w, path)
    return read_(path)


@op
def reading(w, a):
    kind = KINDS[a % len(KINDS)]
    return FORMATS[kind][1](w.files[kind]) if kind in w.files else None


class Expert:
    """Knows the shared context."""

    def __init__(self, cxt):
        self.cxt = cxt

    def provide_counterexample(self, imp):
        for o in self.cxt.objects:
            s = self.cxt.get_object_intent(o)
            if imp.premise <= s and not imp.conclusion <= s:
                return [o], [s]


@op
def exploration(w, a):
    """Of an empty context until nothing is open, knowing the shared one."""
    k = fca.Context([], [], list(w.atts))
    db = ex.ExplorationDB(k, [])
    e = ex.AttributeExploration(db, Expert(w.cxt))
    for _ in range(200):
        open_ = sorted(e.get_open_implications(), key=plain_imp)
        if not open_:
            break
        imp = open_[a % len(open_)]
        if imp.conclusion <= w.cxt.aclosure(imp.premise):
            e.confirm_implication(imp)
        else:
            e.reject_implication(imp)
    return [key(co.simple_closure(names(s, w.atts), db.base)) for s in range(1 << w.m)]


@op
def basic_exploration(w, a):
    e = basic.BasicExploration(w.cxt)
    out = [plain_imps(e.attribute_implications), plain_imps(e.object_implications)]
    while e.attribute_implications:
        e.confirm_attribute_implication(a % len(e.attribute_implications))
    return out + [plain_imps(e.confirmed_attribute_implications)]


@op
def second_exploration(w, a):
    s = two.Exploration(two.ExplorationContext(copy.deepcopy(w.cxt))).create_session()
    out = [plain_imps(s.get_candidates())]
    for _ in range(2):
        open_ = sorted(s.get_candidates(), key=plain_imp)
        if open_:
            s.accept_implication(open_[a % len(open_)])
    return out + [plain_imps(s.get_candidates()),
                  plain_imps(s.get_accepted_implications())]


NAMES = sorted(COMPUTE, key=lambda x: (x != 'basis', x))


def calls(max_size, min_size=1):
    return st.lists(st.tuples(st.sampled_from(NAMES), gen.ints(0, 9999)).map(list),
                    min_size=min_size, max_size=max_size)


def change(w, a):
    """Change one row or one column of the shared context, and make anew what shows it."""
    case, c = w.case, w.c
    rows, n, m = list(c['rows']), len(w.objs), w.m
    x = a * 2654435761 >> 7
    if a % 3 and n:
        i = a // 3 % n
        rows[i] = x & (1 << m) - 1
        w.cxt.set_object_intent(names(rows[i], w.atts), w.objs[i])
    elif m:
        j = a // 3 % m
        rows = [r & ~(1 << j) | (x >> i & 1) << j for i, r in enumerate(rows)]
        w.cxt.set_attribute_extent(
            {o for i, o in enumerate(w.objs) if x >> i & 1}, w.atts[j])
    w.case = dict(case, cxt=dict(c, rows=rows))
    new = World(w.case, files=bool(w.files))
    new.cxt = w.cxt
    w.__dict__.update(new.__dict__)


def later(w, a, todo):
    """The answers after a change are those on fresh objects, too."""
    change(w, a)
    got = run(w, todo)                      # first: nothing else was asked yet
    want = run(World(w.case), todo)
    for (name, b), x, y in zip(todo, got, want):
        same(x, y, 'after a change (%d): %s (%d)' % (a, name, b))
    w.verify('after a change')


def run(w, todo):
    return [COMPUTE[name](w, a) for name, a in todo]

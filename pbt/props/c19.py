"""C19 concept systems as xml, and exports of contexts and diagrams."""
import re
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

import fca
from fca.readwrite import read_xml, write_xml, write_dot
from fca.readwrite.dot import uwrite_dot
from fca.readwrite.fimi import write_fimi
from fca.readwrite.xml_ import uread_xml
from pbt import gen, ref
from pbt.core import check, same, raises, subcheck
from pbt.lib import build, mask, names, table, tmp

ASSUMPTIONS = ['names are strings without control characters and white space around '
               'them, or integers (read back from xml as strings); for fimi '
               'without spaces', 'meta names are words of letters and digits with single '
               'spaces, meta values are numbers',
               'the concepts of a concept system have distinct intents']

STRANGE = ['a', '<b>', '&amp;', 'x & y', '"q"', "it's", 'ä', '名', 'a  b', ']]>',
           '<!-- c -->', '0', 'o1', 'a1', '\U0001f600', 'B', 'object', '%s', '{0}', '-',
           'a\\nb', '&', '<', '>', 'x' * 60, 'e\u0301', 'é', '#1', 'A', 'a b']
# names that look like markup of diagrams
DOTTY = STRANGE + ['\\', '\\\\', 'a\\', '\\"', '"', '\\n b', 'l\\N', '];', '\\G', '{a|b}']
KINDS = ['letters', 'reversed', 'numbered', 'shuffled', 'prefix']
KEYS = ['stability', 'Extent size', 'p', 'Intensional stability', 'Probability index',
        'x1 y2']
FLOATS = st.one_of(st.floats(0, 1), st.sampled_from(
    [0.0, 1.0, 1 / 3, 1e-17, 5e-324, 12345.678, -2.5, 1e22, 0.1 + 0.2]), gen.ints(0, 9))


@st.composite
def system(draw, strange, max_n=6, max_m=5, kinds=KINDS):
    c = draw(gen.context(max_n=max_n, max_m=max_m, kinds=kinds, forms=['bool']))
    n = len(c['rows'])
    if draw(st.booleans()):
        c['objs'] = draw(st.permutations(strange))[:n]
    if draw(st.booleans()):
        c['atts'] = draw(st.permutations(strange))[:c['m']]
    return dict(c, keep=draw(st.sampled_from(['lattice', 'lattice', 'system', 'some'])),
                some=draw(gen.ints(0, 2 ** 20)), rot=draw(gen.ints(0, 50)),
                form=draw(st.sampled_from(['bool', 'numpy'])))


def concepts_of(c):
    """What is written: a lattice, or a concept system with some of its concepts."""
    k = build(c)
    if c['keep'] == 'lattice':
        return fca.ConceptLattice(k)
    cs = list(k.concepts)
    if c['keep'] == 'some':
        cs = [x for i, x in enumerate(cs) if c['some'] >> i % 20 & 1]
    r = c['rot'] % max(1, len(cs))
    return fca.ConceptSystem(cs[r:] + cs[:r])


def plain(cs):
    return [(set(x.extent), set(x.intent), dict(x.meta)) for x in cs]


@subcheck('C19', 'xml', st.fixed_dictionaries({
    'cs': system(STRANGE, kinds=KINDS + ['ints', 'ints0']), 'meta': st.lists(st.dictionaries(
        st.sampled_from(KEYS), FLOATS, max_size=3), min_size=1, max_size=5)}),
    quick=2500, shards=4,
    rule='the lattice of a random context or a part of it, with meta data, written, '
         'parsed by an independent xml parser and read back; non-trivial: at least two '
         'concepts',
    nontrivial=lambda c: len(set(c['cs']['rows'])) > 1 and c['cs']['m'] > 0,
    classify=lambda c: [c['cs']['keep']])
def xml(case):
    cs = concepts_of(case['cs'])
    for i, x in enumerate(cs):
        x.meta = dict(case['meta'][i % len(case['meta'])])
    kept = plain(cs)
    want = [(set(map(str, e)), set(map(str, i)), m) for e, i, m in kept]
    path = tmp('cs.xml')
    with open(path, 'w') as f:
        f.write('old contents\n' * 50)
    write_xml(path, cs)
    same(plain(cs), kept, 'the system that was written')
    # an independent reader
    root = ET.parse(path).getroot()
    text = {}
    for kind in ('object', 'attribute'):
        for e in root.find(kind + 's'):
            check((kind, e.get('id')) not in text, 'id {!r} is used twice', e.get('id'))
            text[kind, e.get('id')] = (e.text or '').strip()
    got = []
    for e in root.find('concepts'):
        got.append(({text['object', o.get('ref')] for o in e.find('extent')},
                    {text['attribute', a.get('ref')] for a in e.find('intent')},
                    {k.replace('_', ' '): float(v)
                     for k, v in e.find('meta').attrib.items()}))
    same(got, want, 'written')
    for read in (read_xml, uread_xml, fca.read_xml):
        back = read(path)
        check(isinstance(back, fca.ConceptSystem), 'a concept system')
        same(plain(back), want, 'read back')
        same(len(back), len(cs), 'length')
        for x, y in zip(back, want):
            same(x, fca.Concept(y[0], y[1]), 'concept')
    again = tmp('again.xml')
    first = read_xml(path)
    write_xml(again, first)
    same(plain(read_xml(again)), want, 'read, written and read again')
    same(plain(first), want, 'what was read first')


LABEL = re.compile(r'^c(\d+) -> c(\d+)\[(head|tail)label="(.*)", labeldistance=[\d.]+,'
                   r'labelangle=\d+,color=transparent\]$')
NODE = re.compile(r'^c(\d+) \[width=0.25\]$')
EDGE = re.compile(r'^c(\d+) -> c(\d+)$')


def parse_dot(text):
    lines = text.split('\n')
    same((lines[0], lines[-1]), ('digraph L{', '}'), 'frame of the dot file')
    nodes, edges, labels = [], [], {}
    for l in lines[1:-1]:
        if l.startswith(('nodesep', 'node[', 'edge[')):
            continue
        if LABEL.match(l):
            i, j, side, s = LABEL.match(l).groups()
            check(i == j and (int(i), side) not in labels, 'label {!r}', l)
            labels[int(i), side] = s
        elif NODE.match(l):
            nodes.append(int(NODE.match(l).group(1)))
        elif EDGE.match(l):
            edges.append(tuple(map(int, EDGE.match(l).groups())))
        else:
            check(False, 'unexpected line {!r}', l)
    return nodes, edges, labels


def listed_in(text):
    """The names in a label, as graphviz reads it."""
    out, i = [''], 0
    while i < len(text):
        c = text[i]
        check(c != '"', 'the label {!r} ends early', text)
        if c == '\\':
            check(text[i + 1:i + 2] in ('\\', '"') or text[i + 1:i + 3] == 'n ',
                  'label {!r}', text)
            if text[i + 1] == 'n':
                out.append('')
                i += 3
                continue
            i += 1
            c = text[i]
        out[-1] += c
        i += 1
    return out


def check_label(got, own, most, counted, what):
    """own: the set of names; most names are listed, or all are only counted."""
    if not own:
        check(got is None, '{}: unexpected label {!r}', what, got)
        return
    check(got is not None, '{}: no label, expected {!r}', what, own)
    if counted(len(own)):
        same(got, str(len(own)), what + ': number')
        return
    listed = listed_in(got)
    own = set(map(str, own))
    if len(own) > most:
        same((len(listed), listed[-1]), (most + 1, '...'), what + ': shortened label')
        listed = listed[:-1]
        check(len(set(listed)) == most and set(listed) <= own, '{}: label {!r}', what, got)
    else:
        same(sorted(listed), sorted(own), what + ': label')


@subcheck('C19', 'dot', system(DOTTY, max_n=12, max_m=8, kinds=KINDS + ['ints', 'ints0']),
          quick=2500, shards=3,
          rule='the diagram of the lattice of a random context or of a part of it: nodes, '
               'edges and labels are read from the file; non-trivial: at least two '
               'concepts', nontrivial=lambda c: len(set(c['rows'])) > 1 and c['m'] > 0,
          classify=lambda c: [c['keep']])
def dot(case):
    c = case
    cs = concepts_of(c)
    ints = [mask(x.intent, c['atts']) for x in cs]
    exts = [mask(x.extent, c['objs']) for x in cs]
    raises(AssertionError, write_dot, cs, '')
    raises(AssertionError, uwrite_dot, cs, '')
    cov = ref.covers(ints)
    want = sorted((ints.index(p), i) for i, x in enumerate(ints) for p in cov[x])
    own = {}
    for i, (e, b) in enumerate(zip(exts, ints)):
        lower = [x for x in exts if x & e == x and x != e]
        upper = [x for x in ints if x & b == x and x != b]
        own[i, 'head'] = {o for k, o in enumerate(c['objs']) if e >> k & 1 and
                          not any(x >> k & 1 for x in lower)}
        own[i, 'tail'] = {a for k, a in enumerate(c['atts']) if b >> k & 1 and
                          not any(x >> k & 1 for x in upper)}
    for what, f, most, counted in (
            ('write_dot', lambda p: write_dot(cs, p), 99, lambda n: n >= 5),
            ('uwrite_dot', lambda p: uwrite_dot(cs, p), 99, lambda n: True),
            ('uwrite_dot full', lambda p: uwrite_dot(cs, p, full=True), 6,
             lambda n: False)):
        path = tmp('d.dot')
        f(path)
        with open(path, encoding='utf-8', newline='') as h:
            nodes, edges, labels = parse_dot(h.read())
        same(sorted(nodes), list(range(len(ints))), what + ': nodes')
        same(sorted(edges), want, what + ': edges')
        for key in own:
            check_label(labels.pop(key, None), own[key], most, counted,
                        '%s: %s of c%d' % (what, key[1], key[0]))
        check(not labels, '{}: labels {!r}', what, labels)
    if c['keep'] == 'lattice':
        # every object and attribute is at exactly one concept
        for side, all_ in (('head', c['objs']), ('tail', c['atts'])):
            same(sorted(x for k, s in own.items() if k[1] == side for x in s),
                 sorted(all_), side + ' labels')


@subcheck('C19', 'large', system(STRANGE, max_n=14, max_m=10), quick=60, shards=4,
          rule='diagrams and xml of contexts up to 14 x 10',
          nontrivial=lambda c: len(set(c['rows'])) > 1 and c['m'] > 0)
def large(c):
    dot(c)
    xml({'cs': c, 'meta': [{'stability': 1 / 3, 'p': 2}, {'x1 y2': 1e-17}]})


@st.composite
def vast(draw):
    c = draw(st.one_of(gen.large(), gen.huge()))
    for side in ('objs', 'atts'):
        c[side] = [str(x) for x in c[side]]
    return dict(c, keep=draw(st.sampled_from(['lattice', 'system'])),
                rot=draw(gen.ints(0, 50)), form='bool')


@subcheck('C19', 'vast', vast(), quick=40, shards=4,
          rule='diagrams and xml of contexts with 1 to 3 lines one way and 31 to 2049 '
               'the other', nontrivial=lambda c: len(set(c['rows'])) > 1)
def vast_systems(c):
    large(c)


@subcheck('C19', 'fimi', gen.context(max_n=12, max_m=10, tall=(60, 8), wide=(8, 70), kinds=[
    'letters', 'reversed', 'numbered', 'shuffled', 'ints', 'ints0', 'prefix']),
    quick=2500, shards=1,
    rule='a random context as transactions: a line per object, its attributes in any '
         'order; non-trivial: the table is not empty',
    nontrivial=lambda c: c['rows'] and c['m'] > 0)
def fimi(case):
    path = tmp('f.dat')
    write_fimi(build(case), path)
    with open(path, encoding='utf-8') as f:
        lines = f.read().split('\n')
    same(lines.pop(), '', 'end of the file')
    same([sorted(l.split()) for l in lines],
         [sorted(str(a) for a, v in zip(case['atts'], r) if v) for r in table(case)],
         'transactions')


@subcheck('C19', 'large fimi', gen.huge(kinds=('numbered', 'shuffled', 'ints')), quick=12,
          shards=2, rule='transactions of contexts with 1 to 3 lines one way and 1001 to '
          '2049 the other; non-trivial: always', nontrivial=lambda c: True)
def large_fimi(case):
    fimi(case)

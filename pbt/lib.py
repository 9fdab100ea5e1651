"""Build real objects of the code under test from cases."""
import os
import tempfile

import numpy as np

import fca
from pbt import ref
from pbt.core import check, same, Violation


def table(case):
    m = case['m']
    return [[bool(r >> j & 1) for j in range(m)] for r in case['rows']]


def as_form(tab, form, m):
    if form == 'int':
        return [[int(v) for v in r] for r in tab]
    if form == 'numpy':
        return np.array(tab, dtype=bool).reshape(len(tab), m)
    if form == 'tuple':
        return tuple(tuple(r) for r in tab)
    return tab


def equal_copy(x):
    """An equal name, as far as possible not the same object."""
    return x[:1] + x[1:] if isinstance(x, str) else type(x)(repr(x))


def build(case):
    """The real context of a context case, with copies of its names."""
    form = case.get('form', 'bool')
    names_as = tuple if form == 'tuple' else list
    return fca.Context(as_form(table(case), form, case['m']), names_as(map(equal_copy, case['objs'])),
                       names_as(map(equal_copy, case['atts'])))


def model(case):
    return ref.Ref(table(case), case['m'])


def names(mask, seq):
    return {seq[i] for i in ref.bits(mask)}


def mask(names_, seq):
    """Bit mask of a collection of names; every name must be known."""
    index = {x: i for i, x in enumerate(seq)}
    out = 0
    for x in names_:
        if x not in index:
            raise Violation('unknown name {!r} (have {!r})'.format(x, seq))
        out |= 1 << index[x]
    return out


def imp_masks(imps, atts):
    """Implication objects -> [(premise, premise | conclusion)] masks."""
    return [(mask(i.premise, atts), mask(i.premise, atts) |
             mask(i.conclusion, atts)) for i in imps]


def tmp(name='f'):
    """A fresh path below the worker's scratch directory (its cwd)."""
    d = tempfile.mkdtemp(dir=os.getcwd())
    return os.path.join(d, name)


def cells(cxt):
    return [[bool(v) for v in row] for row in cxt]


def check_context(cxt, rows_, objs, atts, what):
    """Every public view of a context agrees with the model."""
    tab = [[bool(v) for v in r] for r in rows_]
    same(list(cxt.objects), list(objs), what + ': objects')
    same(list(cxt.attributes), list(atts), what + ': attributes')
    same(len(cxt), len(objs), what + ': len')
    same(cells(cxt), tab, what + ': table')
    for i, o in enumerate(objs):
        want = {atts[j] for j in range(len(atts)) if tab[i][j]}
        same(cxt.get_object_intent(o), want, what + ': intent of %r' % (o,))
        same(cxt.get_object_intent_by_index(i), want, what + ': intent %d' % i)
    for j, a in enumerate(atts):
        want = {objs[i] for i in range(len(objs)) if tab[i][j]}
        same(cxt.get_attribute_extent(a), want, what + ': extent of %r' % (a,))
        same(cxt.get_attribute_extent_by_index(j), want, what + ': extent %d' % j)
    if type(cxt) in (fca.Context, fca.Scale):
        same([set(i) for i in cxt.examples()],
             [{a for a, v in zip(atts, r) if v} for r in tab], what + ': examples')
        same(list(cxt.intents()), list(cxt.examples()), what + ': intents')
        same([list(map(bool, r)) for r in cxt.table], tab, what + ': table')
        same(repr(cxt), ', '.join(map(str, atts)) + '\n' + ''.join(
            '%s\t%s\n' % (o, ''.join('.X'[v] for v in r)) for o, r in zip(objs, tab)),
            what + ': printed')
        fresh = fca.Context(tab, list(objs), list(atts))
        check(type(cxt) is fca.Scale or cxt == fresh and fresh == cxt, '{}: not equal to a context made from '
              'its table and names', what)


def scribble(cxt):
    """Change a context in every way: nothing else may notice."""
    if len(cxt.attributes) and len(cxt.objects):
        a, o = cxt.attributes[0], cxt.objects[-1]
        cxt.set_attribute_extent(set(cxt.objects) - cxt.get_attribute_extent(a), a)
        cxt.set_object_intent(set(cxt.attributes) - cxt.get_object_intent(o), o)
        cxt.rename_attribute(a, 'another attribute')
        cxt.rename_object(o, 'another object')
        cxt.table[0][0] = not cxt.table[0][0]
    cxt.add_object([True] * len(cxt.attributes), 'added object')
    cxt.add_attribute([True] * len(cxt.objects), 'added attribute')
    cxt.delete_object(cxt.objects[0])
    cxt.delete_attribute(cxt.attributes[0])


def shape_classes(case):
    n, m = len(case['rows']), case['m']
    out = []
    if n == 0:
        out.append('no objects')
    if m == 0:
        out.append('no attributes')
    if m > 63:
        out.append('over 63 attributes')
    elif m > 8:
        out.append('9..63 attributes')
    if n > 12:
        out.append('over 12 objects')
    if len(set(case['rows'])) < n:
        out.append('repeated rows')
    if n and m and 0 in case['rows']:
        out.append('empty row')
    if m and (1 << m) - 1 in case['rows']:
        out.append('full row')
    if sorted(case['atts'], key=str) != case['atts']:
        out.append('attribute order is not name order')
    if case['objs'] and case['objs'][0] in case['atts']:
        out.append('shared names')
    if any(isinstance(x, int) for x in case['objs'] + case['atts']):
        out.append('integer names')
    return out

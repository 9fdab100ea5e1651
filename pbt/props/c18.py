"""C18 contexts and many-valued contexts as text files."""
import csv
import io

from hypothesis import strategies as st

import fca
from fca.readwrite import (read_cxt, write_cxt, uread_cxt, uwrite_cxt, read_txt,
                           read_txt_with_names, read_mv_txt, write_mv_txt, read_mv_csv,
                           read_csv)
from fca.readwrite.tab_separated import uread_mv_txt, uwrite_mv_txt
from pbt import gen
from pbt.core import check, same, raises, subcheck
from pbt.lib import build, check_context, table, tmp
from pbt.props.c17 import check_mv

ASSUMPTIONS = ['names are not empty, have no white space around them and no line ends, '
               'in cxt files no tabs or quotes (values may, but no carriage returns); in cxt files names are integers or strings that '
               'are no Python literals (uwrite_cxt: any names; uread_cxt reads strings)',
               'files are read in the UTF-8 locale they were written in',
               'tab-separated files have at least one column']

LITERALS = ['{0}', '0', '1', '10', '9', 'None', 'True', '1.5']
# names that are no Python literals
CXT_NAMES = ['letters', 'reversed', 'numbered', 'shuffled', 'prefix', 'ints', 'ints0']
STRANGE = ['not a', 'B', 'X', '.', 'X.', '..', '-', 'ä b', '名', 'x\u2028y', 'a=>b', 'a,b',
           "it's", 'a\\nb', '%s', '{a}', 'p(1)', '#h', 'a  b', 'Ω', '0 objects', '3 4',
           'e\u0301', 'é', '__import__', '1e', 'X..X', '\U0001f600', 'x;y', 'None.', '[1]',
           '{}', '{1: 2}', '[]', '([],)']
CELLS = ['1', '0', '7', 'a', 'b c', 'ä', '', ' x', 'x ', '1.5', '-', 'None', 'a,b', "'",
         '名', 'None', 'True', '"', 'say "x"', 'a\tb', 'a\nb', '""', '\n', '"a"']


QUOTED_NAMES = ['say "x"', '"', '"x"', 'a\tb', '""', 'a, b', '\t', "a\t'"]


def with_quotes(names, picks):
    """Some of the names replaced by ones that must be quoted."""
    names = list(names)
    for i, k in picks:
        new = QUOTED_NAMES[k % len(QUOTED_NAMES)]
        if names and new.strip() and new not in names:
            names[i % len(names)] = new
    return names


PICKS = st.one_of(st.just([]), st.lists(st.tuples(
    gen.ints(0, 99), gen.ints(0, 99)).map(list), min_size=1, max_size=4))


def tabbed(lines, quote_all):
    out = io.StringIO()
    w = csv.writer(out, delimiter='\t', lineterminator='\n',
                   quoting=csv.QUOTE_ALL if quote_all else csv.QUOTE_MINIMAL)
    for line in lines:
        w.writerow(line)
    return out.getvalue()


@st.composite
def named(draw, n, kinds, strange):
    if strange and draw(st.booleans()) and n <= len(STRANGE):
        return draw(st.permutations(STRANGE))[:n]
    return draw(gen.name_list(n, kinds))


@st.composite
def context(draw, kinds, min_n=0, min_m=0, big=False):
    forms = ['bool', 'bool', 'int', 'numpy']
    if big:
        c = draw(gen.context(max_n=50, max_m=40, kinds=kinds, min_n=10, min_m=10,
                             forms=forms, tall=(520, 12), wide=(12, 520)))
    else:
        c = draw(gen.context(max_n=9, max_m=8, kinds=kinds, min_n=min_n, min_m=min_m,
                             forms=forms, tall=(80, 6), wide=(6, 80)))
    c['objs'] = draw(named(len(c['rows']), kinds, True))
    c['atts'] = draw(named(c['m'], kinds, True))
    return c


def put(text, eol='\n', name='f.txt'):
    path = tmp(name)
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text.replace('\n', eol))
    return path


def text_of(path):
    with open(path, encoding='utf-8', newline='') as f:
        return f.read()


def cxt_text(rows, objs, atts):
    return 'B\n\n%d\n%d\n\n%s%s' % (
        len(objs), len(atts), ''.join('%s\n' % x for x in list(objs) + list(atts)),
        ''.join(''.join('X' if v else '.' for v in r) + '\n' for r in rows))


def parse_cxt(text):
    """The format by its definition."""
    lines = text.split('\n')
    same(lines[:2] + lines[4:5], ['B', '', ''], 'frame of the cxt file')
    n, m = int(lines[2]), int(lines[3])
    names, rows = lines[5:5 + n + m], lines[5 + n + m:5 + n + m + n]
    same([l for l in lines[5 + n + m + n:] if l], [], 'after the rows')
    for r in rows:
        same(set(r) <= {'X', '.'} and len(r), m, 'row %r' % r)
    return [[x == 'X' for x in r] for r in rows], names[:n], names[n:]


def anything(c):
    return bool(c['rows']) and c['m'] > 0


CXT = st.fixed_dictionaries({'cxt': context(CXT_NAMES), 'eol': st.sampled_from(
    ['\n', '\n', '\r\n'])})


@subcheck('C18', 'cxt', CXT, quick=1500, shards=2,
          rule='a random context, written and read back, the file compared with an '
               'independent reader and writer of the format; non-trivial: the table is '
               'not empty', nontrivial=lambda c: anything(c['cxt']))
def cxt_files(case):
    c = case['cxt']
    rows, objs, atts = table(c), c['objs'], c['atts']
    cxt = build(c)
    path = tmp('a.cxt')
    write_cxt(cxt, path)
    same(parse_cxt(text_of(path)), (rows, [str(x) for x in objs],
                                    [str(x) for x in atts]), 'written')
    for p, f in ((path, read_cxt), (path, fca.read_cxt),
                 (put(cxt_text(rows, objs, atts), case['eol']), read_cxt)):
        got = f(p)
        check(type(got) is fca.Context, 'a context')
        check_context(got, rows, objs, atts, 'read back')
        same([type(x) for x in got.objects], [type(x) for x in objs], 'types of names')
        same(got == cxt, True, 'equality')
    check_context(cxt, rows, objs, atts, 'the context that was written')
    # over an old, longer file
    old = put('x' * 5000)
    write_cxt(got, old)
    same(text_of(old), text_of(path), 'written again')


UCXT = st.fixed_dictionaries({'cxt': context(
    gen.FILE_NAMES + ['ints', 'ints0', 'floats']), 'eol': st.sampled_from(
    ['\n', '\n', '\r\n']), 'literal': st.booleans(),
    'bad': st.sampled_from(['', 'A', 'b', 'BB', 'B B', 'B,', '#B', 'C'])})


@subcheck('C18', 'ucxt', UCXT, quick=1500, shards=2,
          rule='as cxt, with any strings as names, in UTF-8; and files that do not '
               'begin with a B, which both readers must refuse; non-trivial: the table '
               'is not empty', nontrivial=lambda c: anything(c['cxt']))
def ucxt_files(case):
    c = case['cxt']
    if case['literal'] and c['m'] and c['m'] <= len(LITERALS):
        c['atts'] = LITERALS[:c['m']]
    rows, objs, atts = table(c), c['objs'], c['atts']
    cxt = build(c)
    path = tmp('u.cxt')
    uwrite_cxt(cxt, path)
    check_context(cxt, rows, objs, atts, 'the context that was written')
    strings = all(isinstance(x, str) for x in objs + atts)
    objs, atts = [str(x) for x in objs], [str(x) for x in atts]
    same(parse_cxt(text_of(path)), (rows, objs, atts), 'written')
    for p in (path, put(cxt_text(rows, objs, atts), case['eol'])):
        got = uread_cxt(p)
        check_context(got, rows, objs, atts, 'read back')
        if strings:
            same(got == cxt, True, 'equality')
    bad = put(case['bad'] + text_of(path)[1:])
    raises(AssertionError, read_cxt, bad)
    raises(AssertionError, uread_cxt, bad)


TXT = st.fixed_dictionaries({'cxt': context(gen.FILE_NAMES, 0, 1), 'eol': st.sampled_from(
    ['\n', '\n', '\r\n']), 'quoted': PICKS, 'all': st.booleans()})


@subcheck('C18', 'txt', TXT, quick=1500, shards=2,
          rule='a random context in a tab-separated file, with and without object '
               'names, with and without quoting; non-trivial: more than one row and '
               'column',
          nontrivial=lambda c: len(c['cxt']['rows']) > 1 and c['cxt']['m'] > 1)
def txt_files(case):
    c = case['cxt']
    rows, atts = table(c), with_quotes(c['atts'], case['quoted'])
    objs = with_quotes(c['objs'], case['quoted'][1:])
    body = [[str(int(v)) for v in r] for r in rows]
    quote_all = case['all'] and bool(case['quoted'])
    head = tabbed([atts], quote_all) + '\n'
    got = read_txt(put(head + tabbed(body, quote_all), case['eol']))
    check_context(got, rows, ['g%d' % (i + 1) for i in range(len(rows))], atts, 'read_txt')
    if len(objs) > 1:
        objs[-1] = '1' if len(objs) % 2 else '0'     # a name that looks like a cell
    got = read_txt_with_names(put(head + tabbed(
        [[o] + r for o, r in zip(objs, body)], quote_all), case['eol']))
    check_context(got, rows, objs, atts, 'read_txt_with_names')


@st.composite
def mv(draw, min_n=0, min_m=1, max_n=7, max_m=6):
    n, m = draw(gen.ints(min_n, max_n)), draw(gen.ints(min_m, max_m))
    cell = st.one_of(st.sampled_from(CELLS), gen.ints(-3, 12),
                     st.sampled_from([0.5, 1e-7, True, None, 12345678901234567890]))
    return {'objs': draw(named(n, gen.FILE_NAMES + ['ints', 'ints0', 'floats'], True)),
            'atts': draw(named(m, gen.FILE_NAMES + ['ints', 'ints0'], True)),
            'table': [draw(st.lists(cell, min_size=m, max_size=m)) for _ in range(n)]}


@subcheck('C18', 'mv_txt', st.fixed_dictionaries({
    'mv': mv(), 'quoted': PICKS, 'eol': st.sampled_from(['\n', '\n', '\r\n'])}), quick=1500, shards=2,
    rule='a random many-valued context, written and read back as strings; non-trivial: '
         'more than one row and column',
    nontrivial=lambda c: len(c['mv']['objs']) > 1 and len(c['mv']['atts']) > 1)
def mv_txt(case):
    c = case['mv']
    rows = c['table']
    want = [[str(v) for v in r] for r in rows]
    c = dict(c, objs=with_quotes(c['objs'], case['quoted'][:1]),
             atts=with_quotes(c['atts'], case['quoted'][1:]))
    objs, atts = [str(x) for x in c['objs']], [str(x) for x in c['atts']]
    cxt = fca.ManyValuedContext([list(r) for r in rows], list(c['objs']), list(c['atts']))
    text = '\t'.join(objs) + '\n' + '\t'.join(atts) + '\n\n' + ''.join(
        '\t'.join(r) + '\n' for r in want)
    plain = not any(set(v) & set('"\t\n') or len(r) == 1 and not v
                    for r in want + [objs, atts] for v in r)
    for write, read in ((write_mv_txt, read_mv_txt), (uwrite_mv_txt, uread_mv_txt)):
        path = tmp('mv.txt')
        write(cxt, path)
        for p in (path, put(text, case['eol'])) if plain else (path,):
            check_mv(read(p), want, objs, atts, 'read back')
        again = tmp('mv2.txt')
        write(read(path), again)
        same(text_of(again), text_of(path), 'written again')
        lines = list(csv.reader(io.StringIO(text_of(path), newline=''), delimiter='\t'))
        same(lines[:3], [objs, atts, []], 'written names')
        same(lines[3:], want, 'written values')
    check_mv(cxt, rows, c['objs'], c['atts'], 'the context that was written')


QUOTED = ['"', 'say "x"', 'a,b', 'a\nb', ',', '""']


@subcheck('C18', 'csv', st.fixed_dictionaries({
    'mv': mv(), 'eol': st.sampled_from(['\n', '\r\n']), 'pad': st.booleans(),
    'quoted': st.lists(st.tuples(gen.ints(0, 99), gen.ints(0, 99)).map(list),
                       max_size=4),
    'names': PICKS, 'bits': gen.big(56)}), quick=1500, shards=2,
    rule='a random table in a comma-separated file, with quoting where it is needed, '
         'read as a many-valued and as a binary context; non-trivial: more than one row '
         'and column',
    nontrivial=lambda c: len(c['mv']['objs']) > 1 and len(c['mv']['atts']) > 1)
def csv_files(case):
    c = case['mv']
    want = [[str(v) for v in r] for r in c['table']]
    for i, j in case['quoted']:
        if want:
            r = want[i % len(want)]
            r[j % len(r)] = QUOTED[(i + j) % len(QUOTED)]
    objs = with_quotes(map(str, c['objs']), case['names'][:1])
    atts = with_quotes(map(str, c['atts']), case['names'][1:])

    def write(rows):
        out = io.StringIO()
        pad = ' ' if case['pad'] else ''
        w = csv.writer(out, lineterminator=case['eol'])
        w.writerow([x + pad for x in atts])
        for o, r in zip(objs, rows):
            w.writerow([o + pad] + r)
        return put(out.getvalue())
    path = write(want)
    check_mv(read_mv_csv(path), want, objs, atts, 'read_mv_csv')
    cross, blank = ['1', 'X', 'x', 'yes', '2', ' 1', '1 '], ['0', '', ' ', ' 0', '0 ', '']
    rows, k = [], 0
    bits = case['bits']
    for r in want:
        rows.append([])
        for _ in r:
            rows[-1].append((bits >> k % 56) & 1 == 1)
            k += 1
    cells = [[(cross if v else blank)[(bits >> 3 + i * 5 + j) % 6]
              for j, v in enumerate(r)] for i, r in enumerate(rows)]
    got = read_csv(write(cells))
    check(type(got) is fca.Context, 'a one-valued context')
    check_context(got, rows, objs, atts, 'read_csv')


EOLS = st.sampled_from(['\n', '\r\n'])


@subcheck('C18', 'large files', st.fixed_dictionaries({
    'cxt': context(CXT_NAMES, big=True), 'ucxt': context(gen.FILE_NAMES, big=True),
    'mv': mv(10, 5, 60, 30), 'eol': EOLS,
    'quoted': st.lists(st.tuples(gen.ints(0, 999), gen.ints(0, 99)).map(list),
                       max_size=9), 'bits': gen.big(56)}), quick=25, shards=8,
    rule='every kind of file with tables up to 50 x 40, 520 x 12 and 12 x 520, and '
         'values up to 60 x 30')
def large_files(case):
    all_files(case)


def all_files(case):
    e = case['eol']
    cxt_files({'cxt': case['cxt'], 'eol': e})
    ucxt_files({'cxt': case['ucxt'], 'eol': e, 'literal': False, 'bad': 'A'})
    q = case['quoted']
    txt_files({'cxt': case['ucxt'], 'eol': e, 'quoted': q, 'all': len(q) % 2 == 0})
    mv_txt({'mv': case['mv'], 'eol': e, 'quoted': q})
    csv_files(dict(case, pad=len(q) % 2, names=q))


@st.composite
def huge_mv(draw):
    c = draw(gen.huge(few=4))
    return {'table': [[CELLS[(r >> j & 1) * 7 + (i + j) % 7] for j in range(c['m'])]
                      for i, r in enumerate(c['rows'])],
            'objs': [str(x) for x in c['objs']], 'atts': [str(x) for x in c['atts']]}


HUGE_KINDS = ('numbered', 'shuffled')


@subcheck('C18', 'thousands', st.fixed_dictionaries({
    'cxt': gen.huge(kinds=('numbered', 'ints')), 'ucxt': gen.huge(kinds=HUGE_KINDS),
    'mv': huge_mv(), 'eol': EOLS,
    'quoted': st.lists(st.tuples(gen.ints(0, 999), gen.ints(0, 99)).map(list),
                       max_size=9), 'bits': gen.big(56)}), quick=6, shards=4,
    rule='every kind of file with tables of 1 to 4 lines one way and 1001 to 2049 the '
         'other')
def thousands(case):
    all_files(case)

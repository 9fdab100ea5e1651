"""Strategies.  Every generated value is plain JSON data.

A context case is {"rows": [bit masks], "m": int, "objs": [...], "atts": [...],
"form": how the table is passed}.  Bit j of a row is attribute j.
"""
import random

from hypothesis import strategies as st

LETTERS = 'abcdefghijklmnopqrstuvwxyz'
ODD = ['not a', 'a', 'A', 'a b', 'b_1', 'a_0', '0', '1', '10', '9', 'None', 'ä',
       'é', '名', 'a,b', 'X', '.', 'a => b', 'True', '1.5', 'z z', '-', '_', 'aa',
       'a_1', 'm0', 'g1', 'B', 'ab', 'Ω', '']
CLEAN = ['not a', 'a', 'A', 'a b', 'b_1', 'a_0', 'ä', 'é', '名', 'X', 'z z', '-x',
         '_u', 'aa', 'a_1', 'm0', 'g1', 'B', 'ab', 'Ω', 'x.y', 'q:r', 'o/p', '#h',
         'c+', 'p(1)', 'n-1', 'v;w', '%d', '{0}']


def ints(lo, hi):
    """Evenly distributed (st.integers favours the ends of its range)."""
    if hi - lo < 2000:
        return st.sampled_from(range(lo, hi + 1))
    return st.integers(lo, hi)


@st.composite
def name_list(draw, n, kinds):
    """n distinct names, in an order that need not be their sorted order."""
    kind = draw(st.sampled_from(kinds))
    if kind == 'letters':
        base = list(LETTERS[:n]) if n <= 26 else ['a%03d' % i for i in range(n)]
    elif kind == 'reversed':
        base = (list(LETTERS[:n]) if n <= 26 else
                ['a%03d' % i for i in range(n)])[::-1]
    elif kind == 'numbered':                # '10' sorts before '9'
        base = ['g%d' % (i + 1) for i in range(n)]
    elif kind == 'shuffled':
        base = list(LETTERS[:n]) if n <= 26 else ['a%03d' % i for i in range(n)]
        k = draw(ints(1, 10 ** 6))
        # an arbitrary but reproducible order, cheap for any n
        base.sort(key=lambda x: (hash_str(x) * (2 * k + 1)) % 1000003)
    elif kind == 'ints':
        base = list(range(1, n + 1))
    elif kind == 'ints0':                   # 0 is a name, too
        base = list(range(n))[::-1]
    elif kind == 'negative':
        base = list(range(-1, -n - 1, -1))
    elif kind == 'bigints':                 # equal ones need not be the same object
        base = [30011 + 13 * i for i in range(n)]
    elif kind == 'floats':
        base = [i + 0.5 for i in range(n)]
    elif kind == 'prefix' and n <= 12:
        base = ['a' * (i + 1) for i in range(n)]
        if draw(st.booleans()):
            base.reverse()
    elif kind == 'odd' and n <= len(ODD):
        base = draw(st.permutations(ODD))[:n]
    elif kind == 'clean' and n <= len(CLEAN):
        base = draw(st.permutations(CLEAN))[:n]
    else:
        base = ['a%03d' % i for i in range(n)]
    return base


def hash_str(s):
    h = 7
    for c in s:
        h = (h * 131 + ord(c)) % 1000003
    return h


ALL_NAMES = ['letters', 'letters', 'reversed', 'numbered', 'shuffled', 'ints',
             'ints0', 'negative', 'bigints', 'floats', 'prefix', 'odd']
STR_NAMES = ['letters', 'letters', 'reversed', 'numbered', 'shuffled', 'prefix',
             'odd']
FILE_NAMES = ['letters', 'reversed', 'numbered', 'shuffled', 'prefix', 'clean',
              'clean']


def big(bits):
    """Any integer below 2**bits, evenly."""
    if bits <= 0:
        return st.just(0)
    nbytes = (bits + 7) // 8
    return st.binary(min_size=nbytes, max_size=nbytes).map(
        lambda b: int.from_bytes(b, 'little') & ((1 << bits) - 1))


def row_bits(m):
    """One row of m cells."""
    if m <= 10:
        return ints(0, (1 << m) - 1)
    return big(m)


@st.composite
def rows(draw, n, m):
    full = (1 << m) - 1
    style = draw(st.sampled_from(
        ['plain', 'plain', 'sparse', 'dense', 'struct', 'struct', 'struct',
         'contra', 'nominal', 'chain']))
    if n == 0:
        return []
    if style == 'plain':
        out = draw(st.lists(row_bits(m), min_size=n, max_size=n))
    elif style == 'sparse':
        out = [draw(row_bits(m)) & draw(row_bits(m)) for _ in range(n)]
    elif style == 'dense':
        out = [draw(row_bits(m)) | draw(row_bits(m)) for _ in range(n)]
    elif style == 'struct':
        out = []
        for i in range(n):
            op = draw(ints(0, 9))
            a = draw(ints(0, max(0, i - 1)))
            b = draw(ints(0, max(0, i - 1)))
            if i == 0 or op <= 2:
                r = draw(row_bits(m))
            elif op == 3:
                r = out[a]
            elif op in (4, 5):
                r = out[a] & out[b]
            elif op == 6:
                r = out[a] | out[b]
            elif op == 7:
                r = draw(st.sampled_from([0, full]))
            elif op == 8:
                r = full & ~(1 << draw(ints(0, max(0, m - 1))))
            else:
                r = out[a] ^ (1 << draw(ints(0, max(0, m - 1)))) if m else 0
            out.append(r & full)
    elif style == 'contra':
        out = [full & ~(1 << (i % m)) if m else 0 for i in range(n)]
    elif style == 'nominal':
        out = [1 << (i % m) if m else 0 for i in range(n)]
    else:
        out = [(1 << (i % (m + 1))) - 1 for i in range(n)]
    if style in ('contra', 'nominal', 'chain') and m:
        for _ in range(draw(ints(0, 4))):
            i, j = draw(ints(0, n - 1)), draw(ints(0, m - 1))
            out[i] ^= 1 << j
    # column structure
    if m >= 2:
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
            op, j, k, l = (draw(ints(0, 4)), draw(ints(0, m - 1)),
                           draw(ints(0, m - 1)), draw(ints(0, m - 1)))
            for i in range(n):
                r = out[i]
                bit = {0: r >> k & 1, 1: r >> k & r >> l & 1, 2: 1, 3: 0,
                       4: (r >> k | r >> l) & 1}[op]
                out[i] = (r & ~(1 << j)) | (bit << j)
    return out


def big_number():
    """Line counts next to the sizes of machine words and small integers."""
    return st.sampled_from([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 150, 200, 254,
                            255, 256, 257, 258, 300, 511, 512, 513, 515])


@st.composite
def nearly_full(draw, n, m):
    """n rows of m cells of which at most two are blank."""
    out = []
    for _ in range(n):
        r = (1 << m) - 1
        for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
            r &= ~(1 << draw(ints(0, max(0, m - 1))))
        out.append(r)
    return out


@st.composite
def large(draw, few=3, kinds=None):
    """A context with few lines one way and 31 to 515 the other."""
    k, m = draw(ints(1, few)), draw(big_number())
    out = draw(st.one_of(nearly_full(k, m), nearly_full(k, m), rows(k, m)))
    if draw(st.booleans()):                 # transpose
        out = [sum((r >> j & 1) << i for i, r in enumerate(out)) for j in range(m)]
        k, m = m, k
    return {'rows': out, 'm': m, 'objs': draw(name_list(k, ['numbered', 'ints'])),
            'atts': draw(name_list(m, ['letters', 'shuffled', 'ints0'])),
            'form': draw(st.sampled_from(FORMS))}


@st.composite
def huge(draw, few=3, most=2100, tall=None, kinds=('numbered', 'ints')):
    """A context with few lines one way and more than a thousand the other: beyond the
    depth of recursion and the powers of two a float can hold."""
    k = draw(ints(1, few))
    m = draw(st.sampled_from([x for x in (1001, 1023, 1024, 1025, 1100, 1500, 2049)
                              if x <= most]))
    kinds_ = draw(st.lists(ints(0, (1 << k) - 1), min_size=1, max_size=4))
    blocks = draw(st.booleans())
    cols = [kinds_[i * len(kinds_) // m if blocks else i % len(kinds_)] for i in range(m)]
    for _ in range(draw(ints(0, 3))):
        cols[draw(ints(0, m - 1))] ^= 1 << draw(ints(0, k - 1))
    side = draw(st.booleans()) if tall is None else tall
    out = cols if side else [sum((c >> i & 1) << j for j, c in enumerate(cols))
                             for i in range(k)]
    n, m = (m, k) if side else (k, m)
    return {'rows': out, 'm': m, 'objs': draw(name_list(n, list(kinds))),
            'atts': draw(name_list(m, list(kinds))), 'form': draw(st.sampled_from(FORMS))}


FORMS = ['bool', 'bool', 'bool', 'int', 'numpy', 'tuple']


@st.composite
def context(draw, max_n=8, max_m=7, kinds=ALL_NAMES, min_n=0, min_m=0,
            tall=None, wide=None, shared=True, forms=FORMS):
    """A context case.  tall/wide: (n, m) bounds of occasional larger shapes."""
    shape = draw(ints(0, 39))
    lo_n, lo_m = max(min_n, min(1, max_n)), max(min_m, min(1, max_m))
    if tall and shape in (34, 35, 36, 37):
        n, m = draw(ints(min(max_n, tall[0]), tall[0])), draw(ints(min(lo_m, tall[1]), tall[1]))
    elif wide and shape in (30, 31, 32, 33):
        n, m = draw(ints(min(lo_n, wide[0]), wide[0])), draw(ints(min(max_m, wide[1]), wide[1]))
    elif shape == 39:                       # zero lines where they are allowed
        n, m = (min_n, draw(ints(min_m, max_m)))
    elif shape == 38:
        n, m = (draw(ints(min_n, max_n)), min_m)
    elif shape <= 10:
        n = draw(ints(lo_n, max(lo_n, min(4, max_n))))
        m = draw(ints(lo_m, max(lo_m, min(4, max_m))))
    else:
        n, m = draw(ints(lo_n, max_n)), draw(ints(lo_m, max_m))
    atts = draw(name_list(m, kinds))
    if shared and draw(ints(0, 7)) == 0 and n <= m:
        objs = atts[:n]                     # objects and attributes share names
    else:
        objs = draw(name_list(n, kinds))
        upper = [o.upper() if isinstance(o, str) else o for o in objs]
        if len(set(upper)) == n:
            objs = upper
    return {'rows': draw(rows(n, m)), 'm': m, 'objs': objs, 'atts': atts,
            'form': draw(st.sampled_from(forms))}


def subset(k):
    """A subset of k things as a mask, small and large alike."""
    return row_bits(k)


OPSEL = st.integers(0, 10 ** 6)


def ops(names, max_size, min_size=0, nargs=3):
    """A history: [op name, selector, ...] lists.  Selectors are taken modulo
    whatever there is to choose from when the operation runs."""
    return st.lists(st.tuples(st.sampled_from(names), *[OPSEL] * nargs).map(list),
                    min_size=min_size, max_size=max_size)


@st.composite
def blown(draw, base=5, least=17, most=70, kinds=('numbered', 'shuffled', 'ints')):
    """Many lines both ways, few of them different: a small context with its lines
    repeated in a random order, and at most three cells changed."""
    c = draw(context(max_n=base, max_m=base, min_n=1, min_m=1))
    n, m = draw(ints(least, most)), draw(ints(least, most))
    r = random.Random(draw(st.integers(0, 10 ** 9)))
    ii = [r.randrange(len(c['rows'])) for _ in range(n)]
    jj = [r.randrange(c['m']) for _ in range(m)]
    out = [sum((c['rows'][i] >> j & 1) << t for t, j in enumerate(jj)) for i in ii]
    for _ in range(draw(ints(0, 3))):
        out[r.randrange(n)] ^= 1 << r.randrange(m)
    return {'rows': out, 'm': m, 'objs': draw(name_list(n, list(kinds))),
            'atts': draw(name_list(m, list(kinds))), 'form': draw(st.sampled_from(FORMS))}

"""Reference models: slow-but-obvious formal concept analysis on bit masks.

Nothing here imports the code under test.  Objects and attributes are numbered;
sets are Python ints used as bit masks.
"""
from fractions import Fraction
from math import comb


def bits(mask):
    i = 0
    while mask:
        if mask & 1:
            yield i
        mask >>= 1
        i += 1


def mask_of(indices):
    m = 0
    for i in indices:
        m |= 1 << i
    return m


class Ref:
    """A binary relation with the textbook derivation operators."""

    def __init__(self, rows, n_atts):
        self.n = len(rows)
        self.m = n_atts
        self.rows = [mask_of(j for j in range(n_atts) if r[j]) for r in rows]
        self.cols = [mask_of(i for i in range(self.n) if rows[i][j])
                     for j in range(n_atts)]
        self.G = (1 << self.n) - 1
        self.M = (1 << n_atts) - 1

    def oprime(self, objs):
        out = self.M
        for i in bits(objs):
            out &= self.rows[i]
        return out

    def aprime(self, atts):
        out = self.G
        for j in bits(atts):
            out &= self.cols[j]
        return out

    def aclosure(self, atts):
        out = self.M
        for r in self.rows:
            if r & atts == atts:
                out &= r
        return out

    def oclosure(self, objs):
        out = self.G
        for c in self.cols:
            if c & objs == objs:
                out &= c
        return out

    def intents(self):
        out = {self.M}
        for r in self.rows:
            out |= {r & i for i in out}
        return out

    def concepts(self):
        return {(self.aprime(i), i) for i in self.intents()}

    def pseudo_intents(self, background=()):
        """Pseudo-intents (relative to background implications), by definition.

        background: pairs (premise, conclusion) of masks.
        """
        found = []
        for p in sorted(range(1 << self.m), key=lambda x: (bin(x).count('1'), x)):
            if any(a & p == a and b & p != b for a, b in background):
                continue
            c = self.aclosure(p)
            if c == p:
                continue
            if all(q & p != q or qc & p == qc for q, qc in found):
                found.append((p, c))
        return found


def covers(intents):
    """intent -> set of intents of its upper neighbours (maximal proper subsets)."""
    out = {}
    for i in intents:
        less = [k for k in intents if k & i == k and k != i]
        out[i] = {k for k in less
                  if not any(k & l == k and k != l for l in less)}
    return out


def closure(s, imps):
    """Closure of a mask under pairs (premise, conclusion), by iteration."""
    changed = True
    while changed:
        changed = False
        for a, b in imps:
            if a & s == a and b & s != b:
                s |= b
                changed = True
    return s


def count_models(imps, m, limit):
    """Number of sets closed under imps (stop above limit): Ganter's NextClosure."""
    full = (1 << m) - 1
    a = closure(0, imps)
    n = 1
    while a != full:
        for j in range(m - 1, -1, -1):
            if a >> j & 1:
                a &= ~(1 << j)
            else:
                low = a & ((1 << j) - 1)
                b = closure(low | 1 << j, imps)
                if b & ((1 << j) - 1) == low:
                    a = b
                    break
        n += 1
        if n > limit:
            return n
    return n


def istability(ref, ext, intent):
    """Share of subsets of the extent whose derivation is the intent."""
    objs = list(bits(ext))
    hits = 0
    for k in range(1 << len(objs)):
        s = ref.M
        for t, o in enumerate(objs):
            if k >> t & 1:
                s &= ref.rows[o]
        hits += s == intent
    return Fraction(hits, 1 << len(objs))


def estability(ref, ext, intent):
    atts = list(bits(intent))
    hits = 0
    for k in range(1 << len(atts)):
        s = ref.G
        for t, a in enumerate(atts):
            if k >> t & 1:
                s &= ref.cols[a]
        hits += s == ext
    return Fraction(hits, 1 << len(atts))


def probability(ref, intent):
    """Probability that an attribute set with the given columns' frequencies is
    closed in a random context with independent attributes (Klimushkin et al.)."""
    n = ref.n
    p = [Fraction(bin(c).count('1'), n) for c in ref.cols]
    pb = Fraction(1)
    for a in bits(intent):
        pb *= p[a]
    total = Fraction(0)
    for k in range(n + 1):
        t = comb(n, k) * pb ** k * (1 - pb) ** (n - k)
        for a in bits(ref.M & ~intent):
            t *= 1 - p[a] ** k
        total += t
    return total

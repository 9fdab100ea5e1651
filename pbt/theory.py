"""Oracles for sets of implications, on masks."""
from pbt import ref
from pbt.core import check, same


def dg_exact(pairs, r, background=(), what='basis'):
    """pairs is exactly the Duquenne-Guigues basis of r (relative to background).

    Small contexts: compare with the pseudo-intents by definition.  Larger ones: a
    set of implications is that basis iff it is sound, complete, has conclusion =
    closure of premise, and every premise is not closed in the context but closed
    under the background and under the implications with smaller premises.
    """
    check(len(set(p for p, _ in pairs)) == len(pairs),
          '{}: two implications with one premise', what)
    for p, q in pairs:
        same(q, r.aclosure(p), '%s: conclusion of premise %s' % (what, bin(p)))
    if r.m <= 8:
        want = dict(r.pseudo_intents(background))
        got = dict(pairs)
        check(got == want, '{}: missing premises {!r}, wrong premises {!r}', what,
              sorted(set(want) - set(got)), sorted(set(got) - set(want)))
        return
    for p, q in pairs:
        check(p != q, '{}: premise {} is closed', what, bin(p))
        check(all(a & p != a or b & p == b for a, b in background),
              '{}: premise {} violates the background', what, bin(p))
        for a, b in pairs:
            if a & p == a and a != p:
                check(b & p == b, '{}: premise {} is not pseudo-closed', what, bin(p))
    n = len(r.intents())
    same(ref.count_models(list(pairs) + list(background), r.m, n), n,
         what + ': number of closed sets')


def equivalent(pairs, r, what='cover'):
    """pairs hold in r, and every implication of r follows from them."""
    for p, q in pairs:
        check(r.aclosure(p) & q == q, '{}: {} => {} does not hold', what, bin(p), bin(q))
    n = len(r.intents())
    same(ref.count_models(list(pairs), r.m, n), n, what + ': number of closed sets')


def sound(pairs, r, what='implications'):
    for p, q in pairs:
        check(r.aclosure(p) & q == q, '{}: {} => {} does not hold', what, bin(p), bin(q))

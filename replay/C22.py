from replay.h import *
from math import comb
from lop.utilities import sample_unique_sets, sample_nonunique_sets

def good(s, elems, num, k):
    check(np.shape(s) == (num, k), 'shape %s' % (np.shape(s),))
    check(np.issubdtype(np.asarray(s).dtype, np.integer), 'entries are not integers')
    e = set(elems)
    for r in s:
        check(len(set(r.tolist())) == k, 'an element twice in the set %s' % r)
        check(set(r.tolist()) <= e, 'set %s has foreign elements' % r)

@case(400)
def unique(rng):
    n = rng.randint(1, 9); k = rng.randint(1, min(n, 4) + 1); c = comb(n, k)
    num = rng.choice([0, 1, c, rng.randint(0, c + 1), min(c, rng.randint(0, 12))])
    lst = rng.rand() < .5
    el = list(rng.permutation(60)[:n] - 20) if lst else list(range(n))
    src = int(n) if not lst else (np.array(el) if rng.rand() < .5 else [int(x) for x in el])
    note(source=src, num=num, size=k)
    s = sample_unique_sets(src, int(num), int(k)); good(s, el, num, k)
    check(len({frozenset(r.tolist()) for r in s}) == num, 'the same set twice')

@case(60)
def nonunique(rng):
    n = rng.randint(1, 12); k = rng.randint(1, n + 1); num = rng.randint(0, 20); note(n=n, size=k, num=num)
    s = sample_nonunique_sets(int(n), int(num), int(k)); check(s.shape == (num, k), 'shape'); good(s.astype(int), range(n), num, k)

@case(20)
def many(rng):
    n, k = rng.randint(10, 40), rng.randint(2, 4); num = rng.randint(20, min(comb(n, k), 400)); note(n=n, size=k, num=num)
    if comb(n, k) < num: return
    s = sample_unique_sets(int(n), int(num), int(k)); good(s, range(n), num, k)
    check(len({frozenset(r.tolist()) for r in s}) == num, 'the same set twice')

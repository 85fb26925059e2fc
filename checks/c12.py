import itertools
import math

import numpy as np

PARTS = [dict(name='facets'), dict(name='orderings')]
RULE = ('A case is one (dimension, facet dimension or number of points); non-trivial when every '
        'facet or symmetry of the cube was compared with an independent geometric enumeration.')


def _center(t):
  from swirl_fem.common.facet_util import FacetDimType as F
  return tuple({F.FIRST: -1, F.LAST: 1, F.INNER: 0}[x] for x in t)


def part_facets(mon):
  from swirl_fem.common import facet_util as fu
  top = 5 if mon.quick else 6
  todo = [(d, k) for d in range(1, top) for k in [None] + list(range(d + 1))]
  for c in mon.cases('types', len(todo), len(todo)):
    with c:
      d, k = todo[c.index]
      c.describe(ndim=d, facet_ndim=k)
      got = [_center(t) for t in fu.get_facet_types(d, k)]
      want = [t for t in itertools.product((-1, 0, 1), repeat=d) if k is None or t.count(0) == k]
      c.event('facets', len(got))
      c.check('no repetition', len(set(got)) == len(got))
      c.check('complete', set(got) == set(want), f'{len(got)} of {len(want)}')
      n_facets = 3 ** d if k is None else math.comb(d, k) * 2 ** (d - k)
      c.check('count', len(got) == n_facets, f'{len(got)} != {n_facets}')
  todo = [(d, n) for d in range(1, top) for n in range(2, {1: 12, 2: 9, 3: 6, 4: 5, 5: 4}[d])]
  for c in mon.cases('slices', len(todo), len(todo)):
    with c:
      d, n = todo[c.index]
      c.describe(ndim=d, points=n)
      e = np.arange(n ** d).reshape([n] * d)
      pos = np.array(list(np.ndindex(*[n] * d)))
      side = np.where(pos == 0, -1, np.where(pos == n - 1, 1, 0))
      seen = []
      for t in fu.get_facet_types(d):
        ctr = np.array(_center(t))
        inner = np.asarray(e[fu.slice_from_facet_type(t, True)])
        want = np.flatnonzero((side == ctr).all(axis=1))
        c.check('interior slice', inner.shape == (n - 2,) * int(np.sum(ctr == 0)), inner.shape)
        c.equal('interior nodes in order', inner.ravel(), want)
        seen += inner.ravel().tolist()
        closed = np.asarray(e[fu.slice_from_facet_type(t, False)])
        want = np.flatnonzero(((side == ctr) | (ctr == 0)).all(axis=1))
        c.check('closed slice', closed.shape == (n,) * int(np.sum(ctr == 0)), closed.shape)
        c.equal('closed nodes in order', closed.ravel(), want)
        c.event('facet_slices', 2)
      c.check('interiors partition the element', sorted(seen) == list(range(n ** d)),
              f'{len(seen)} of {n ** d}')


def part_orderings(mon):
  from swirl_fem.common import facet_util as fu
  todo = [(d, n) for d in range(1, 5) for n in range(1, {1: 14, 2: 10, 3: 8, 4: 4}[d] + (0 if mon.quick else 1))]
  for c in mon.cases('orderings', len(todo), len(todo)):
    with c:
      d, n = todo[c.index]
      c.describe(ndim=d, points=n)
      m = fu.get_orderings_mapping(d, n)
      c.check('count', len(m) == 2 ** d * math.factorial(d), len(m))
      x = np.linspace(-1, 1, n) if n > 1 else np.zeros(1)
      grid = np.array(list(itertools.product(x, repeat=d)))
      corners = np.array(list(itertools.product((-1., 1.), repeat=d)))
      for key, val in m.items():
        key, val = np.asarray(key), np.asarray(val)
        if not (c.check('corner ordering', sorted(key.tolist()) == list(range(2 ** d))) and
                c.check('node ordering', sorted(val.tolist()) == list(range(n ** d)))):
          continue
        # the linear map sending corner i to the corner listed at position i
        a, *_ = np.linalg.lstsq(corners, corners[key], rcond=None)
        c.check('symmetry of the cube', np.allclose(corners @ a, corners[key]) and
                np.allclose(a @ a.T, np.eye(d)))
        c.close('node ordering follows the same symmetry', grid[val], grid @ a, atol=1e-12)
        c.event('symmetries')
      c.check('all symmetries', len({tuple(np.asarray(k).tolist()) for k in m}) == 2 ** d * math.factorial(d))

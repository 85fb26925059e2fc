import itertools

import numpy as np

PARTS = [dict(name='meshes'), dict(name='partitions'), dict(name='large', budget={'quick': 90.})]
RULE = ('A case is one (size, dimension, interval, periodic dimensions, partition blocks) '
        'configuration; non-trivial when all nodes, elements, facets and links were compared with '
        'the geometry of the cube.')


def _judge(c, pm, n, d, a, b, per):
  x = np.asarray(pm.node_coords)
  els = np.asarray(pm.elements)
  h = (b - a) / n
  grid = np.array(list(itertools.product(np.linspace(a, b, n + 1), repeat=d)))
  c.close('node coordinates', x, grid, atol=1e-13 * max(1, abs(a), abs(b)))
  lat = np.array(list(itertools.product(range(n + 1), repeat=d)))
  if not c.check('elements', els.shape == (n ** d, 2 ** d) and els.min() >= 0 and els.max() < len(x), els.shape):
    return
  c.event('elements', len(els))
  offs = np.array(list(itertools.product((0, 1), repeat=d)))
  low = lat[els[:, 0]]
  ok = np.array_equal(lat[els], low[:, None] + offs[None])
  c.check('lexicographic unit cells', ok)
  c.check('each cell once', len({tuple(r) for r in low.tolist()}) == n ** d)
  c.check('first order', pm.order == 1 and pm.gridpoints_1d.num_points == 2 and pm.ndim == d)
  # facets: each described by its fixed axis, side and cell
  def place(f):
    p = lat[np.asarray(f)]
    fixed = [ax for ax in range(d) if np.all(p[:, ax] == p[0, ax])]
    if len(fixed) != 1 or len(p) != 2 ** (d - 1):
      return None
    ax = fixed[0]
    rest = np.delete(p, ax, axis=1)
    o = np.array(list(itertools.product((0, 1), repeat=d - 1))).reshape(2 ** (d - 1), d - 1)
    if not np.array_equal(rest, rest[0] + o):
      return None
    return ax, int(p[0, ax]), tuple(rest[0].tolist())
  want = {(ax, s, cell) for ax in range(d) if ax not in per for s in (0, n)
          for cell in itertools.product(range(n), repeat=d - 1)}
  if want:
    c.check('group names', set(pm.physical_groups) == {'boundary'}, set(pm.physical_groups))
    got = [place(f) for f in np.asarray(pm.physical_groups.get('boundary', np.zeros((0, 1), int)))]
    c.check('boundary facets are sides of cells', None not in got)
    c.check('boundary facets once each', len(set(got)) == len(got))
    c.check('boundary facets are the non-periodic sides', set(got) == want, f'{len(got)} of {len(want)}')
    c.event('boundary_facets', len(got))
  else:
    c.check('no boundary', not any(len(v) for v in pm.physical_groups.values()))
  links = pm.periodic_links
  wantl = {(ax, cell) for ax in per for cell in itertools.product(range(n), repeat=d - 1)}
  if not wantl:
    c.check('no links', links is None or len(links) == 0)
    return
  seen = []
  for f, g in np.asarray(links):
    pf, pg = place(f), place(g)
    if c.check('links join opposite sides', pf is not None and pg is not None and pf[0] == pg[0]
               and {pf[1], pg[1]} == {0, n} and pf[2] == pg[2], f'{pf} {pg}'):
      seen.append((pf[0], pf[2]))
      shift = lat[np.asarray(g)] - lat[np.asarray(f)]
      c.check('links pair translates', np.all(shift == shift[0]))
    c.event('links')
  c.check('each periodic facet is linked once', sorted(seen) == sorted(wantl))


def part_meshes(mon):
  from swirl_fem.common.premesh_commons import unit_cube_mesh
  todo = [(n, d, per) for d, top in ((1, 8), (2, 5), (3, 3)) for n in range(1, top + 1)
          for r in range(d + 1) for per in itertools.combinations(range(d), r)]
  for c in mon.cases('mesh', len(todo), 4 * len(todo)):
    with c:
      n, d, per = todo[c.index % len(todo)]
      a, b = (0., 1.) if c.rng.random() < .3 else sorted(c.rng.uniform(-5, 5, 2))
      per = tuple(c.rng.permutation(per).tolist()) if per else per
      c.describe(size=n, ndim=d, periodic=per, a=a, b=b)
      kw = {}
      if (a, b) != (0., 1.) or c.rng.random() < .5:
        kw = dict(a=float(a), b=float(b))
      pm = unit_cube_mesh(n, ndim=d, periodic_dims=per, **kw)
      _judge(c, pm, n, d, a, b, per)
      c.check('not partitioned', pm.partitions is None)
  for c in mon.cases('default', 1, 1):
    with c:
      c.describe(kind='defaults')
      _judge(c, unit_cube_mesh(3), 3, 2, 0., 1., ())


def part_partitions(mon):
  from swirl_fem.common.premesh_commons import unit_cube_mesh
  for c in mon.cases('blocks', 60, 600):
    with c:
      d = int(c.rng.integers(1, 4))
      blocks = [int(c.rng.integers(1, 5 if d < 3 else 4)) for _ in range(d)]
      n = int(np.lcm.reduce(blocks))
      if n ** d > 2000:
        blocks = [min(x, 2) for x in blocks]
        n = int(np.lcm.reduce(blocks))
      n *= int(c.rng.integers(1, 3)) if n ** d < 200 else 1
      ids = c.rng.permutation(int(np.prod(blocks))).reshape(blocks)
      a, b = sorted(c.rng.uniform(-3, 3, 2))
      c.describe(size=n, blocks=blocks, ids=ids)
      pm = unit_cube_mesh(n, ndim=d, a=a, b=b, partitions=ids)
      _judge(c, pm, n, d, a, b, ())
      parts = np.asarray(pm.partitions)
      if not c.check('one id per element', parts.shape == (n ** d,), parts.shape):
        continue
      centers = np.asarray(pm.node_coords)[np.asarray(pm.elements)].mean(axis=1)
      cell = np.floor((centers - a) / (b - a) * np.array(blocks)).astype(int)
      c.equal('block of each element', parts, ids[tuple(cell.T)])
      c.event('partitioned_elements', len(parts))


def part_large(mon):
  """More nodes, and more elements, than fit in 16 bits."""
  from swirl_fem.common.premesh_commons import unit_cube_mesh
  for c in mon.cases('cube', 3, 12):
    with c:
      d = c.index % 3 + 1
      n = {1: 66000, 2: 258, 3: 41}[d] + int(c.rng.integers(0, 4))
      per = tuple(a for a in range(d) if c.rng.random() < .5)
      b = float(c.rng.uniform(1, 5))
      c.describe(size=n, ndim=d, periodic=per, b=b)
      _judge(c, unit_cube_mesh(n, ndim=d, periodic_dims=per, a=0., b=b), n, d, 0., b, per)

import numpy as np

PARTS = [dict(name='serial1', fn='serial'), dict(name='serial2', fn='serial'),
         dict(name='devices1', fn='devices', devices=8), dict(name='devices2', fn='devices', devices=8), dict(name='large', devices=4, budget={'quick': 90.})]
RULE = ('A case is a finalized mesh with random facet groups (overlapping, interior, on either side of '
        'periodic links) on one or several devices; non-trivial when a mask with both true and false '
        'entries was compared node by node with the union-find reference.')


def _groups(rng, raw):
  from swirlmon import gen
  facets = gen.all_facets(raw.elements, raw.ndim)
  linked = [] if raw.links is None else [f for pair in raw.links for f in pair]
  out = {}
  for i in range(int(rng.integers(1, 4))):
    pool = list(facets)
    if linked and rng.random() < .6:
      pool = linked if rng.random() < .7 else [p[rng.integers(2)] for p in raw.links]
    m = int(rng.integers(1, min(6, len(pool)) + 1))
    out[f'g{i}'] = np.array([pool[j] for j in rng.choice(len(pool), m, replace=False)])
  if rng.random() < .5:
    out['boundary'] = gen.boundary_facets(raw.elements, raw.ndim)
  return out


def _refine(c, pm, ndim):
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  n = int(c.rng.integers(2, 6 if ndim < 3 else 5))
  c.describe(points=n)
  if n == 2:
    return pm
  return refine_premesh(pm, gridpoints_1d=Nodes1D.create(
      num_points=n, node_type=NodeType.GAUSS_LOBATTO_LEGENDRE))


def _want(raw, pm, cls):
  """Expected masks per global node from the facets of the refined premesh."""
  out = {}
  for k, facets in pm.physical_groups.items():
    hit = np.unique(cls[np.unique(np.asarray(facets))])
    out[k] = np.isin(cls, hit)
  return out


def part_serial(mon):
  from swirlmon import gen
  for c in mon.cases('mesh', 70, 2000):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      if c.rng.random() < .6:
        raw = gen.random_periodic_box(c.rng, ndim, orient='all', maxcount={1: 6, 2: 3, 3: 2}[ndim])
      else:
        raw = gen.random_mesh(c.rng, ndim, 'small', orient='all')
      raw.groups = _groups(c.rng, raw)
      c.describe(mesh=raw.kind, elements=raw.elements, groups=raw.groups, links=raw.links)
      pm = _refine(c, gen.to_premesh(raw), ndim)
      cls = gen.link_classes(len(pm.node_coords), pm.periodic_links)
      mesh = pm.finalize()
      want = _want(raw, pm, cls)
      c.check('names', set(mesh.physical_masks) == set(want))
      for k, w in want.items():
        got = np.asarray(mesh.physical_masks[k])
        c.event('masked_nodes', w.sum())
        c.check('boolean', got.dtype == bool, got.dtype)
        c.equal('mask', got, w, f'{k}: {np.flatnonzero(got).tolist()[:20]} vs {np.flatnonzero(w).tolist()[:20]}')


def part_devices(mon):
  from swirlmon import gen, dist
  for c in mon.cases('partitioned', 30, 1200):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      P = int(c.rng.integers(1, mon.devices + 1))
      raw = dist.partitioned_raw(c.rng, ndim, P, periodic=c.rng.random() < .7)
      P = dist.leave_gaps(c.rng, raw, P, mon.devices)
      raw.groups = _groups(c.rng, raw)
      c.describe(mesh=raw.kind, elements=raw.elements, groups=raw.groups, links=raw.links,
                 partitions=raw.partitions)
      pm = _refine(c, gen.to_premesh(raw), ndim)
      cls = gen.link_classes(len(pm.node_coords), pm.periodic_links)
      mesh = pm.finalize(axis_name='i')
      l2g = dist.match(c, mesh, pm.elements, pm.node_coords, raw.partitions)
      if l2g is None:
        continue
      want = _want(raw, pm, cls)
      c.check('names', set(mesh.physical_masks) == set(want))
      c.event('partitions_%d' % P)
      for k, w in want.items():
        got = np.asarray(mesh.physical_masks[k])
        c.event('masked_nodes', w.sum())
        if c.check('shape', got.shape == l2g.shape, got.shape):
          c.equal('mask on real nodes', got[l2g >= 0], w[l2g[l2g >= 0]], k)
          c.check('never at padding', not np.any(got[l2g < 0]), k)


def part_large(mon):
  """Masks on more nodes than fit in 16 bits, on one device and four."""
  from swirlmon import gen
  for c in mon.cases('box', 6, 40):
    with c:
      ndim = (2, 3, 1)[c.index % 3]
      parts = 4 if c.index == 1 or c.rng.random() < .5 else None
      raw, counts, periodic = gen.large_box(c.rng, ndim, parts=parts)
      c.describe(mesh=raw.kind, parts=parts)
      mesh = gen.large_premesh(raw).finalize(**(dict(axis_name='i') if parts else {}))
      els = np.asarray(mesh.elements)
      real = np.zeros(np.shape(mesh.node_coords)[:-1], bool)
      if parts:
        for k in range(parts):
          real[k, els[k][els[k] >= 0]] = True
      else:
        real[els] = True
      lat = gen.lattice_of(mesh.node_coords)
      c.check('names', set(mesh.physical_masks) == set(raw.groups))
      top = 2 * np.array(counts)
      on = {f'{s}{a}': lat[..., a] == (0 if s == 'lo' else top[a]) for a in range(ndim) for s in ('lo', 'hi')}
      # facets of other sides end at linked nodes, whose images are on them as well
      on['boundary'] = np.any([on[f'{s}{a}'] for a in range(ndim) for s in ('lo', 'hi') if a not in periodic], axis=0)
      for k in raw.groups:
        c.equal('mask', np.asarray(mesh.physical_masks[k]), on[k] & real, k)
        c.event('masked_nodes', on[k].sum())

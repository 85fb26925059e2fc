import numpy as np

PARTS = [dict(name='d1'), dict(name='d2'), dict(name='d3'), dict(name='linked'), dict(name='large', budget={'quick': 90.})]
RULE = ('A case is a random mesh with random facet groups, periodic links and partitions, '
        'refined; non-trivial when at least one facet row was matched with topological keys.')


def index_of_keys(raw, els, n):
  from swirlmon import gen
  key_of = {}
  for e, idx in zip(raw.elements, els):
    for k, i in zip(gen.facet_keys(e, n, raw.ndim), idx.tolist()):
      key_of[i] = k
  return key_of


def _judge(c, raw, out, n, kind):
  from swirlmon import gen
  ndim = raw.ndim
  els = np.asarray(out.elements)
  if raw.partitions is None:
    c.check('no partitions', out.partitions is None)
  else:
    c.equal('partitions', out.partitions, raw.partitions)
  if kind == 'gauss_legendre':
    return
  key_of = index_of_keys(raw, els, n)
  c.check('group names', set(out.physical_groups) == set(raw.groups),
          f'{set(out.physical_groups)} vs {set(raw.groups)}')
  for name, facets in raw.groups.items():
    got = np.asarray(out.physical_groups[name])
    if not c.check('group shape', got.shape == (len(facets), n ** (ndim - 1)), got.shape):
      continue
    for src, row in zip(facets, got):
      want = set(gen.facet_keys(src, n, ndim - 1))
      have = [key_of.get(int(i)) for i in row]
      c.event('facets')
      c.check('facet nodes', set(have) == want and len(set(row.tolist())) == len(row),
              f'group {name} facet {src.tolist()}')
  if raw.links is None:
    c.check('no links', out.periodic_links is None or len(out.periodic_links) == 0)
    return
  got = np.asarray(out.periodic_links)
  if not c.check('links shape', got.shape == (len(raw.links), 2, n ** (ndim - 1)), got.shape):
    return
  for (a, b), (ra, rb) in zip(raw.links, got):
    image = dict(zip(a.tolist(), b.tolist()))
    ka = [key_of.get(int(i)) for i in ra]
    kb = [key_of.get(int(i)) for i in rb]
    c.event('links')
    if c.check('link facets', set(ka) == set(gen.facet_keys(a, n, ndim - 1)) and
               set(kb) == set(gen.facet_keys(b, n, ndim - 1)),
               f'link {a.tolist()} {b.tolist()}'):
      mapped = [frozenset((image[v], w) for v, w in k) for k in ka]
      c.check('link correspondence', mapped == kb, f'link {a.tolist()} {b.tolist()}')


def _nodes(rng, ndim):
  from checks.c04 import nodes_for
  return nodes_for(rng, ndim, high=ndim == 3 and rng.random() < .5,
                   kinds=['gauss_lobatto_legendre'] * 4 + ['newton_cotes', 'gauss_legendre'])


def _meshes(mon, ndim, quick, thorough):
  from swirlmon import gen
  from swirl_fem.core.mesh_refiner import refine_premesh
  for c in mon.cases('groups', quick, thorough):
    with c:
      kind, n, g = _nodes(c.rng, ndim)
      raw = gen.random_mesh(c.rng, ndim, 'small', orient='all', scrambled=False)
      raw.groups = {}
      facets = gen.all_facets(raw.elements, ndim)  # also interior facets
      for i in range(int(c.rng.integers(0, 4))):
        m = int(c.rng.integers(1, min(len(facets), 8) + 1))
        raw.groups[f'g{i}'] = facets[c.rng.choice(len(facets), m, replace=c.rng.random() < .2)]
      if c.rng.random() < .6:
        raw.partitions = gen.random_partitions(
            c.rng, len(raw.elements), int(c.rng.integers(1, min(4, len(raw.elements)) + 1)))
      raw, _, _ = gen.scramble(c.rng, raw, 'all')
      if ndim > 1 and c.rng.random() < .5:
        # arbitrary (not only symmetric listings are legal: rows are lexicographic)
        pass
      c.describe(elements=raw.elements, groups=raw.groups, partitions=raw.partitions,
                 family=kind, points=n)
      _judge(c, raw, refine_premesh(gen.to_premesh(raw), gridpoints_1d=g), n, kind)
      c.trivial = not raw.groups and raw.partitions is None
  for c in mon.cases('empty group', 1, 1):
    with c:
      c.describe(kind='empty group')
      kind, n, g = _nodes(c.rng, ndim)
      raw = gen.box((2,) * ndim)
      raw.groups = {}
      _judge(c, raw, refine_premesh(gen.to_premesh(raw), gridpoints_1d=g), n, kind)


def part_d1(mon):
  _meshes(mon, 1, 40, 400)


def part_d2(mon):
  _meshes(mon, 2, 80, 1000)


def part_d3(mon):
  _meshes(mon, 3, 50, 600)


def part_linked(mon):
  from swirlmon import gen
  from swirl_fem.core.mesh_refiner import refine_premesh
  for c in mon.cases('links', 120, 1200):
    with c:
      ndim = 1 + c.index % 3
      kind, n, g = _nodes(c.rng, ndim)
      raw = gen.random_periodic_box(c.rng, ndim, orient='all', side_groups=True,
                                    maxcount={1: 5, 2: 3, 3: 2}[ndim])
      if c.rng.random() < .3:
        raw.groups = {}
      if c.rng.random() < .3 and raw.links is not None:
        # pair the sides with a turn: any vertex correspondence is legal
        fs = gen.symmetries(ndim - 1)
        s = fs[c.rng.integers(len(fs))]
        raw.links = np.stack([raw.links[:, 0], raw.links[:, 1][:, s]], axis=1)
      c.describe(mesh=raw.kind, elements=raw.elements, links=raw.links, family=kind, points=n)
      _judge(c, raw, refine_premesh(gen.to_premesh(raw), gridpoints_1d=g), n, kind)


def part_large(mon):
  """Groups and links of meshes with more nodes than fit in 16 bits."""
  from swirlmon import gen
  for c in mon.cases('box', 6, 40):
    with c:
      ndim = (2, 3, 1)[c.index % 3]
      raw, counts, periodic = gen.large_box(c.rng, ndim)
      c.describe(mesh=raw.kind)
      pm = gen.large_premesh(raw)
      lat = gen.lattice_of(pm.node_coords)
      grid = np.stack(np.meshgrid(*[[0, 1, 2]] * (ndim - 1), indexing='ij'), -1).reshape(-1, ndim - 1) if ndim > 1 else (
          np.zeros((1, 0), int))

      def facets(f, a):
        """Lower corners of facets normal to axis `a` if each consists of the points of one cell side."""
        x = lat[np.asarray(f)]
        low = x.min(1)
        rest = np.delete(x - low[:, None], a, axis=-1)
        rows = np.sort((rest * 3 ** np.arange(ndim - 1)).sum(-1), axis=1)
        want = np.sort((grid * 3 ** np.arange(ndim - 1)).sum(-1))
        ok = x.shape[1] == 3 ** (ndim - 1) and (x[..., a] == low[:, None, a]).all() and (rows == want).all()
        return ok, low
      c.check('names', set(pm.physical_groups) == set(raw.groups))
      for a in range(ndim):
        area = np.prod(np.delete(counts, a), dtype=int)
        for side, at in ((f'lo{a}', 0), (f'hi{a}', 2 * counts[a])):
          if a in periodic:
            continue
          ok, low = facets(pm.physical_groups[side], a)
          c.check('facets of a group', ok and len(low) == area == len(np.unique(low, axis=0)) and
                  (low[:, a] == at).all(), side)
          c.event('facets', len(low))
      if not periodic:
        continue
      links = np.asarray(pm.periodic_links)
      c.check('number of links', len(links) == sum(np.prod(np.delete(counts, a), dtype=int) for a in periodic), len(links))
      jump = lat[links[:, 1]] - lat[links[:, 0]]
      axis = np.abs(jump[:, 0]).argmax(1)
      want = np.zeros_like(jump)
      want[np.arange(len(links)), :, axis] = 2 * np.array(counts)[axis][:, None]
      c.equal('links join translates', np.abs(jump), want)
      for a in periodic:
        ok, low = facets(links[axis == a][:, 0], a)
        ok2, low2 = facets(links[axis == a][:, 1], a)
        both = np.unique(np.delete(low, a, axis=-1), axis=0)
        c.check('each periodic facet is linked once', ok and ok2 and len(both) == len(low) ==
                np.prod(np.delete(counts, a), dtype=int))
        c.event('links', len(low))

import numpy as np

PARTS = [dict(name='d1'), dict(name='d2'), dict(name='d3'), dict(name='d3high'), dict(name='large', budget={'quick': 90.})]
RULE = ('A case is a random mesh (family, geometry, numbering, element orientation) refined to a '
        'random node family; non-trivial when it has two or more elements or an interior node, '
        'and every local node of the result was matched with its topological key.')

FAMILIES = {'d1': 1, 'd2': 2, 'd3': 3, 'd3high': 3}


def nodes_for(rng, ndim, high=False, kinds=None):
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  kind = str(rng.choice(kinds or ['gauss_lobatto_legendre'] * 3 + ['newton_cotes', 'gauss_legendre']))
  top = {1: 9, 2: 7, 3: 4}[ndim] + (2 if high else 0)
  lo = 1 if kind == 'gauss_legendre' else (4 if high else 2)
  n = int(rng.integers(lo, top + 1))
  return kind, n, Nodes1D.create(num_points=n, node_type=NodeType(kind))


def judge(c, raw, refined, g, kind, n):
  """The refined mesh has exactly one node per topological point."""
  from swirlmon import gen, ref
  ndim = raw.ndim
  els = np.asarray(refined.elements)
  coords = np.asarray(refined.node_coords)
  ok = c.check('shape', els.shape == (len(raw.elements), n ** ndim), els.shape)
  ok = ok and c.check('index range', els.min() >= 0 and els.max() < len(coords),
                      f'{els.min()}..{els.max()} of {len(coords)}')
  if not ok:
    return
  c.check('order', refined.order == n - 1 and refined.gridpoints_1d == g)
  phi, _ = ref.lagrange(np.array([-1., 1.]), np.asarray(g.node_values))
  want = np.einsum('qn,end->eqd', ref.kron([phi] * ndim), raw.nodes[raw.elements])
  c.close('node positions', coords[els], want, rtol=1e-11)
  c.event('element_nodes', els.size)
  c.check('no unused node', len(np.unique(els)) == len(coords),
          f'{len(coords)} nodes, {len(np.unique(els))} used')
  if kind == 'gauss_legendre':
    c.check('nothing shared', len(coords) == els.size)
    return
  key_of, id_of, dup, split = {}, {}, 0, 0
  for e, idx in zip(raw.elements, els):
    for k, i in zip(gen.facet_keys(e, n, ndim), idx.tolist()):
      split += id_of.setdefault(k, i) != i
      dup += key_of.setdefault(i, k) != k
  c.event('shared_points', els.size - len(id_of))
  c.check('shared points have one node', split == 0, f'{split} shared points are duplicated')
  c.check('distinct points have distinct nodes', dup == 0, f'{dup} nodes stand for several points')
  c.check('node count', len(coords) == len(id_of), f'{len(coords)} != {len(id_of)}')


def _run(mon, ndim, quick, thorough, high=False):
  from swirlmon import gen
  from swirl_fem.core.mesh_refiner import refine_premesh
  for c in mon.cases('mesh', quick, thorough):
    with c:
      kind, n, g = nodes_for(c.rng, ndim, high)
      orient = str(c.rng.choice(['all', 'proper', 'none']))
      raw = gen.random_mesh(c.rng, ndim, str(c.rng.choice(['tiny', 'small', 'medium'])),
                            scrambled=False)
      if orient != 'none':
        raw, _, _ = gen.scramble(c.rng, raw, orient)
      raw.groups = {}
      c.describe(mesh=raw.kind, orient=orient, elements=raw.elements, family=kind, points=n)
      pm = gen.to_premesh(raw)
      before = (pm.node_coords.copy(), pm.elements.copy())
      judge(c, raw, refine_premesh(pm, gridpoints_1d=g), g, kind, n)
      c.check('input unchanged', np.array_equal(before[0], pm.node_coords)
              and np.array_equal(before[1], pm.elements))
  # every relative orientation of two elements sharing a facet
  sym = gen.symmetries(ndim)
  pairs = [(a, b) for a in range(len(sym)) for b in range(len(sym))]
  for c in mon.cases('pair', min(len(pairs), 200), len(pairs)):
    with c:
      if len(pairs) > 200 and mon.quick:
        a, b = pairs[int(c.rng.integers(len(pairs)))]
      else:
        a, b = pairs[c.index]
      kind, n, g = nodes_for(c.rng, ndim, high, ['gauss_lobatto_legendre', 'newton_cotes'])
      axis = int(c.rng.integers(ndim))
      raw = gen.box(tuple(2 if i == axis else 1 for i in range(ndim)))
      raw.elements = np.stack([raw.elements[0][sym[a]], raw.elements[1][sym[b]]])
      p = c.rng.permutation(len(raw.nodes))
      nodes = np.empty_like(raw.nodes)
      nodes[p] = raw.nodes
      raw.nodes, raw.elements, raw.groups = nodes, p[raw.elements], {}
      c.describe(symmetries=(a, b), numbering=p, family=kind, points=n)
      judge(c, raw, refine_premesh(gen.to_premesh(raw), gridpoints_1d=g), g, kind, n)
  for c in mon.cases('reject', 1, 1):
    with c:
      c.describe(kind='second refinement')
      _, _, g = nodes_for(c.rng, ndim, kinds=['gauss_lobatto_legendre'], high=True)
      pm = refine_premesh(gen.to_premesh(gen.box((1,) * ndim)), gridpoints_1d=g)
      c.raises('order above one', ValueError, lambda: refine_premesh(pm, gridpoints_1d=g))


def part_d1(mon):
  _run(mon, 1, 60, 600)


def part_d2(mon):
  _run(mon, 2, 120, 1500)


def part_d3(mon):
  _run(mon, 3, 70, 700)


def part_d3high(mon):
  _run(mon, 3, 25, 300, high=True)


def part_large(mon):
  """More nodes than fit in 16 bits; each is a point of a lattice."""
  from swirlmon import gen
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  for c in mon.cases('box', 6, 40):
    with c:
      ndim = (2, 3, 1)[c.index % 3]
      raw, counts, _ = gen.large_box(c.rng, ndim)
      kind = str(c.rng.choice(['gauss_lobatto_legendre', 'newton_cotes']))
      c.describe(mesh=raw.kind, kind=kind)
      pm = refine_premesh(gen.to_premesh(raw), gridpoints_1d=Nodes1D.create(num_points=3, node_type=NodeType(kind)))
      els, x = np.asarray(pm.elements), np.asarray(pm.node_coords)
      if not c.check('shape and range', els.shape == (len(raw.elements), 3 ** ndim) and els.min() >= 0
                     and els.max() < len(x), els.shape):
        continue
      c.check('node count', len(x) == np.prod([2 * k + 1 for k in counts]), len(x))
      lat = gen.lattice_of(x)
      c.close('nodes are lattice points', x, lat / 2, rtol=1e-12, scale=max(counts))
      keys = gen.flat_index(lat, counts)
      c.check('distinct points have distinct nodes', len(np.unique(keys)) == len(x))
      corners = gen.lattice_of(raw.nodes[raw.elements])
      w = np.array([[1., 0.], [.5, .5], [0., 1.]])
      from swirlmon import ref
      want = np.einsum('qn,end->eqd', ref.kron([w] * ndim), corners)
      c.equal('nodes of each element', lat[els], np.rint(want).astype(int))
      c.event('nodes', len(x))

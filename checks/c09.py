import numpy as np

PARTS = [dict(name='structured', devices=8), dict(name='unstructured', devices=8), dict(name='many'), dict(name='again', devices=8), dict(name='large', budget={'quick': 60.})]
RULE = ('A case is a mesh (structured, unstructured, disconnected, refined, with groups and links) and '
        'a number of partitions; non-trivial with two or more partitions, when the element '
        'assignment was judged by range, coverage, balance and cut.')


def _adjacency(elements):
  own = {}
  for i, e in enumerate(elements):
    for v in set(e.tolist()):
      own.setdefault(v, []).append(i)
  adj = [set() for _ in elements]
  for lst in own.values():
    for i in lst:
      adj[i].update(lst)
  return [sorted(a - {i}) for i, a in enumerate(adj)]


def _cut(adj, parts):
  return sum(parts[i] != parts[j] for i, a in enumerate(adj) for j in a) / 2


def _judge(c, mon, pm, k, finalize, earlier=None):
  import pymetis
  from swirl_fem.common import mesh_partitioner
  before = {f: None if getattr(pm, f) is None else np.array(getattr(pm, f))
            for f in ('node_coords', 'elements', 'periodic_links')}
  groups = {g: np.array(v) for g, v in pm.physical_groups.items()}
  out = mesh_partitioner.partition(pm, k)
  parts = np.asarray(out.partitions)
  n = len(before['elements'])
  c.event('elements', n)
  if not c.check('one id per element', parts.shape == (n,) and np.issubdtype(parts.dtype, np.integer),
                 f'{parts.shape} {parts.dtype}'):
    return
  c.check('ids in range', parts.min() >= 0 and parts.max() < k, f'{parts.min()}..{parts.max()} of {k}')
  for f, v in before.items():
    w = getattr(out, f)
    c.check('mesh unchanged', (v is None and w is None) or np.array_equal(v, w), f)
    w = getattr(pm, f)
    c.check('input unchanged', (v is None and w is None) or np.array_equal(v, w), f)
  c.check('groups unchanged', set(groups) == set(out.physical_groups) and
          all(np.array_equal(v, out.physical_groups[g]) for g, v in groups.items()))
  c.check('order unchanged', out.order == pm.order and out.gridpoints_1d == pm.gridpoints_1d)
  c.check('partitions of the input unchanged',
          pm.partitions is None if earlier is None else np.array_equal(pm.partitions, earlier))
  if n >= 20 * k:
    sizes = np.bincount(parts, minlength=k)
    c.check('every partition is used', sizes.min() > 0, sizes)
    c.check('balanced', sizes.max() <= 1.35 * n / k + 1, sizes)
    adj = _adjacency(before['elements'])
    pairs = sum(map(len, adj)) / 2
    cut = _cut(adj, parts)
    if k > 1:
      ref = _cut(adj, np.array(pymetis.part_graph(k, adjacency=adj)[1]))
      c.describe(cut=cut, reference_cut=ref)
      c.event('node_sharing_pairs', pairs)
      c.check('cuts far fewer pairs than random', cut <= .8 * pairs * (1 - 1 / k) + 1,
              f'{cut} of {pairs}')
      c.check('cut is close to that of the adjacency graph', cut <= 1.6 * ref + 6, f'{cut} vs {ref}')
  if finalize and k <= mon.devices and len(np.unique(parts)) == k:
    mesh = out.finalize(axis_name='i')
    els = np.asarray(mesh.elements)
    xyz = np.asarray(mesh.node_coords)
    want = before['node_coords'][before['elements']]
    for p in range(k):
      rows = els[p][els[p][:, 0] >= 0]
      got = np.sort(xyz[p][rows].reshape(len(rows), -1), axis=0)
      ref = np.sort(want[parts == p].reshape(np.sum(parts == p), -1), axis=0)
      c.check('finalized elements', got.shape == ref.shape and np.allclose(got, ref))
  c.trivial = k == 1
  return out


def part_structured(mon):
  from swirl_fem.common import premesh_commons
  for c in mon.cases('cube', 25, 250):
    with c:
      ndim = int(c.rng.integers(1, 4))
      size = int(c.rng.integers(1, {1: 120, 2: 14, 3: 6}[ndim] + 1))
      per = [a for a in range(ndim) if c.rng.random() < .2]
      k = int(c.rng.integers(1, 9)) if c.rng.random() < .8 else int(c.rng.integers(9, 20))
      k = min(k, size ** ndim)
      c.describe(ndim=ndim, size=size, periodic=per, partitions=k)
      _judge(c, mon, premesh_commons.unit_cube_mesh(size, ndim=ndim, periodic_dims=per), k,
             not per and c.rng.random() < .4)


def part_unstructured(mon):
  from swirlmon import gen
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  for c in mon.cases('mesh', 25, 250):
    with c:
      ndim = int(c.rng.integers(2, 4))
      style = str(c.rng.choice(['simplex', 'annulus', 'islands', 'sub', 'refined']))
      if style == 'simplex':
        raw = gen.simplex_mesh(c.rng, ndim, int(c.rng.integers(9, 60 if ndim == 2 else 30)))
      elif style == 'annulus':
        raw = gen.annulus(int(c.rng.integers(6, 40)), int(c.rng.integers(1, 5)))
      elif style == 'islands':
        a, b = gen.box((5, 6)), gen.box((4, 7))
        raw = gen.Raw(np.concatenate([a.nodes, b.nodes + 5]),
                      np.concatenate([a.elements, b.elements + len(a.nodes)]), kind='islands')
      elif style == 'sub':
        raw = gen.drop_elements(c.rng, gen.box((9, 9)), int(c.rng.integers(10, 60)))
      else:
        raw = gen.box((6, 5))
      raw, _, _ = gen.scramble(c.rng, raw, 'proper')
      n = len(raw.elements)
      k = min(n, int(c.rng.integers(1, 9)))
      c.describe(style=style, elements=raw.elements, partitions=k)
      pm = gen.to_premesh(raw)
      if style == 'refined':
        pm = refine_premesh(pm, gridpoints_1d=Nodes1D.create(
            num_points=3, node_type=NodeType.GAUSS_LOBATTO_LEGENDRE))
      _judge(c, mon, pm, k, c.rng.random() < .4)


def part_many(mon):
  """More partitions than fit into a byte."""
  from swirl_fem.common import premesh_commons
  for c in mon.cases('cube', 4, 40):
    with c:
      ndim = int(c.rng.integers(1, 4))
      size = {1: 3000, 2: 55, 3: 14}[ndim]
      k = int(c.rng.choice([129, 200, 256, 257, 300, 400]))
      if ndim == 1:
        size = int(c.rng.integers(3 * k, 10 * k))
      c.describe(ndim=ndim, size=size, partitions=k)
      _judge(c, mon, premesh_commons.unit_cube_mesh(size, ndim=ndim), k, False)


def part_again(mon):
  """Meshes that are partitioned several times, also into a single partition."""
  from swirlmon import gen
  for c in mon.cases('history', 10, 200):
    with c:
      raw = gen.random_mesh(c.rng, int(c.rng.integers(1, 4)))
      pm = gen.to_premesh(raw)
      n = len(raw.elements)
      ks = [min(n, int(k)) for k in c.rng.permutation([1, 1, 2, 3, 5])[:int(c.rng.integers(2, 5))]]
      c.describe(elements=raw.elements, partitions=ks)
      earlier = None if c.rng.random() < .5 else c.rng.integers(0, 3, n).astype(np.int32)
      pm = pm.replace(partitions=earlier)
      for k in ks:
        pm = _judge(c, mon, pm, k, False, earlier)
        if pm is None:
          break
        earlier = np.array(pm.partitions)
        c.event('partitioned again')
      c.trivial = False


def part_large(mon):
  """More nodes than fit in 16 bits."""
  from swirlmon import gen
  for c in mon.cases('bar', 1, 8):
    with c:
      raw, counts, _ = gen.large_box(c.rng, int(c.rng.integers(2, 4)))
      k = int(c.rng.choice([2, 3, 4, 7, 40]))
      c.describe(mesh=raw.kind, partitions=k)
      pm = gen.to_premesh(raw)
      _judge(c, mon, pm, k, False)

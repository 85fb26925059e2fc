import numpy as np

PARTS = [dict(name=f'devices{i}', fn='devices', devices=8) for i in range(4)] + [
    dict(name='layout', devices=8), dict(name='cube', devices=8)]
RULE = ('A case is a mesh with a random partitioning (even or uneven, with periodic links across '
        'partitions, refined or not); non-trivial with two or more partitions, when values computed '
        'on the devices were compared with the unpartitioned mesh.')


def _refined(c, raw, ndim, gl=False):
  from swirlmon import gen
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  n = int(c.rng.integers(2, {1: 7, 2: 5, 3: 4}[ndim]))
  pm = gen.to_premesh(raw)
  if n > 2 or c.rng.random() < .3:
    kind = str(c.rng.choice(['gauss_lobatto_legendre', 'newton_cotes']))
    pm = refine_premesh(pm, gridpoints_1d=Nodes1D.create(num_points=n, node_type=NodeType(kind)))
  return n, pm


def part_layout(mon):
  """Placement only (no compiled operators): many partitionings."""
  from swirlmon import gen, dist
  for c in mon.cases('layout', 45, 1500):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      P = int(c.rng.integers(1, mon.devices + 1))
      raw = dist.partitioned_raw(c.rng, ndim, P)
      P = dist.leave_gaps(c.rng, raw, P, mon.devices)
      c.describe(mesh=raw.kind, elements=raw.elements, partitions=raw.partitions, links=raw.links)
      n, pm = _refined(c, raw, ndim)
      mesh = pm.finalize(axis_name='i')
      c.describe(points=n)
      c.event('partitions_%d' % P)
      l2g = dist.match(c, mesh, pm.elements, pm.node_coords, raw.partitions)
      if l2g is None:
        continue
      real = l2g >= 0
      cls = gen.link_classes(len(pm.node_coords), pm.periodic_links)
      c.check('order', mesh.order == n - 1 and mesh.gridpoints_1d == pm.gridpoints_1d)
      c.check('axis', mesh.axis_name == 'i')
      # exchanged nodes are exactly those with several copies
      lcls = np.where(real, cls[np.maximum(l2g, 0)], -1)
      mult = np.bincount(lcls[real], minlength=len(cls))
      gi = mesh.exchange_gather_indices
      gi = -np.ones((P, 0), int) if gi is None else np.asarray(gi)
      for p in range(P):
        have = set(gi[p][gi[p] >= 0].tolist()) if len(gi) else set()
        want = {i for i in range(l2g.shape[1]) if real[p, i] and mult[lcls[p, i]] > 1}
        c.check('marks the shared nodes', have >= want, f'partition {p}: {have} vs {want}')
        c.check('marks only shared nodes', have <= want, f'partition {p}: {have} vs {want}')
      c.trivial = P == 1
  for c in mon.cases('reject', 1, 1):
    with c:
      c.describe(kind='no axis name')
      raw = gen.box((2, 2))
      raw.partitions = np.array([0, 1, 0, 1])
      c.raises('axis name needed', ValueError, lambda: gen.to_premesh(raw).finalize())


def _operators(fs, mesh, u, v, g, dev):
  """Values compared between a serial and a partitioned run."""
  import jax
  import jax.numpy as jnp
  from jax import vmap
  from swirl_fem.core.fespace import grad, div
  def psum(x):
    return jax.lax.psum(x, 'i') if dev else x
  ul = mesh.gather(u)
  vl = vmap(mesh.gather, in_axes=-1, out_axes=-1)(v)
  uf, vf = fs.scalar_function(ul), fs.vector_function(vl)
  ph, vph = fs.scalar_function(None), fs.vector_function(None)
  ssum = lambda loc: mesh.exchange(mesh.scatter(loc))
  out = {}
  out['mass'] = ssum(fs.local_covector(lambda a, b: lambda x: a(x) * b(x) * g(x), (ph, uf)))
  out['stiffness'] = ssum(fs.local_covector(
      lambda a, b: lambda x: jnp.dot(grad(a)(x), grad(b)(x)), (ph, uf)))
  out['divergence'] = ssum(fs.local_covector(lambda a, b: lambda x: a(x) * div(b)(x), (ph, vf)))
  loc = fs.local_covector(lambda a, b: lambda x: div(a)(x) * b(x), (vph, uf))
  out['gradient'] = vmap(ssum, in_axes=-1, out_axes=-1)(loc)
  out['volume'] = psum(fs.integrate(lambda x: 1. + 0 * x[0]))
  out['integral'] = psum(fs.integrate(lambda x: g(x) * uf(x)))
  out['energy'] = psum(fs.integrate(lambda x: jnp.dot(grad(uf)(x), grad(uf)(x)) + div(vf)(x) ** 2))
  return out


def _compare(c, raw, pm, P, rng, nq):
  import jax
  import jax.numpy as jnp
  from swirlmon import dist
  from swirl_fem.core.interpolation import NodeType, Quadrature1D
  from swirl_fem.core.fespace import FiniteElementSpace
  quad = Quadrature1D.create(num_points=nq, quadrature_type=NodeType.GAUSS_LEGENDRE)
  k = rng.normal(size=raw.ndim)
  g = lambda x: 1. + jnp.sin(jnp.dot(jnp.asarray(k), x))
  serial = pm.replace(partitions=None).finalize()
  N = len(pm.node_coords)
  u, v = rng.normal(size=N), rng.normal(size=(N, raw.ndim))
  want = jax.jit(lambda a, b: _operators(FiniteElementSpace.create(serial, quad), serial, a, b, g, False))(
      jnp.asarray(u), jnp.asarray(v))
  want = {kk: np.asarray(x) for kk, x in want.items()}
  mesh = pm.finalize(axis_name='i')
  l2g = dist.match(c, mesh, pm.elements, pm.node_coords, raw.partitions)
  if l2g is None:
    return
  real = l2g >= 0
  lu, lv = np.where(real, u[l2g], 0.), np.where(real[..., None], v[l2g], 0.)
  got = jax.pmap(lambda m, a, b: _operators(FiniteElementSpace.create(m, quad), m, a, b, g, True),
                 axis_name='i')(mesh, jnp.asarray(lu), jnp.asarray(lv))
  for kk, x in got.items():
    x = np.asarray(x)
    c.check('finite ' + kk, np.all(np.isfinite(x)), f'{np.sum(~np.isfinite(x))} non-finite values')
    if kk in ('volume', 'integral', 'energy'):
      c.close(kk, x, np.full(P, want[kk]), rtol=1e-11)
    else:
      c.close(kk, x[real], want[kk][l2g[real]], rtol=1e-11)
  c.event('compared_node_values', 4 * np.sum(real))
  c.event('padding_elements_total', np.sum(np.asarray(mesh.elements)[:, :, 0] < 0))
  c.event('partitions_%d' % P)


def part_devices(mon):
  from swirlmon import dist
  for c in mon.cases('operators', 9, 300):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      P = int(c.rng.integers(2, mon.devices + 1))
      raw = dist.partitioned_raw(c.rng, ndim, P)
      P = dist.leave_gaps(c.rng, raw, P, mon.devices)
      c.describe(mesh=raw.kind, elements=raw.elements, partitions=raw.partitions, links=raw.links)
      n, pm = _refined(c, raw, ndim)
      nq = int(c.rng.integers(n, n + 3))
      c.describe(points=n, quadrature=nq)
      _compare(c, raw, pm, P, c.rng, nq)


def part_cube(mon):
  """Structured cubes partitioned by blocks or by the graph partitioner."""
  from swirlmon import gen
  from swirl_fem.common import premesh_commons, mesh_partitioner
  for c in mon.cases('cube', 8, 200):
    with c:
      ndim = int(c.rng.integers(2, 4))
      size = int(c.rng.integers(2, 4))
      pm = premesh_commons.unit_cube_mesh(size, ndim=ndim)
      k = int(c.rng.integers(2, min(8, size ** ndim) + 1))
      pm = mesh_partitioner.partition(pm, k)
      parts = np.asarray(pm.partitions)
      if len(np.unique(parts)) != parts.max() + 1:
        parts = gen.random_partitions(c.rng, len(parts), k)
        pm = pm.replace(partitions=parts)
      raw = gen.Raw(np.asarray(pm.node_coords), np.asarray(pm.elements), {}, None, parts)
      c.describe(size=size, ndim=ndim, partitions=parts)
      n, rpm = _refined_premesh(c, pm, ndim)
      c.describe(points=n)
      _compare(c, raw, rpm, int(parts.max()) + 1, c.rng, n + 1)


def _refined_premesh(c, pm, ndim):
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  n = int(c.rng.integers(2, 5 if ndim == 2 else 4))
  return n, refine_premesh(pm, gridpoints_1d=Nodes1D.create(
      num_points=n, node_type=NodeType.GAUSS_LOBATTO_LEGENDRE))

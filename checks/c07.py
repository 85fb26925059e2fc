import numpy as np

PARTS = [dict(name='serial1', fn='serial'), dict(name='serial2', fn='serial'),
         dict(name='devices1', fn='devices', devices=8), dict(name='devices2', fn='devices', devices=8),
         dict(name='meshes1', fn='meshes', devices=8), dict(name='meshes2', fn='meshes', devices=8), dict(name='large', devices=4, budget={'quick': 90.})]
RULE = ('A case is a set of links/partitioned node indices (chains, corners, padding) with random '
        'values; non-trivial when at least one degree of freedom has several copies and the '
        'exchanged values were compared with the union-find sums.')


def _class_sums(cls, u):
  s = {}
  for k, v in zip(cls.ravel().tolist(), u.ravel().tolist()):
    s[k] = s.get(k, 0.) + v
  return s


def _agree(c, cls, u):
  """All copies hold exactly the same value, however small their sum is."""
  cls, u = cls.ravel(), np.asarray(u).ravel()
  _, first, inverse = np.unique(cls, return_index=True, return_inverse=True)
  c.equal('copies hold the same value', u, u[first[inverse]])


def part_serial(mon):
  import jax
  import jax.numpy as jnp
  from swirlmon import gen
  from swirl_fem.core import gather_scatter as gs
  for c in mon.cases('links', 60, 2500):
    with c:
      n = int(c.rng.integers(2, 60))
      f = int(c.rng.integers(1, 9))
      k = int(c.rng.integers(1, 6))
      pool = c.rng.permutation(n)[:max(2, int(n * c.rng.uniform(.15, 1.)))]
      links = c.rng.choice(pool, (f, 2, k))
      links[:, 1] = np.where(links[:, 0] == links[:, 1],
                             pool[(np.searchsorted(np.sort(pool), links[:, 1]) + 1) % len(pool)], links[:, 1])
      if c.rng.random() < .05:
        links = links[:0]
      links = links.astype(np.int32)
      cls = gen.link_classes(n, links)
      c.describe(nodes=n, links=links)
      sizes = np.unique(cls, return_counts=True)[1]
      c.event('identified_dofs', np.sum(sizes > 1))
      c.event('largest_class_%d' % min(int(sizes.max()), 9))
      c.trivial = sizes.max() == 1
      base = np.arange(n, dtype=np.int32)
      uniq = np.asarray(gs.get_unique_node_indices(base, links if len(links) or c.rng.random() < .5 else None))
      same = uniq[:, None] == uniq[None]
      c.equal('identified exactly when linked', same, cls[:, None] == cls[None])
      gi, ui = gs.get_exchange_indices(uniq)
      u = c.rng.normal(size=n)
      sums = _class_sums(cls, u)
      want = np.array([sums[int(k)] for k in cls])
      ex = lambda a: gs.exchange(a, gather_indices=gi, unique_indices=ui)
      mode = str(c.rng.choice(['eager', 'jit', 'jit argument']))
      if mode == 'jit':
        exj = jax.jit(ex)
      elif mode == 'jit argument':
        exj = lambda a: jax.jit(lambda b, g: gs.exchange(b, gather_indices=g, unique_indices=ui))(
            a, jnp.asarray(gi))
      else:
        exj = ex
      got = np.asarray(exj(jnp.asarray(u)))
      c.close('sum over copies', got, want, rtol=1e-13)
      _agree(c, cls, got)
      # residuals of converged solutions: sizeable values whose sums vanish up to rounding errors
      res = u.copy()
      for i in np.unique(cls)[sizes > 1]:
        where = np.flatnonzero(cls == i)
        res[where[-1]] = -res[where[:-1]].sum() + float(c.rng.choice([0., 1e-10, 1e-14]))
      got_r = np.asarray(exj(jnp.asarray(res)))
      sr = _class_sums(cls, res)
      c.close('cancelling sums', got_r, np.array([sr[int(k)] for k in cls]), rtol=1e-13, scale=np.abs(res).max())
      _agree(c, cls, got_r)
      alone = np.isin(cls, np.unique(cls)[sizes == 1])
      c.equal('other nodes unchanged', got[alone], u[alone])
      batch = c.rng.normal(size=(n, 3))
      b = np.asarray(jax.vmap(exj, in_axes=-1, out_axes=-1)(jnp.asarray(batch)))
      for i in range(3):
        s = _class_sums(cls, batch[:, i])
        c.close('vmap', b[:, i], np.array([s[int(k)] for k in cls]), rtol=1e-13)
      # the operator is symmetric and derivatives apply the same operator
      v = c.rng.normal(size=n)
      _, pull = jax.vjp(exj, jnp.asarray(u))
      sv = _class_sums(cls, v)
      wv = np.array([sv[int(k)] for k in cls])
      c.close('reverse derivative', pull(jnp.asarray(v))[0], wv, rtol=1e-12)
      c.close('forward derivative', jax.jvp(exj, (jnp.asarray(u),), (jnp.asarray(v),))[1], wv, rtol=1e-12)


def part_devices(mon):
  import jax
  import jax.numpy as jnp
  from swirlmon import gen
  from swirl_fem.core import gather_scatter as gs
  for c in mon.cases('partitioned', 40, 1500):
    with c:
      p = int(c.rng.integers(1, mon.devices + 1))
      l = int(c.rng.integers(1, 14))
      n = int(c.rng.integers(l, 4 * l + 2))
      scale = int(c.rng.choice([1, 1, 13]))
      rows = []
      for _ in range(p):
        m = int(c.rng.integers(0, l + 1)) if c.rng.random() < .5 else l
        row = -np.ones(l, int)
        where = np.arange(m) if c.rng.random() < .5 else np.sort(c.rng.permutation(l)[:m])
        row[where] = c.rng.permutation(n)[:m] * scale
        rows.append(row)
      idx = np.array(rows, dtype=np.int32)
      c.describe(partitions=p, node_indices=idx)
      gi, ui = gs.get_exchange_indices(idx)
      c.check('one column per exchanged dof', np.asarray(gi).shape[0] == p)
      u = c.rng.normal(size=idx.shape)
      batch = c.rng.random() < .3
      if batch:
        u = c.rng.normal(size=idx.shape + (2,))
      def f(a, g):
        one = lambda x: gs.exchange(x, gather_indices=g, unique_indices=ui, axis_name='dev')
        return jax.vmap(one, in_axes=-1, out_axes=-1)(a) if batch else one(a)
      got = np.asarray(jax.pmap(f, axis_name='dev')(jnp.asarray(u), jnp.asarray(gi)))
      ids, counts = np.unique(idx[idx >= 0], return_counts=True)
      c.event('shared_dofs', np.sum(counts > 1))
      c.event('devices_%d' % p)
      c.trivial = not np.any(counts > 1)
      for comp in range(u.shape[-1] if batch else 1):
        a = u[..., comp] if batch else u
        g = got[..., comp] if batch else got
        want = a.copy()
        for i in ids:
          want[idx == i] = a[idx == i].sum()
        c.close('sum over devices', g, want, rtol=1e-13)
        _agree(c, idx[idx >= 0], g[idx >= 0])
        single = np.isin(idx, ids[counts == 1]) | (idx < 0)
        c.equal('others unchanged', g[single], a[single])


def part_meshes(mon):
  """Exchange of finalized meshes, serial and partitioned, periodic or not."""
  import jax
  import jax.numpy as jnp
  from swirlmon import gen, dist
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  for c in mon.cases('mesh exchange', 16, 500):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      P = int(c.rng.integers(1, mon.devices + 1))
      if P == 1:
        raw = gen.random_periodic_box(c.rng, ndim, maxcount={1: 6, 2: 3, 3: 2}[ndim])
      else:
        raw = dist.partitioned_raw(c.rng, ndim, P, periodic=c.rng.random() < .75)
        P = dist.leave_gaps(c.rng, raw, P, mon.devices)
      n = int(c.rng.integers(2, 5 if ndim < 3 else 4))
      c.describe(mesh=raw.kind, elements=raw.elements, partitions=raw.partitions, links=raw.links, points=n)
      pm = gen.to_premesh(raw)
      if n > 2:
        pm = refine_premesh(pm, gridpoints_1d=Nodes1D.create(
            num_points=n, node_type=NodeType.GAUSS_LOBATTO_LEGENDRE))
      cls = gen.link_classes(len(pm.node_coords), pm.periodic_links)
      u = c.rng.normal(size=len(cls))
      if P == 1:
        mesh = pm.finalize()
        sums = _class_sums(cls, u)
        want = np.array([sums[int(k)] for k in cls])
        c.event('identified_dofs', np.sum(np.bincount(cls) > 1))
        mode = str(c.rng.choice(['eager', 'jit', 'jit argument']))
        f = {'eager': mesh.exchange, 'jit': jax.jit(mesh.exchange),
             'jit argument': lambda a: jax.jit(lambda m, b: m.exchange(b))(mesh, a)}[mode]
        got = f(jnp.asarray(u))
        c.close('mesh exchange', got, want, rtol=1e-13)
        _agree(c, cls, got)
        same = np.asarray(mesh.node_indices)
        c.equal('node indices', same[:, None] == same[None], cls[:, None] == cls[None])
        continue
      mesh = pm.finalize(axis_name='dev')
      l2g = dist.match(c, mesh, pm.elements, pm.node_coords, np.asarray(pm.partitions))
      if l2g is None:
        continue
      real = l2g >= 0
      lu = np.where(real, c.rng.normal(size=l2g.shape), 0.)
      if c.rng.random() < .5:
        # all values of a node agree, as for fields
        lu = np.where(real, u[l2g], 0.)
      got = np.asarray(jax.pmap(lambda m, a: m.exchange(a), axis_name='dev')(mesh, jnp.asarray(lu)))
      lcls = np.where(real, cls[l2g], -1)
      sums = _class_sums(lcls[real], lu[real])
      want = np.where(real, np.array([sums.get(int(k), 0.) for k in lcls.ravel()]).reshape(lcls.shape), 0.)
      c.event('copies', np.sum(real))
      c.close('mesh exchange', np.where(real, got, 0.), want, rtol=1e-12)
      _agree(c, lcls[real], got[real])
      ni = np.asarray(mesh.node_indices)[real]
      lc = lcls[real]
      c.equal('node indices', ni[:, None] == ni[None], lc[:, None] == lc[None])
      c.check('padding keeps the sentinel', np.all(np.asarray(mesh.node_indices)[~real] == -1))
      c.check('finite', np.all(np.isfinite(got)))
      v = np.where(real, c.rng.normal(size=l2g.shape), 0.)
      gv = np.asarray(jax.pmap(lambda m, a: m.exchange(a), axis_name='dev')(mesh, jnp.asarray(v)))
      c.close('symmetric', np.sum(np.where(real, gv * lu, 0)), np.sum(np.where(real, got * v, 0)), atol=1e-10)


def part_large(mon):
  """Exchanges of more nodes than fit in 16 bits, on one device and four."""
  import jax
  import jax.numpy as jnp
  from swirlmon import gen
  for c in mon.cases('box', 4, 40):
    with c:
      ndim = (2, 2, 3, 1)[c.index % 4]
      parts = 4 if c.index % 4 in (1, 2) else None
      periodic = None
      while not periodic and not parts:
        periodic = tuple(a for a in range(ndim) if c.rng.random() < .6)
      raw, counts, periodic = gen.large_box(c.rng, ndim, periodic, parts)
      c.describe(mesh=raw.kind, parts=parts)
      mesh = gen.large_premesh(raw).finalize(**(dict(axis_name='i') if parts else {}))
      els = np.asarray(mesh.elements)
      real = np.zeros(np.shape(mesh.node_coords)[:-1], bool)
      for k in range(parts or 1):
        e = els[k] if parts else els
        (real[k] if parts else real)[e[e >= 0]] = True
      cls = gen.flat_index(gen.lattice_of(mesh.node_coords), counts, periodic)
      cls = np.unique(np.where(real, cls, -1), return_inverse=True)[1].reshape(real.shape)
      u = np.where(real, c.rng.normal(size=real.shape), 0.)
      f = jax.pmap(lambda m, a: m.exchange(a), axis_name='i') if parts else (lambda m, a: m.exchange(a))
      got = np.asarray(f(mesh, jnp.asarray(u)))
      sums = np.zeros(cls.max() + 1)
      np.add.at(sums, cls[real], u[real])
      c.close('sum over copies', got[real], sums[cls[real]], rtol=1e-12)
      _agree(c, cls[real], got[real])
      c.check('node indices', len(np.unique(np.stack([cls[real], np.asarray(mesh.node_indices)[real]]), axis=1).T)
              == len(np.unique(cls[real])) == len(np.unique(np.asarray(mesh.node_indices)[real])))
      c.event('copies', np.sum(real))

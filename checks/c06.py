import numpy as np

PARTS = [dict(name='arrays1', fn='arrays'), dict(name='arrays2', fn='arrays'), dict(name='meshes'), dict(name='partitions'), dict(name='large', budget={'quick': 90.})]
RULE = ('A case is a random index array (repeats, padding pattern, dtype, shape) with random values '
        'or a random partition assignment; non-trivial when gathered, scattered or regrouped '
        'entries were compared one by one with the reference.')


def _indices(rng, n):
  """Index arrays with repeats, absent nodes, and padding anywhere."""
  style = str(rng.choice(['elements', 'flat', 'cube', 'empty'], p=[.6, .2, .15, .05]))
  if style == 'empty':
    shape = (0, int(rng.integers(1, 5)))
  elif style == 'flat':
    shape = (int(rng.integers(1, 60)),)
  elif style == 'cube':
    shape = tuple(int(i) for i in rng.integers(1, 5, 3))
  else:
    shape = (int(rng.integers(1, 20)), int(rng.integers(1, 28)))
  hot = rng.integers(0, n, max(1, n // 3))
  idx = np.where(rng.random(shape) < .5, rng.integers(0, n, shape), rng.choice(hot, shape))
  pad = str(rng.choice(['none', 'some', 'rows', 'all'], p=[.3, .35, .3, .05]))
  if pad == 'some':
    idx = np.where(rng.random(shape) < .3, -1, idx)
  elif pad == 'rows' and len(shape) > 1 and shape[0]:
    idx[rng.integers(0, shape[0]):] = -1
  elif pad == 'all':
    idx = np.full(shape, -1)
  return idx.astype(rng.choice([np.int32, np.int64])), pad


def part_arrays(mon):
  import jax
  import jax.numpy as jnp
  from swirl_fem.core import gather_scatter as gs
  from swirl_fem.core.mesh import Mesh
  for c in mon.cases('index array', 90, 3000):
    with c:
      n = int(c.rng.integers(1, 40))
      idx, pad = _indices(c.rng, n)
      dtype = c.rng.choice([np.float64, np.float32, np.int32])
      if dtype == np.int32:
        u = c.rng.integers(-50, 50, n).astype(dtype)
        v = c.rng.integers(-50, 50, idx.shape).astype(dtype)
        fill = int(c.rng.integers(-9, 9))
      else:
        u = c.rng.normal(size=n).astype(dtype)
        v = c.rng.normal(size=idx.shape).astype(dtype)
        fill = float(c.rng.choice([0., -1., 2.5]))
      mode = str(c.rng.choice(['eager', 'jit', 'jit closed']))
      host = c.rng.random() < .3
      c.describe(nodes=n, indices=idx, padding=pad, dtype=np.dtype(dtype).name, mode=mode, fill=fill)
      c.event('entries', idx.size)
      c.event('padding_entries', np.sum(idx < 0))
      c.event('repeated_entries', np.sum(idx >= 0) - len(np.unique(idx[idx >= 0])))
      want = np.where(idx >= 0, u[idx] if idx.size else np.zeros(idx.shape, dtype), np.array(fill, dtype))
      ju, jv, ji = jnp.asarray(u), jnp.asarray(v), (idx if host else jnp.asarray(idx))
      g = lambda a, i: gs.gather(a, i, fill_value=fill)
      s = lambda a, i: gs.scatter(a, i, num_nodes=n)
      if mode == 'jit':
        g, s = jax.jit(g), jax.jit(s)
      elif mode == 'jit closed':
        g0, s0 = g, s
        g, s = (lambda a, i: jax.jit(lambda b: g0(b, i))(a)), (lambda a, i: jax.jit(lambda b: s0(b, i))(a))
      got = g(ju, ji)
      c.check('gather dtype', got.dtype == dtype, got.dtype)
      c.equal('gather', got, want)
      wide = np.zeros(n, np.float64)
      np.add.at(wide, idx[idx >= 0], v[idx >= 0].astype(np.float64))
      got_s = s(jv, ji)
      c.check('scatter dtype', got_s.dtype == dtype, got_s.dtype)
      eps = {np.float64: 1e-13, np.float32: 3e-5}.get(dtype, 0.)
      c.close('scatter', got_s, wide, rtol=eps, atol=eps)
      if dtype == np.float64:
        # scatter keeps totals, and is the transpose of gather (with zero fill)
        total = np.sum(v[idx >= 0])
        c.close('scatter conserves the sum', np.sum(np.asarray(got_s)), total, atol=1e-11)
        q = np.asarray(jnp.where(ji != -1, g(ju, ji), 0.))
        c.close('adjoint', np.sum(q * v), np.sum(np.asarray(got_s) * u), atol=1e-10)
        g0 = lambda a: gs.gather(a, ji, fill_value=0.)
        t = jax.linear_transpose(g0, ju)(jv)[0]
        c.close('transpose of gather is scatter', t, wide, atol=1e-11)
        t = jax.linear_transpose(lambda a: gs.scatter(a, ji, num_nodes=n), jv)(ju)[0]
        c.close('transpose of scatter is gather', t, np.where(idx >= 0, want, 0.), atol=1e-11)
      c.trivial = idx.size == 0


def part_meshes(mon):
  import jax.numpy as jnp
  from swirl_fem.core.mesh import Mesh
  for c in mon.cases('mesh', 40, 600):
    with c:
      from swirlmon import gen
      ndim = 1 + c.index % 3
      raw = gen.random_mesh(c.rng, ndim, 'small')
      els = raw.elements.copy()
      k = int(c.rng.integers(0, 3))
      padded = np.concatenate([els, np.full((k, els.shape[1]), -1)])
      c.describe(elements=els, padding_rows=k)
      mesh = Mesh.create(node_coords=jnp.asarray(raw.nodes), elements=jnp.asarray(padded, dtype=jnp.int32))
      u = c.rng.normal(size=len(raw.nodes))
      v = c.rng.normal(size=padded.shape)
      c.event('mesh_elements', len(els))
      c.equal('mesh gather', mesh.gather(jnp.asarray(u)),
              np.concatenate([u[els], np.zeros((k, els.shape[1]))]))
      w = np.zeros(len(u))
      np.add.at(w, els, v[:len(els)])
      c.close('mesh scatter', mesh.scatter(jnp.asarray(v)), w, rtol=1e-13)
      c.equal('element coords', np.asarray(mesh.element_coords())[:len(els)], raw.nodes[els])
      c.check('sizes', mesh.num_nodes == len(u) and mesh.num_elements == len(padded)
              and mesh.ndim == ndim and mesh.num_nodes_per_element == 2 ** ndim)
      mult = np.bincount(els.ravel(), minlength=len(u))
      c.close('scatter of gather multiplies by the valence',
              mesh.scatter(mesh.gather(jnp.asarray(u))), mult * u, rtol=1e-13)
      c.raises('wrong size', ValueError, lambda: mesh.gather(jnp.zeros(len(u) + 1)))


def part_partitions(mon):
  from swirlmon import gen
  from swirl_fem.core import gather_scatter as gs
  for c in mon.cases('partition', 150, 4000):
    with c:
      p = int(c.rng.integers(1, 9))
      n = int(c.rng.integers(p, 60))
      parts = gen.random_partitions(c.rng, n, p)
      if c.rng.random() < .3:  # some partitions without elements
        q = p + int(c.rng.integers(1, 4))
        parts = np.sort(c.rng.choice(q, p, replace=False))[parts]
        p = 1 + int(parts.max())
      c.describe(partitions=parts)
      out = np.asarray(gs.group_by_partitions(parts))
      sizes = np.bincount(parts, minlength=p)
      c.event('indices', n)
      c.check('shape', out.shape == (p, sizes.max()), out.shape)
      ok = True
      for k in range(p):
        row = out[k][out[k] != -1]
        ok &= sorted(row.tolist()) == np.flatnonzero(parts == k).tolist()
        ok &= len(out[k]) - len(row) == sizes.max() - sizes[k]
      c.check('each index once in its row', ok, f'{parts.tolist()} -> {out.tolist()}')
      # renumbering of partitioned elements
      m = int(c.rng.integers(1, 9))
      num_nodes = int(c.rng.integers(1, 40))
      glob = c.rng.integers(0, num_nodes, (n, m))
      stride = int(c.rng.choice([1, 1, 7]))
      els = np.where(out[..., None] >= 0, (glob * stride)[out], -1)
      idx, loc = [np.asarray(a) for a in gs.get_local_elements(els.astype(np.int32))]
      c.check('local shape', loc.shape == els.shape, loc.shape)
      for k in range(p):
        used = idx[k][idx[k] != -1]
        want = np.unique(els[k][els[k] != -1])
        c.check('each node of the partition once',
                len(set(used.tolist())) == len(used) and set(used.tolist()) == set(want.tolist()),
                f'{idx[k].tolist()} for {els[k].tolist()}')
        real = els[k] != -1
        c.check('padding stays padding', np.array_equal(loc[k] == -1, ~real))
        c.check('local indices are in range',
                not real.any() or (loc[k][real].min() >= 0 and loc[k][real].max() < len(idx[k])))
        c.equal('maps back to the global element', idx[k][loc[k]][real], els[k][real])
        c.event('renumbered_nodes', len(used))
      c.check('no excess padding', idx.shape[1] == max(np.sum(idx != -1, axis=1)), idx.shape)


def part_large(mon):
  """Index arrays beyond 16 bits."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.core import gather_scatter as gs
  for c in mon.cases('index array', 4, 60):
    with c:
      r = c.rng
      n = int(r.integers(66000, 200000))
      shape = (int(r.integers(33000, 70000)), int(r.integers(2, 5)))
      idx = r.integers(0, n, shape).astype(np.int32)
      idx[r.random(shape) < .1] = -1
      u, v = r.normal(size=n), r.normal(size=shape)
      c.describe(nodes=n, indices=idx)
      got = np.asarray(jax.jit(lambda a, i: gs.gather(a, i, fill_value=2.))(jnp.asarray(u), jnp.asarray(idx)))
      c.equal('gather', got, np.where(idx >= 0, u[idx], 2.))
      want = np.zeros(n)
      np.add.at(want, idx[idx >= 0], v[idx >= 0])
      c.close('scatter', jax.jit(lambda a, i: gs.scatter(a, i, num_nodes=n))(jnp.asarray(v), jnp.asarray(idx)), want,
              rtol=1e-12)
      c.event('entries', idx.size)
  for c in mon.cases('partition', 2, 30):
    with c:
      r = c.rng
      p, n, m = int(r.integers(2, 7)), int(r.integers(66000, 140000)), 3
      parts = r.integers(0, p, n)
      nodes = int(r.integers(66000, 150000))
      c.describe(partitions=parts, nodes=nodes)
      out = np.asarray(gs.group_by_partitions(parts))
      sizes = np.bincount(parts, minlength=p)
      if not c.check('shape', out.shape == (p, sizes.max()), out.shape):
        continue
      for k in range(p):
        c.equal('elements of a partition', np.sort(out[k][out[k] != -1]), np.flatnonzero(parts == k))
      glob = r.integers(0, nodes, (n, m))
      els = np.where(out[..., None] >= 0, glob[out], -1)
      idx, loc = [np.asarray(a) for a in gs.get_local_elements(els.astype(np.int32))]
      for k in range(p):
        real = els[k] != -1
        used = idx[k][idx[k] != -1]
        c.check('each node of the partition once', len(np.unique(used)) == len(used) and
                np.array_equal(np.unique(used), np.unique(els[k][real])))
        c.check('padding stays padding', np.array_equal(loc[k] == -1, ~real))
        c.equal('maps back to the global element', idx[k][loc[k]][real], els[k][real])
      c.event('renumbered_entries', els.size)

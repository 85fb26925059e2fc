import numpy as np

# device counts, visited in turn
PARTS = [dict(name=f'few{i}', fn='few', devices=8, hang_is_violation=True, counts=k)
         for i, k in enumerate([[3, 8, 1], [7, 4, 2], [5, 6]])] + [
    dict(name=f'many{i}', fn='many', devices=16, hang_is_violation=True, counts=k)
    for i, k in enumerate([[13, 12, 9], [11, 16], [15, 10, 14]])]
RULE = ('A case is a number of devices, a data tree and static length, with several traffic patterns; every '
        'item has an id from which all its leaves follow. Non-trivial when deliveries and returns of all '
        'patterns were checked exactly once against the log of items sent.')
ASSUMPTIONS = ['Targets beyond the dynamic length are arbitrary and never used.']

PATTERNS = ['random', 'to_one', 'from_one', 'none', 'reverse', 'shift', 'self', 'two_spots', 'full', 'sparse',
            'upper_half', 'edges']


def _pattern(r, kind, P, m):
  n = r.integers(0, m + 1, P)
  t = r.integers(0, P, (P, m))
  if kind == 'to_one':
    n[:], t[:] = m, r.integers(P)
  elif kind == 'from_one':
    s = r.integers(P)
    n[np.arange(P) != s] = 0
    n[s] = m
  elif kind == 'none':
    n[:] = 0
  elif kind == 'reverse':
    n[:] = m
    t[:] = (P - 1 - np.arange(P))[:, None]
  elif kind == 'shift':
    t[:] = ((np.arange(P) + r.integers(P)) % P)[:, None]
  elif kind == 'self':
    t[:] = np.arange(P)[:, None]
  elif kind == 'two_spots':
    t = r.choice(r.integers(0, P, 2), (P, m))
    n[:] = m
  elif kind == 'full':
    n[:] = m
  elif kind == 'sparse':
    n = np.minimum(n, r.integers(0, 2, P))
  elif kind == 'upper_half':
    t = r.integers(P // 2, P, (P, m))
  elif kind == 'edges':
    t = r.choice([0, P - 1], (P, m))
  # anything may follow the dynamic length
  junk = r.choice([-1, 0, P, P - 1, 999, -5], (P, m))
  t = np.where(np.arange(m) < n[:, None], t, junk)
  return n, t


def _leaf(kind, ids, salt):
  """The leaf of an item follows from its id (-1: not an item)."""
  h = (ids.astype(np.int64) * 2654435761 + salt * 40503) % 1000003
  if kind == 'int32':
    return h.astype(np.int32)
  if kind == 'int64':
    return h * (1 << 33) - 12345
  if kind == 'int8':
    return (h % 251 - 125).astype(np.int8)
  if kind == 'uint32':
    return (h * 4099 % (1 << 32)).astype(np.uint32)
  if kind == 'bool':
    return h % 3 == 0
  if kind == 'float32':
    x = (h / 7.).astype(np.float32)
    return np.where(h % 11 == 0, np.float32(np.inf), np.where(h % 13 == 0, np.float32(np.nan), x))
  if kind == 'float64':
    return np.where(h % 11 == 0, -0., np.where(h % 13 == 0, np.nan, np.sin(h * 1.)))
  if kind == 'complex':
    return np.sin(h * 1.) + 1j * np.cos(h * 3.)
  if kind.startswith('array'):
    shape = tuple(int(x) for x in kind[5:].split('x'))
    k = np.arange(np.prod(shape)).reshape(shape)
    return np.sin(h.reshape(h.shape + (1,) * len(shape)) + 17. * k)
  raise ValueError(kind)


KINDS = ['int32', 'int64', 'int8', 'uint32', 'bool', 'float32', 'float64', 'complex', 'array2', 'array2x3', 'array1x1x2']


def _same(a, b):
  a, b = np.ascontiguousarray(a), np.ascontiguousarray(b)
  return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def _tree(r, leaves):
  """A random nesting of the leaves, and the way back to the list."""
  import jax
  s = int(r.integers(4))
  if len(leaves) == 1 and s < 2:
    return leaves[0]
  if s == 0:
    return list(leaves)
  if s == 1:
    return {f'k{(7 * i) % 5}{i}': x for i, x in enumerate(leaves)}
  if s == 2:
    return (leaves[0], {'rest': tuple(leaves[1:]), 'none': None})
  return [{'a': x} for x in leaves]


def _judge_delivery(c, kinds, salts, treedef, sent, n, out, source, label, P):
  """sent: {id: (holder, target)}; every item must be at its target exactly once."""
  import jax
  leaves = [np.asarray(x) for x in jax.tree_util.tree_leaves(out)]
  if jax.tree_util.tree_structure(out) != treedef:
    c.check('structure of the data tree', False, f'{label}: {jax.tree_util.tree_structure(out)}')
    return
  n = np.asarray(n)
  ids = leaves[0]
  c.check('shapes', n.shape == (P,) and all(x.shape[:2] == ids.shape[:2] for x in leaves) and
          (n >= 0).all() and (n <= ids.shape[1]).all(), f'{label}: {n} {[x.shape for x in leaves]}')
  if source is not None:
    source = np.asarray(source)
    c.check('shape of the sources', source.shape[:2] == ids.shape[:2])
  for p in range(P):
    got = ids[p, :n[p]]
    want = sorted(i for i, (_, t) in sent.items() if t == p)
    if sorted(got.tolist()) != want:
      extra = sorted(set(got.tolist()) - set(want))[:5]
      lost = sorted(set(want) - set(got.tolist()))[:5]
      c.check('exactly once delivery', False,
              f'{label}: device {p} got {len(got)} items of {len(want)}; lost {lost}, wrong or repeated {extra}')
      continue
    c.check('exactly once delivery', True)
    for k, s, x in zip(kinds, salts, leaves[1:]):
      c.check('leaves stay together', _same(x[p, :n[p]], _leaf(k, got, s)), f'{label}: device {p} leaf {k}')
    if source is not None:
      c.check('sources', [sent[i][0] for i in got.tolist()] == source[p, :n[p]].tolist(), f'{label}: device {p}')
  c.event('items', len(sent))


def _run(c, mon, patterns):
  import jax
  import jax.numpy as jnp
  from swirl_fem.communication.crystal_router import crystal_router_setup
  r = c.rng
  counts = mon.extra['counts']
  P = counts[c.index % len(counts)]
  m = int(r.choice([1, 2, 3, 4, 5, 7, 8, 9, 13, 16] if r.random() < .8 else [60, 150, 270, 520]))
  name = str(r.choice(['i', 'devices']))
  if P % 2 == 0 and 2 * P <= mon.devices and r.random() < .25:
    mesh = jax.sharding.Mesh(np.array(jax.devices()[:2 * P]).reshape(2, P), ('other', name))
  else:
    mesh = jax.sharding.Mesh(np.array(jax.devices())[r.permutation(mon.devices)[:P]], (name,))
  crystal = crystal_router_setup(mesh, name)
  nk = int(r.integers(0, 4))
  kinds = [str(k) for k in r.choice(KINDS, nk)]
  salts = [int(s) for s in r.integers(0, 1000, nk)]
  itype = r.choice([np.int32, np.int64])
  c.describe(devices=P, static_length=m, axis=name, mesh=mesh.devices.shape, leaves=kinds, index_type=str(itype))
  shape_seed = int(r.integers(1 << 30))
  c.event('devices_%d' % P)
  for _ in range(patterns):
    kind = str(r.choice(PATTERNS))
    n, t = _pattern(r, kind, P, m)
    c.describe(**{f'pattern{_}': kind})
    valid = np.arange(m) < n[:, None]
    ids = np.where(valid, np.arange(P)[:, None] * 1000 + np.arange(m), -7)
    sent = {int(ids[p, j]): (p, int(t[p, j])) for p in range(P) for j in range(n[p])}
    tree = _tree(np.random.default_rng(shape_seed), [jnp.asarray(ids)] + [
        jnp.asarray(_leaf(k, ids, s)) for k, s in zip(kinds, salts)])
    # flattening may reorder dictionary keys: ids must come first
    if not np.array_equal(np.asarray(jax.tree_util.tree_leaves(tree)[0]), ids):
      tree = list(jax.tree_util.tree_leaves([jnp.asarray(ids)])) + [
          jnp.asarray(_leaf(k, ids, s)) for k, s in zip(kinds, salts)]
    order = jax.tree_util.tree_leaves(tree)[1:]
    # kinds in leaf order
    ks, ss = [], []
    pool = list(zip(kinds, salts))
    for x in order:
      for q in pool:
        if _same(np.asarray(x), np.asarray(jnp.asarray(_leaf(q[0], ids, q[1])))):
          ks.append(q[0]), ss.append(q[1]), pool.remove(q)
          break
    before = [np.asarray(x).tobytes() for x in jax.tree_util.tree_leaves(tree)]
    nin, tin = jnp.asarray(n.astype(itype)), jnp.asarray(t.astype(itype))
    treedef = jax.tree_util.tree_structure(tree)
    no, out, src = crystal(nin, tree, tin)
    _judge_delivery(c, ks, ss, treedef, sent, no, out, src, kind, P)
    if max(np.asarray(no)) > m:
      c.event('grown_buffers')
    mode = int(r.integers(3))
    if mode == 0:
      nb, back, t2 = crystal(no, out, src)
      home = {i: (tt, s) for i, (s, tt) in sent.items()}
      _judge_delivery(c, ks, ss, treedef, home, nb, back, t2, kind + ' returned', P)
      c.event('returns')
    elif mode == 1:
      n3, out3 = crystal(nin, tree, tin, return_source=False)
      _judge_delivery(c, ks, ss, treedef, sent, n3, out3, None, kind + ' without source', P)
    else:
      # another order of the items
      perm = np.argsort(np.where(valid, r.random((P, m)), 2.), axis=1)
      tree4 = jax.tree_util.tree_map(
          lambda x: jnp.asarray(np.take_along_axis(
              np.asarray(x), perm.reshape(perm.shape + (1,) * (x.ndim - 2)), axis=1)), tree)
      n4, out4, src4 = crystal(nin, tree4, jnp.asarray(np.take_along_axis(t, perm, 1).astype(itype)))
      _judge_delivery(c, ks, ss, treedef, sent, n4, out4, src4, kind + ' reordered', P)
    c.check('inputs unchanged', [np.asarray(x).tobytes() for x in jax.tree_util.tree_leaves(tree)] == before)
    c.event('exchanges', 2)


def part_few(mon):
  for c in mon.cases('traffic', 12, 300):
    with c:
      _run(c, mon, 6 if mon.quick else 20)


def part_many(mon):
  for c in mon.cases('traffic', 8, 200):
    with c:
      _run(c, mon, 4 if mon.quick else 20)

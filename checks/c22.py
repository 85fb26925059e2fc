import numpy as np

PARTS = [dict(name='mapped0', fn='mapped'), dict(name='mapped1', fn='mapped')] + [
    dict(name=f'devices{i}', fn='devices', devices=16) for i in range(4)]
RULE = ('A case is a number of devices (or of mapped entries), a device mesh, and for several operations a '
        'tree of values of random types and shapes; non-trivial with two or more ranks when scans and '
        'reductions were compared with sequential folds.')
ASSUMPTIONS = ['Sums of booleans are excluded, as reductions count them.']

OPS = ['add', 'multiply', 'maximum', 'minimum', 'bitwise_and', 'bitwise_or', 'bitwise_xor']
INTS = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint32', 'uint64']
FLOATS = ['float32', 'float64']


def _values(r, op, P):
  """Values of one leaf: [P, *shape]."""
  shape = [(), (1,), (3,), (2, 2), (0,), (5, 1, 2)][int(r.choice(6, p=[.3, .1, .2, .2, .05, .15]))]
  if op.startswith('bitwise'):
    kinds = INTS + ['bool']
  elif op == 'add':
    kinds = INTS + FLOATS + ['complex128']
  elif op == 'multiply':
    kinds = INTS + FLOATS + ['complex128', 'bool']
  else:
    kinds = INTS + FLOATS + ['bool']
  kind = str(r.choice(kinds))
  size = (P,) + shape
  if kind == 'bool':
    return r.random(size) < r.choice([.1, .5, .9])
  if kind == 'complex128':
    return r.normal(size=size) + 1j * r.normal(size=size)
  if kind in FLOATS:
    style = int(r.integers(4))
    if op == 'multiply':
      x = np.exp(.3 * r.normal(size=size)) * r.choice([-1, 1], size)
    else:
      x = r.normal(size=size) * 10 ** r.uniform(-3, 3)
    if style == 0:
      x = np.round(x)
    if style == 1 and op in ('maximum', 'minimum'):
      x = np.where(r.random(size) < .4, r.choice([-np.inf, np.inf]), x)
    if style == 2 and op in ('maximum', 'minimum'):
      x = np.full(size, -np.inf if op == 'maximum' else np.inf)
    if style == 1 and op == 'add':
      x = np.where(r.random(size) < .2, np.inf, x)
    return x.astype(kind)
  info = np.iinfo(kind)
  if r.random() < .5:
    return r.integers(info.min, info.max, size, dtype=kind, endpoint=True)
  lo = -4 if info.min < 0 else 0
  x = r.integers(lo, 7, size).astype(kind)
  if r.random() < .3:
    x[r.integers(P)] = info.min if op == 'maximum' else info.max
  return x


def _unit(op, dtype):
  dtype = np.dtype(dtype)
  if op in ('add', 'bitwise_or', 'bitwise_xor'):
    return np.zeros((), dtype)
  if op == 'multiply':
    return np.ones((), dtype)
  if op == 'bitwise_and':
    return ~np.zeros((), dtype)
  if dtype == bool:
    return np.asarray(op == 'minimum')
  if dtype.kind == 'f':
    return np.asarray(-np.inf if op == 'maximum' else np.inf, dtype)
  return np.asarray(np.iinfo(dtype).min if op == 'maximum' else np.iinfo(dtype).max, dtype)


def _fold(op, x):
  """Exclusive scan and reduction over the first axis, sequentially."""
  f = getattr(np, op)
  acc = np.broadcast_to(_unit(op, x.dtype), x.shape[1:]).copy()
  scan = []
  with np.errstate(all='ignore'):
    for v in x:
      scan.append(acc)
      acc = f(acc, v).astype(x.dtype)
  return np.stack(scan), np.broadcast_to(acc, x.shape)


def _compare(c, what, op, x, got, want):
  got = np.asarray(got)
  if got.shape != want.shape or got.dtype != want.dtype:
    c.check(what, False, f'{op}: {got.dtype}{got.shape} instead of {want.dtype}{want.shape}')
  elif x.dtype.kind in 'fc' and op in ('add', 'multiply'):
    eps = np.finfo(x.dtype).eps
    fin = np.isfinite(want)
    c.check(what, np.array_equal(np.isfinite(got), fin) and np.array_equal(got[~fin], want[~fin]), f'{op} infinite')
    scale = np.abs(np.where(np.isfinite(x), x, 0)).sum() if op == 'add' else np.maximum(
        1, np.abs(want[fin]).max(initial=0))
    c.close(what, np.where(fin, got, 0), np.where(fin, want, 0), rtol=50 * eps * len(x), scale=scale, msg=op)
  else:
    c.check(what, np.array_equal(got, want), f'{op} {x.dtype}: {got.tolist()} instead of {want.tolist()}')


def _workload(c, P, count):
  """For each operation a list of leaves."""
  r = c.rng
  ops = [str(o) for o in r.choice(OPS, min(count, 7), replace=False)]
  work = [(op, [_values(r, op, P) for _ in range(int(r.integers(1, 4)))]) for op in ops]
  c.describe(ranks=P, work=[(op, [str(x.dtype) + str(x.shape) for x in xs]) for op, xs in work],
             values=[np.concatenate([x.reshape(-1).astype(complex) for x in xs]) for _, xs in work])
  return work


def _nest(op, xs):
  """A tree of the leaves (its flattening keeps the order)."""
  k = len(op) % 3
  if len(xs) == 1 and k == 0:
    return xs[0]
  return {'a': xs[0], 'b': tuple(xs[1:])} if k == 1 else list(xs)


def _apply(work_ops, axis):
  import jax
  import jax.numpy as jnp
  from swirl_fem.communication.pscan import pscan, preduce

  def f(trees):
    out = []
    for op, t in zip(work_ops, trees):
      o = getattr(jnp, op)
      both = pscan(t, o, axis_name=axis, reduction=True)
      out.append((pscan(t, o, axis_name=axis), both[0], both[1], preduce(t, o, axis_name=axis)))
    return out
  return f


def _judge(c, work, trees, out, lead=lambda x: x):
  import jax
  for (op, xs), t, res in zip(work, trees, out):
    for name, y in zip(('scan', 'scan with reduction', 'reduction of the scan', 'reduction'), res):
      c.check('structure', jax.tree_util.tree_structure(y) == jax.tree_util.tree_structure(t), f'{op} {name}')
      for x, g in zip(xs, jax.tree_util.tree_leaves(y)):
        scan, red = _fold(op, x)
        _compare(c, name, op, x, lead(np.asarray(g)), scan if name.startswith('scan') else red)
        c.event(op, len(x))


def part_mapped(mon):
  """Ranks along a vmapped axis: many counts."""
  import jax
  import jax.numpy as jnp
  for c in mon.cases('ranks', 60, 2000):
    with c:
      P = int(c.rng.integers(1, 14)) if c.rng.random() < .7 else int(c.rng.integers(14, 70) if c.rng.random() < .8 else c.rng.integers(70, 300))
      work = _workload(c, P, 3)
      trees = [_nest(op, [jnp.asarray(x) for x in xs]) for op, xs in work]
      out = jax.jit(jax.vmap(_apply([w[0] for w in work], 'ax'), axis_name='ax'))(trees)
      c.event('ranks_%d' % P)
      c.trivial = P == 1
      _judge(c, work, trees, out)


def part_devices(mon):
  import jax
  import jax.numpy as jnp
  from jax.sharding import PartitionSpec
  from jax.experimental.shard_map import shard_map
  from swirl_fem.communication.jit_distributed import jit_distributed
  for c in mon.cases('devices', 10, 400):
    with c:
      r = c.rng
      P = int(r.integers(1, 17))
      work = _workload(c, P, 4)
      trees = [_nest(op, [jnp.asarray(x) for x in xs]) for op, xs in work]
      ops = [w[0] for w in work]
      devs = np.array(jax.devices())[r.permutation(mon.devices)]
      style = int(r.integers(3))
      c.describe(style=['one axis', 'distributed', 'two axes'][style])
      c.event('ranks_%d' % P)
      c.trivial = P == 1
      if style == 2:
        if P > 8:
          P = 1 + P % 8
          work = [(op, [x[:P] for x in xs]) for op, xs in work]
          trees = [_nest(op, [jnp.asarray(x) for x in xs]) for op, xs in work]
        Q = int(r.integers(1, mon.devices // P + 1))
        first = r.random() < .5
        shape = (P, Q) if first else (Q, P)
        names = ('i', 'j') if first else ('j', 'i')
        mesh = jax.sharding.Mesh(devs[:P * Q].reshape(shape), names)
        c.describe(shape=shape)
        # different values in every row: each row is folded on its own
        rolled = [[np.stack([np.roll(x, q, axis=0) for q in range(Q)], 1) for x in xs] for _, xs in work]
        tr = [_nest(op, [jnp.asarray(x) for x in xs]) for (op, _), xs in zip(work, rolled)]
        spec = PartitionSpec('i', 'j')
        out = jax.jit(shard_map(_apply(ops, 'i'), mesh=mesh, in_specs=(spec,), out_specs=spec, check_rep=False))(tr)
        for q in range(Q):
          wq = [(op, [x[:, q] for x in xs]) for (op, _), xs in zip(work, rolled)]
          _judge(c, wq, tr, out, lambda g: g[:, q])
      else:
        mesh = jax.sharding.Mesh(devs[:P], ('i',))
        f = _apply(ops, 'i')
        if style:
          out = jit_distributed(f, mesh, 'i')(trees)
        else:
          spec = PartitionSpec('i')
          out = jax.jit(shard_map(f, mesh=mesh, in_specs=(spec,), out_specs=spec, check_rep=False))(trees)
        _judge(c, work, trees, out)

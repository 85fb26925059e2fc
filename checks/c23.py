import operator

import numpy as np

PARTS = [dict(name='mapped0', fn='mapped'), dict(name='mapped1', fn='mapped')] + [
    dict(name=f'devices{i}', fn='devices', devices=16) for i in range(4)]
RULE = ('A case is a number of ranks and a batch of random expression programs over axis index, axis size and '
        'constants; non-trivial when local and global values of all of them were compared with a plain '
        'Python evaluation per rank.')
ASSUMPTIONS = ['Values stay below 2**24, divisors are not zero, exponents and shifts are small and not '
               'negative, and two truth values are combined by bitwise operations and comparisons only.']

ARITH = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lshift', 'rshift']
BIT = ['and_', 'or_', 'xor']
COMP = ['lt', 'le', 'eq', 'ne', 'gt', 'ge']
LIMIT = 1 << 24


def _is_bool(v):
  return all(isinstance(x, bool) for x in v)


def _is_int(v):
  return all(isinstance(x, int) and not isinstance(x, bool) for x in v)


def _apply(name, a, b):
  """Values per rank in plain Python, or None if outside the domain."""
  ba, bb = _is_bool(a), _is_bool(b)
  ints = (ba or _is_int(a)) and (bb or _is_int(b))
  if name in BIT:
    if not ints:
      return None
    if not ba or not bb:
      a, b = [int(x) for x in a], [int(x) for x in b]
  elif name in ARITH:
    if ba and bb:
      return None
    a = [int(x) if isinstance(x, bool) else x for x in a]
    b = [int(x) if isinstance(x, bool) else x for x in b]
    if name in ('truediv', 'floordiv', 'mod') and any(x == 0 for x in b):
      return None
    if name in ('floordiv', 'mod') and not ints:
      return None  # rounding decides
    if name == 'pow' and (not ints or ba or bb or any(x < 0 or x > 3 for x in b)):
      return None
    if name in ('lshift', 'rshift') and (not ints or ba or bb or any(x < 0 or x > 6 for x in b)):
      return None
  elif not ints and name in COMP:
    if any(abs(x - y) < 1e-4 * (1 + abs(x)) for x, y in zip(a, b)):
      return None
  out = [getattr(operator, name)(x, y) for x, y in zip(a, b)]
  if any(abs(x) > LIMIT for x in out):
    return None
  return out


def _program(r, P, size):
  """A straight line program and its values per rank: [(instruction, values)]."""
  prog = [(('index',), list(range(P))), (('size',), [P] * P)]
  ops = ARITH + BIT + COMP
  while len(prog) < size:
    u = r.random()
    if u < .1:
      c = [int(r.integers(-5, 12)), bool(r.integers(2)), float(np.round(r.normal(), 3))][int(r.choice(3, p=[.7, .15, .15]))]
      prog.append((('constant', c), [c] * P))
      continue
    if u < .25:
      i, j, k = (int(x) for x in r.integers(0, len(prog), 3))
      vi, vj, vk = (prog[x][1] for x in (i, j, k))
      if _is_bool(vj) != _is_bool(vk):
        continue
      if not (_is_bool(vi) or _is_int(vi)):
        continue
      out = [y if x else z for x, y, z in zip(vi, vj, vk)]
      if _is_int(vj) != _is_int(vk):
        out = [float(x) for x in out]
      prog.append((('where', i, j, k), out))
      continue
    op = str(r.choice(ops))
    i = int(r.integers(0, len(prog)))
    if r.random() < .45:
      c = [int(r.integers(-4, 10)), bool(r.integers(2)), float(np.round(r.normal(), 3))][int(r.choice(3, p=[.8, .1, .1]))]
      if isinstance(c, bool) and op in ARITH:
        continue
      if r.random() < .5:
        out = _apply(op, [c] * P, prog[i][1])
        ins = ('reflected', op, c, i)
      else:
        out = _apply(op, prog[i][1], [c] * P)
        ins = ('with constant', op, i, c)
    else:
      j = int(r.integers(0, len(prog)))
      out = _apply(op, prog[i][1], prog[j][1])
      ins = ('binary', op, i, j)
    if out is not None:
      prog.append((ins, out))
  return prog


def _evaluate(progs, axis):
  from swirl_fem.communication.semi_traced_scalar import SemiTracedScalar as S
  out = []
  for prog in progs:
    vals = []
    for ins, _ in prog:
      k = ins[0]
      if k == 'index':
        v = S.axis_index(axis_name=axis)
      elif k == 'size':
        v = S.axis_size(axis_name=axis)
      elif k == 'constant':
        v = S.constant(ins[1], axis_name=axis)
      elif k == 'where':
        v = S.where(*[vals[x] for x in ins[1:]])
      elif k == 'binary':
        v = getattr(operator, ins[1])(vals[ins[2]], vals[ins[3]])
      elif k == 'with constant':
        v = getattr(operator, ins[1])(vals[ins[2]], ins[3])
      else:
        v = getattr(operator, ins[1])(ins[2], vals[ins[3]])
      vals.append(v)
    out.append(vals)
  return out


def _judge(c, P, progs, run):
  import jax.numpy as jnp
  seen = []

  def f(unused):
    vals = _evaluate(progs, 'i')
    seen.append([[v.global_ for v in vs] for vs in vals])
    return [[jnp.asarray(v.local) for v in vs] for vs in vals]
  local = run(f)
  c.check('traced', len(seen) >= 1)
  for prog, loc, glo in zip(progs, local, seen[-1]):
    for (ins, want), x, g in zip(prog, loc, glo):
      x = np.asarray(x)
      c.check('global view is concrete', isinstance(g, np.ndarray) and g.shape == (P,), f'{ins}: {type(g)}')
      exact = _is_bool(want) or _is_int(want)
      ref = np.array(want)
      for what, y in (('local view', x), ('global view', np.asarray(g))):
        if exact:
          c.check(what, y.shape == (P,) and np.array_equal(y, ref), f'{ins}: {y.tolist()} instead of {want}')
        else:
          c.check(what, y.shape == (P,) and np.allclose(y, ref, rtol=1e-5, atol=1e-5 * (1 + np.abs(ref).max())),
                  f'{ins}: {y.tolist()} instead of {want}')
      c.event(ins[1] if ins[0] in ('binary', 'with constant', 'reflected') else ins[0])
      c.event('reflected_operations', ins[0] == 'reflected')


def _case(c, P, mon):
  r = c.rng
  progs = [_program(r, P, int(r.integers(6, 30))) for _ in range(6 if mon.quick else 12)]
  c.describe(ranks=P, programs=[[repr(i) for i, _ in p] for p in progs])
  c.event('ranks_%d' % P)
  return progs


def part_mapped(mon):
  import jax
  import jax.numpy as jnp
  for c in mon.cases('programs', 60, 2000):
    with c:
      P = int(c.rng.integers(1, 25))
      progs = _case(c, P, mon)
      _judge(c, P, progs, lambda f: jax.jit(jax.vmap(f, axis_name='i', out_axes=0))(jnp.zeros(P)))


def part_devices(mon):
  import jax
  import jax.numpy as jnp
  from swirl_fem.communication.jit_distributed import jit_distributed
  for c in mon.cases('programs', 25, 800):
    with c:
      P = int(c.rng.integers(1, 17))
      progs = _case(c, P, mon)
      mesh = jax.sharding.Mesh(np.array(jax.devices())[c.rng.permutation(mon.devices)[:P]], ('i',))
      _judge(c, P, progs, lambda f: jit_distributed(f, mesh, 'i')(jnp.zeros(P)))

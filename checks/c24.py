import numpy as np

PARTS = [dict(name=f'calls{i}', fn='calls', devices=8) for i in range(4)] + [
    dict(name=f'collectives{i}', fn='collectives', devices=8) for i in range(2)]
RULE = ('A case is a random function signature (positional-only, ordinary and keyword-only parameters, static '
        'ones in any position) with a random body, and several calls mixing positional, keyword, default and '
        'static arguments; non-trivial when results were compared with calling the function per entry.')
ASSUMPTIONS = ['At least one array is passed for the sharded parameters if there are any; defaults of '
               'sharded parameters are None or arrays with one entry per device.']

# no two of them compare equal, as compiled functions are cached by equality
STATICS = [2, 3, 4, -2, 2.5, 'double', 'negate', True, False, None, (5, 2), (7, 'x')]


def _static_effect(s):
  """A number that tells static values apart (by type too)."""
  if isinstance(s, str):
    return 7. + len(s)
  if isinstance(s, bool):
    return 100. + s
  if s is None:
    return 55.
  if isinstance(s, tuple):
    return 1000. + sum(_static_effect(x) for x in s)
  return float(s)


class Signature:
  """A random function, compiled from text."""

  def __init__(self, c, P):
    r = c.rng
    self.P, self.log = P, []
    nparam = int(r.integers(1, 6))
    kinds = sorted(int(k) for k in r.choice(3, nparam, p=[.15, .55, .3]))  # positional-only, ordinary, keyword-only
    default_statics = r.random() < .5
    self.params = []
    defaults = False
    for i, k in enumerate(kinds):
      static = (k == 2) if default_statics else (k != 0 and r.random() < .4)
      if k != 2:
        defaults = defaults or r.random() < .25
      has_default = r.random() < .4 if k == 2 else defaults
      self.params.append(dict(name=f'{"abcdefgh"[(i * 3) % 8]}{i}', kind=k, static=static, default=has_default,
                              tree=int(r.integers(5)), op=int(r.integers(4))))
    self.explicit = not default_statics
    self.static_names = [p['name'] for p in self.params if p['static']]
    if self.explicit and r.random() < .5:
      r.shuffle(self.static_names)
    self.outtree = int(r.integers(6))
    self.default_values = {p['name']: (STATICS[int(r.integers(len(STATICS)))] if p['static'] else
                                       (None if r.random() < .5 else self.value(r, p)))
                           for p in self.params if p['default']}
    text, last = [], 0
    for i, p in enumerate(self.params):
      if p['kind'] == 2 and last != 2:
        if last == 0 and i:
          text.append('/')
        text.append('*')
      elif p['kind'] == 1 and last == 0 and i:
        text.append('/')
      last = p['kind']
      text.append(p['name'] + (f'=_defaults["{p["name"]}"]' if p['default'] else ''))
    if last == 0:
      text.append('/')
    names = [p['name'] for p in self.params]
    self.text = f'def f({", ".join(text)}):\n  return _body(dict({", ".join(n + "=" + n for n in names)}))\n'
    env = dict(_body=self.body, _defaults=self.default_values)
    exec(self.text, env)  # pylint: disable=exec-used
    self.f = env['f']
    self.collective = False

  def value(self, r, p):
    P, t = self.P, p['tree']
    shape = p.setdefault('shape', [(), (2,), (3, 2), (1,)][int(r.integers(4))])
    x = r.normal(size=(P,) + shape)
    if t == 1:
      return {'u': x, 'v': r.integers(-5, 5, (P, 2))}
    if t == 2:
      return (x, [r.normal(size=(P, 4)).astype(np.float32), None])
    if t == 3:
      return r.integers(-9, 9, (P,) + shape).astype(np.int32)
    return x

  def body(self, args):
    import jax
    import jax.numpy as jnp
    from jax import lax
    factor, parts = 1., []
    record = {}
    for p in self.params:
      v = args[p['name']]
      if p['static']:
        record[p['name']] = (type(v), v)
        factor = factor * 1.5 + _static_effect(v) * (1 + len(parts))
      else:
        for i, leaf in enumerate(jax.tree_util.tree_leaves(v)):
          parts.append([jnp.sin, jnp.sum, lambda x: x * 2, lambda x: jnp.cumsum(x, axis=-1) if jnp.ndim(x) else x][
              p['op']](leaf) + 10. * i)
        if v is None:
          factor = factor + 31
    self.log.append(record)
    total = sum(jnp.sum(x) for x in parts) + factor
    if self.collective and parts:
      total = lax.psum(parts[0].sum(), 'i') + total * (1 + lax.axis_index('i'))
    o = self.outtree
    if o == 0:
      return total
    if o == 1:
      return [x * factor for x in parts] + [total]
    if o == 2:
      return {'a': total, 'b': (None, parts)}
    if o == 3:
      return factor, total, 3
    if o == 4:
      return jnp.stack([jnp.sum(x) for x in parts] + [jnp.asarray(factor)]), jnp.asarray(total > 0)
    return {'n': jnp.asarray(len(parts), jnp.int32), 'list': parts[:1] + [factor]}

  def call(self, r):
    """Random arguments: (args, kwargs, values by name)."""
    args, kwargs, values = [], {}, {}
    positional = True
    for p in self.params:
      if p['default'] and r.random() < .4 and p['kind'] != 0:
        # leaving one out forces keywords for the rest
        values[p['name']] = self.default_values[p['name']]
        positional = False
        continue
      if p['static']:
        v = STATICS[int(r.integers(len(STATICS)))]
      elif p['default'] and r.random() < .2:
        v = None
      else:
        v = self.value(r, p)
      values[p['name']] = v
      if p['kind'] == 0 or (p['kind'] == 1 and positional and r.random() < .7):
        args.append(v)
      else:
        positional = False
        kwargs[p['name']] = v
    if r.random() < .5:
      kwargs = dict(reversed(list(kwargs.items())))
    return args, kwargs, values


def _leaves(tree):
  import jax
  return [np.asarray(x) for x in jax.tree_util.tree_leaves(tree)]


def _run(c, mon, collective):
  import jax
  import jax.numpy as jnp
  from swirl_fem.communication.jit_distributed import jit_distributed
  r = c.rng
  P = int(r.integers(1, 9))
  sig = Signature(c, P)
  sig.collective = collective
  if P <= 4 and r.random() < .3:
    mesh = jax.sharding.Mesh(np.array(jax.devices()[:2 * P]).reshape((P, 2)), ('i', 'other'))
  else:
    mesh = jax.sharding.Mesh(np.array(jax.devices())[r.permutation(8)[:P]], ('i',))
  kw = {}
  if sig.explicit:
    kw['static_argnames'] = sig.static_names if r.random() < .5 else tuple(sig.static_names)
  c.describe(devices=P, signature=sig.text, explicit_static=sig.static_names if sig.explicit else None,
             output=sig.outtree, mesh=mesh.devices.shape)
  dist = jit_distributed(sig.f, mesh, 'i', **kw)
  done = 0
  for k in range(7):
    args, kwargs, values = sig.call(r)
    sharded = {p['name']: values[p['name']] for p in sig.params if not p['static']}
    statics = {p['name']: values[p['name']] for p in sig.params if p['static']}
    if sharded and not _leaves(sharded):
      continue
    c.describe(**{f'call{k}': [len(args), sorted(kwargs), repr(statics)]})
    conv = (lambda t: jax.tree_util.tree_map(jnp.asarray, t)) if r.random() < .5 else (lambda t: t)
    cargs = [a if sig.params[i]['static'] else conv(a) for i, a in enumerate(args)]
    ckw = {n: (v if n in statics else conv(v)) for n, v in kwargs.items()}
    del sig.log[:]
    got = dist(*cargs, **ckw)
    for rec in sig.log:
      c.check('static arguments arrive as the constants passed',
              rec == {n: (type(v), v) for n, v in statics.items()}, f'{rec} for {statics}')
    # reference: entry by entry
    sig_log, sig.log = sig.log, []
    if collective:
      one = lambda s: sig.body({**s, **statics})
      if sharded:
        ref = jax.vmap(one, axis_name='i')(jax.tree_util.tree_map(jnp.asarray, sharded))
      else:
        ref = jax.vmap(lambda _: one({}), axis_name='i')(jnp.zeros(P))
      want = _leaves(ref)
      ref0 = ref
    else:
      rows = [sig.body({**jax.tree_util.tree_map(lambda x, q=q: jnp.asarray(x[q]), sharded), **statics})
              for q in range(P)]
      want = [np.stack([np.asarray(x) for x in xs]) for xs in zip(*[jax.tree_util.tree_leaves(t) for t in rows])]
      ref0 = rows[0]
    sig.log = sig_log
    c.check('structure of the result', jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(ref0))
    for g, w in zip(_leaves(got), want):
      if g.dtype.kind != w.dtype.kind:
        c.check('type of the result', False, f'{g.dtype} instead of {w.dtype}')
      c.close('result', g, w, rtol=1e-5 if np.float32 in (g.dtype, w.dtype) else 1e-9, atol=1e-9)
    done += 1
    c.event('calls')
    c.event('positional_statics', sum(1 for i, a in enumerate(args) if sig.params[i]['static']))
    c.event('keyword_arguments', len(kwargs))
    c.event('defaults', len(values) - len(args) - len(kwargs))
    # the same statics again, other data
    if k % 3 == 0 and sharded:
      other = jax.tree_util.tree_map(lambda x: x[::-1].copy(), {n: values[n] for n in sharded if n in kwargs})
      pos = [a if sig.params[i]['static'] else jax.tree_util.tree_map(lambda x: x[::-1].copy(), a)
             for i, a in enumerate(args)]
      if len(other) + sum(not p['static'] for p in sig.params[:len(args)]) == len(sharded):
        got2 = dist(*pos, **{**ckw, **other})
        if not collective:
          for g, w in zip(_leaves(got2), want):
            c.close('result for other data', g, w[::-1], rtol=1e-5 if np.float32 in (g.dtype, w.dtype) else 1e-9, atol=1e-9)
        c.event('calls')
  c.trivial = not done


def part_calls(mon):
  for c in mon.cases('calls', 30, 1000):
    with c:
      _run(c, mon, False)


def part_collectives(mon):
  for c in mon.cases('calls', 30, 1000):
    with c:
      _run(c, mon, True)

import numpy as np

PARTS = [dict(name=f'layers{i}', fn='layers', budget={'quick': 25.}) for i in range(4)]
RULE = ('A case is a random module and configuration of the lifted layer; non-trivial when outputs and gradients '
        'were compared with integrating the wrapped module directly.')
ASSUMPTIONS = ['States are arrays, and no random key is passed when differentiating.']


def _modules():
  import jax
  import jax.numpy as jnp
  from flax import linen as nn

  class Dense(nn.Module):
    features: tuple
    kind: int = 0
    dim: int = 3

    @nn.compact
    def __call__(self, x, t, dw, *extra):
      h = x if self.kind == 0 else jnp.concatenate([x, jnp.asarray(t, x.dtype)[None]])
      for i, feat in enumerate(self.features):
        h = nn.tanh(nn.Dense(feat, param_dtype=x.dtype, name=f'layer{i}' if self.kind == 2 else None)(h))
      drift = nn.Dense(self.dim, param_dtype=x.dtype)(h)
      for e in extra:
        drift = drift + e
      s = self.param('scale', nn.initializers.normal(.5), (self.dim,), x.dtype)
      if self.kind == 3:
        mix = nn.Dense(self.dim * dw.size, param_dtype=x.dtype)(x)
        return drift, .2 * jnp.tanh(mix).reshape(self.dim, -1) @ dw.reshape(-1)
      return drift, s * jnp.cos(x) * jnp.sum(dw)

  class Nested(nn.Module):
    features: tuple
    dim: int = 3

    def setup(self):
      self.first = Dense(self.features, 1, self.dim)
      self.second = nn.Dense(self.dim)

    def __call__(self, x, t, dw, *extra):
      a, b = self.first(x, t, dw, *extra)
      return nn.tanh(self.second(a)), b
  return Dense, Nested


def part_layers(mon):
  import jax
  import jax.numpy as jnp
  from flax import linen as nn
  from swirl_fem.sde.flax_nn_sde import nn_sdeint
  from swirl_fem.sde.sdeint import sdeint
  Dense, Nested = _modules()
  for c in mon.cases('modules', 14, 400):
    with c:
      r = c.rng
      dim = int(r.integers(1, 5))
      features = tuple(int(k) for k in r.integers(1, 9, int(r.integers(0, 3))))
      nested = r.random() < .3
      kind = int(r.integers(4))
      cls, margs = (Nested, (features, dim)) if nested else (Dense, (features, kind, dim))
      if nested and not features:
        margs = ((2,), dim)
      m = tuple(int(k) for k in [[], [2], [3]][int(r.integers(3))])
      K = int(r.integers(1, 5))
      n = K * int(r.choice([1, 3, 16]))
      ts = np.linspace(0, float(r.uniform(.3, 1)), K + 1)
      extra = [r.normal(size=dim) for _ in range(int(r.integers(0, 3)))]
      compact = r.random() < .5

      class Layer(nn.Module):
        def setup(self):
          if not compact:
            self.wrapped = nn_sdeint(cls)(*margs)

        def __call__(self, x, ts, dw, *e):
          return self.wrapped(x, ts, dw, *e)

      class Compact(nn.Module):
        @nn.compact
        def __call__(self, x, ts, dw, *e):
          return nn_sdeint(cls)(*margs, name='wrapped')(x, ts, dw, *e)
      layer = Compact() if compact else Layer()
      c.describe(module=cls.__name__, config=margs, noise=m, outputs=K, steps=n, extra=len(extra), compact=compact)
      x = jnp.asarray(r.normal(size=dim))
      dw = jnp.asarray(r.normal(size=(n,) + m) / np.sqrt(n))
      tj = jnp.asarray(ts)
      key = jax.random.PRNGKey(int(r.integers(1 << 30)))
      ex = [jnp.asarray(e) for e in extra]
      out0, variables = layer.init_with_output(key, x, tj, dw, *ex)
      c.check('initialization gives an output of the right shape', out0.shape == (K, dim), out0.shape)
      inner = cls(*margs).init(key, x, tj[0], dw[0], *ex)
      shapes = lambda t: jax.tree_util.tree_map(lambda v: (v.shape, str(v.dtype)), t)
      c.check('parameters are those of the wrapped module', list(variables) == ['params'] and
              shapes(dict(variables['params'])) == shapes({'wrapped': inner['params']}),
              f'{shapes(variables)} for {shapes(inner)}')
      c.check('initialization is deterministic', all(np.array_equal(a, b) for a, b in zip(
          jax.tree_util.tree_leaves(variables), jax.tree_util.tree_leaves(layer.init(key, x, tj, dw, *ex)))))
      # other parameters than the initial ones
      params = jax.tree_util.tree_map(lambda v: v + .3 * jnp.asarray(r.normal(size=v.shape), v.dtype), variables['params'])
      f = lambda y, t, w, p, *e: cls(*margs).apply({'params': p}, y, t, w, *e)
      lifted = lambda p, x, dw, *e: layer.apply({'params': p}, x, tj, dw, *e)
      direct = lambda p, x, dw, *e: sdeint(f, x, tj, dw, p['wrapped'], *e)
      got, want = lifted(params, x, dw, *ex), direct(params, x, dw, *ex)
      c.check('shape', got.shape == (K, dim))
      c.close('lifted layer equals the integrator', got, want, rtol=1e-9, atol=1e-10)
      # the recursion itself, evaluated step by step
      y, states = x, []
      dt = (ts[1] - ts[0]) / (n // K)
      for j in range(n if n <= 12 else 0):
        t = ts[0] + j * dt
        a, b = f(y, t, dw[j], params['wrapped'], *ex)
        _, b2 = f(y + b, t + dt, dw[j], params['wrapped'], *ex)
        y = y + a * dt + .5 * (b + b2)
        if (j + 1) % (n // K) == 0:
          states.append(y)
      if states:
        c.close('lifted layer equals the recursion', got, jnp.stack(states), rtol=1e-8, atol=1e-9)
      cot = jnp.asarray(r.normal(size=(K, dim)))
      args = tuple(range(2)) + tuple(3 + i for i in range(len(ex)))
      loss = lambda fn: jax.grad(lambda *a: jnp.sum(cot * fn(*a) ** 2), argnums=args)
      g, w = jax.jit(loss(lifted))(params, x, dw, *ex), jax.jit(loss(direct))(params, x, dw, *ex)
      c.check('structure of the gradient', jax.tree_util.tree_structure(g) == jax.tree_util.tree_structure(w))
      size = max(float(jnp.abs(v).max()) for v in jax.tree_util.tree_leaves(w)) + 1e-3
      for a, b in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(w)):
        c.close('gradients equal those of the integrator', a, b, rtol=1e-6, scale=size)
      # batches of states and paths
      xs = jnp.stack([x, -x, 2 * x])
      ws = jnp.stack([dw, dw[::-1], -dw])
      batch = jax.vmap(lambda x, w: lifted(params, x, w, *ex))(xs, ws)
      one = [lifted(params, a, b, *ex) for a, b in zip(xs, ws)]
      c.close('batches', batch, jnp.stack(one), rtol=1e-9, atol=1e-10)
      c.event('layer_evaluations', 6)
      c.event('gradient_leaves', len(jax.tree_util.tree_leaves(g)))

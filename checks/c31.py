"""C31: the closure model as a map of batches, observed by tainting inputs and comparing executions."""

import types

import numpy as np

PARTS = [dict(name=f'model{i}', fn='model', x64=False, xla_flags=['--xla_backend_optimization_level=0'],
              budget={'quick': 45.}) for i in range(5)] + [
    dict(name='blocks', x64=False), dict(name='processor', x64=False, budget={'quick': 45.})]
RULE = ('A case is a random configuration, a batch of inputs and random parameters. Non-trivial when the taint of '
        'every example was followed to the outputs and at least two executions were compared.')
ASSUMPTIONS = ['Sequence lengths are multiples of the products of the pooling strides, and widths of the head counts.',
               'The stochastic processor has at least two samples (with one the model refuses to run).']


def _train():
  from absl import flags
  from swirl_fem.niles import train
  if not flags.FLAGS.is_parsed():
    flags.FLAGS(['check'])
  return train


def _configuration(r, kind):
  import ml_collections
  heads = int(r.integers(1, 3))
  width = heads * int(r.choice([2, 4]))
  depth, pooled = {0: (0, ()), 1: (1, ()), 2: (2, (1,)), 3: (3, (1,)), 4: (2, (1,))}[kind]
  if kind == 0 and r.random() < .5:
    depth = 1
  stride = int(r.choice([2, 4]))
  samples = 0 if kind in (0, 1, 4) else int(r.integers(2, 4))
  if kind == 1 or (kind == 0 and depth):
    samples = int(r.choice([0, 2]))
  latent = width * 2 ** len(pooled)
  proc = dict(num_samples=samples, use_transformer=True, data_size=1, latent_size=latent,
              num_gridpoints=int(r.integers(2, 5)), num_sde_layers=1, num_layers=1, context_size=4, hidden_size=4,
              prior_scale=float(r.choice([.1, .5, 1.])))
  return dict(num_layers=1, num_heads=2, depth=depth, width=width, use_residuals=bool(r.random() < .7),
              freeze_encoder=False, mean_after_decoder=bool(samples) and bool(r.random() < .6),
              processor_config=ml_collections.FrozenConfigDict(proc), num_initial_heads=heads, pooling_layers=pooled,
              pooling_kernel=(1, int(r.choice([2, 3, 5]))), pooling_strides_q=(1, stride),
              initial_kv_pooling_strides=(1, int(r.choice([1, 2]))), qkv_tile_reps=(stride, 1)), stride


def _random_params(r, params, scale=.3):
  import jax
  leaves, tree = jax.tree.flatten(params)
  return jax.tree.unflatten(tree, [np.asarray(x) + scale * r.normal(size=x.shape).astype(x.dtype) for x in leaves])


def part_model(mon):
  import jax
  import jax.numpy as jnp
  train = _train()
  kind = int(mon.part[-1])
  for c in mon.cases('configurations', 1, 25, minimum=1):
    with c:
      r = c.rng
      cfg, stride = _configuration(r, kind)
      L, C = stride * int(r.integers(1, 4)), int(r.integers(2, 7))
      B = int(r.integers(2, 5))
      samples = cfg['processor_config']['num_samples'] if cfg['depth'] else 0
      c.describe(batch=B, sequence=L, channels=C, samples=samples,
                 **{k: v for k, v in cfg.items() if k != 'processor_config'})
      model = train.create_model('multiscale_transformer', types.SimpleNamespace(**cfg))
      p0 = train.initialized(jax.random.PRNGKey(int(r.integers(2 ** 31))), L, C, model)
      c.check('parameters', all(np.isfinite(x).all() for x in jax.tree.leaves(p0)), 'initial parameters not finite')

      def both(params, x, key, wy, wa):
        def loss(params):
          y, aux = model.apply({'params': params}, x, key)
          return (y * wy).sum() + sum((aux[k] * wa[i]).sum() for i, k in enumerate(sorted(aux))), (y, aux)
        (_, out), g = jax.value_and_grad(loss, has_aux=True)(params)
        return out, g
      f = jax.jit(both)
      wy = r.normal(size=(B, L, C)).astype(np.float32)
      wa = r.normal(size=(5, B)).astype(np.float32)
      key = jax.random.PRNGKey(int(r.integers(2 ** 31)))
      x = r.normal(size=(B, L, C)).astype(np.float32)

      def run(params, x, key=key):
        (y, aux), g = jax.device_get(f(params, jnp.asarray(x), key, wy, wa))
        c.event('execution')
        return y, aux, g

      y, aux, g = run(p0, x)
      c.check('initial forcing', y.shape == x.shape and bool(abs(y).max() < 1e-4),
              'an untrained model applies a forcing that is not close to zero')
      for trial in range(3 if mon.quick else 8):
        params = _random_params(r, p0, .3 if trial else .05)
        x = (r.normal(size=(B, L, C)) * 10 ** r.uniform(-1, 1)).astype(np.float32)
        y, aux, g = run(params, x)
        c.check('shape', y.shape == x.shape and y.dtype == x.dtype, f'{y.shape} {y.dtype}')
        c.check('auxiliary outputs', set(aux) == {'kl_path', 'kl_q0', 'z0_means', 'z1_means', 'z1_stds'}
                and all(a.shape == (B,) for a in aux.values()), f'{ {k: a.shape for k, a in aux.items()} }')
        c.check('finite', bool(np.isfinite(y).all()) and all(np.isfinite(a).all() for a in aux.values()),
                'output not finite')
        bad = [jax.tree_util.keystr(k) for k, v in jax.tree_util.tree_leaves_with_path(g) if not np.isfinite(v).all()]
        c.check('gradients', not bad, f'gradients not finite for {bad[:4]}')
        c.check('divergences', all((aux[k] >= 0).all() for k in ('kl_path', 'kl_q0')), 'negative divergence')
        same = run(params, x)
        c.equal('deterministic', same[0], y)
        for k in aux:
          c.equal('deterministic', same[1][k], aux[k], msg=k)
        # taint one example: all others must not notice, bit for bit
        for j in range(B):
          bad = x.copy()
          bad[j] = np.nan
          yb, auxb, _ = run(params, bad)
          keep = [i for i in range(B) if i != j]
          c.equal('independent examples', yb[keep], y[keep], msg=f'example {j} tainted')
          c.check('depends on the example', not np.isfinite(yb[j]).any(), 'output does not depend on its input')
          for k in aux:
            c.equal('independent examples', auxb[k][keep], aux[k][keep], msg=f'{k}, example {j} tainted')
          c.event('taint')
        other = run(params, x, jax.random.PRNGKey(int(r.integers(2 ** 31))))
        if samples:
          c.check('stochastic', bool((abs(other[0] - y).reshape(B, -1).max(1) > 0).all()),
                  'output does not depend on the random key')
          # two examples with equal inputs see different noise
          twin = x.copy()
          twin[1] = twin[0]
          yt = run(params, twin)[0]
          c.check('independent noise', bool(abs(yt[1] - yt[0]).max() > 0), 'equal examples received equal noise')
        else:
          c.equal('no processor, no noise', other[0], y)
          for k in aux:
            c.equal('no processor, no noise', aux[k], np.zeros(B, np.float32), msg=k)
          # without noise the batch is a map: any reordering and repetition of examples commutes
          order = r.integers(0, B, B)
          c.close('equivariant', run(params, x[order])[0], y[order], rtol=1e-4, scale=abs(y).max())
      if not samples:
        continue
      # divergence of the initial state in closed form
      (y, _), inter = model.apply({'params': params}, jnp.asarray(x), key, capture_intermediates=True,
                                  mutable=['intermediates'])
      enc = inter['intermediates']['multiscale_encoder']['__call__'][0][0]
      enc = np.asarray(enc, float).reshape(B, -1)
      s = cfg['processor_config']['prior_scale']
      aux = run(params, x)[1]
      c.close('divergence of the initial state', aux['kl_q0'], (enc ** 2).sum(-1) / (2 * s ** 2), rtol=1e-3)
      c.close('mean of the initial state', aux['z0_means'], enc.mean(-1), atol=1e-4 * max(abs(enc).max(), 1))


def part_blocks(mon):
  _train()
  import jax.numpy as jnp
  from swirl_fem.niles import transformer as tr
  for c in mon.cases('pooling', 40, 2000):
    with c:
      r = c.rng
      B, L, heads, hd = int(r.integers(1, 4)), int(r.integers(1, 13)), int(r.integers(1, 4)), int(r.integers(1, 4))
      window, stride = int(r.integers(1, 6)), int(r.integers(1, 5))
      mode = str(r.choice(['avg', 'max', 'none']))
      c.describe(batch=B, length=L, heads=heads, head_dim=hd, window=window, stride=stride, mode=mode)
      x = r.normal(size=(B, L, heads * hd)).astype(np.float32)
      got = np.asarray(tr.attention_pooling(jnp.asarray(x), (1, window), (1, stride), mode, heads))
      if mode == 'none' or window == 1:
        want = x
      else:
        n = -(-L // stride)
        pad = max((n - 1) * stride + window - L, 0)
        fill = 0. if mode == 'avg' else -np.inf
        padded = np.full((B, L + pad, heads * hd), fill)
        padded[:, pad // 2:pad // 2 + L] = x
        want = np.stack([(padded[:, i * stride:i * stride + window].mean(1) if mode == 'avg' else
                          padded[:, i * stride:i * stride + window].max(1)) for i in range(n)], 1)
      want = want.reshape(B, -1, heads, hd)
      c.close('pooled', got, want, atol=1e-5)
      c.raises('unknown mode', ValueError,
               lambda: tr.attention_pooling(jnp.asarray(x), (1, 2), (1, 1), 'mean', heads))
      c.event('pool')
  for c in mon.cases('division', 20, 500):
    with c:
      r = c.rng
      x, y = r.normal(size=(2, 7)).astype(np.float32)
      y[r.random(7) < .4] = 0
      got = np.asarray(tr._divide_no_nan(jnp.asarray(x), jnp.asarray(y)))
      c.close('quotient', got, [a / b if abs(b) > 1e-8 else 0. for a, b in zip(x, y)], rtol=1e-5)


def part_processor(mon):
  _train()
  import jax
  import jax.numpy as jnp
  import ml_collections
  from swirl_fem.niles import transformer as tr
  for c in mon.cases('drift and diffusion', 6, 60, minimum=2):
    with c:
      r = c.rng
      n, ctx, h = int(r.integers(1, 5)), int(r.integers(1, 4)), int(r.integers(1, 5))
      c.describe(latent=n, context=ctx, hidden=h)
      mod = tr.VariationalDriftDiffusion((h, n), (h, h, n), (h, 1))
      args = (np.zeros(n + 1, np.float32), jnp.float32(0), np.zeros(n, np.float32), np.zeros(ctx, np.float32))
      p = _random_params(r, mod.init(jax.random.PRNGKey(0), *args)['params'], .8)
      f = jax.jit(lambda *a: mod.apply({'params': p}, *a))
      z, t, dw, context = r.normal(size=n + 1).astype(np.float32), np.float32(r.random()), r.normal(size=n).astype(
          np.float32), r.normal(size=ctx).astype(np.float32)

      def act(tree, x, fs, last=None):
        names = sorted(tree, key=lambda s: int(s.split('_')[-1]))
        for i, nm in enumerate(names):
          x = x @ np.asarray(tree[nm]['kernel'], float) + np.asarray(tree[nm]['bias'], float)
          x = fs(x) if i < len(names) - 1 else last(x)
        return x
      gelu = lambda x: .5 * x * (1 + np.tanh(np.sqrt(2 / np.pi) * (x + .044715 * x ** 3)))
      post = act(p['post_drift_mlp']['mlp'], np.concatenate([z[:n], context]).astype(float), gelu, np.tanh)
      prior = act(p['prior_drift_mlp']['mlp'], z[:n].astype(float), gelu, np.tanh)
      diff = np.array([act(p['diffusion_mlp'][f'mlps_{i}'], z[i:i + 1].astype(float), gelu, np.exp)[0]
                       for i in range(n)])
      drift, noise = f(z, t, dw, context)
      want = np.concatenate([post, [.5 * (((post - prior) / diff) ** 2).sum()]])
      c.close('drift and divergence rate', drift, want, rtol=2e-4)
      c.close('noise of the state', np.asarray(noise), np.zeros(n + 1), atol=0)
      c.event('evaluation')
      one = tr.Diffusion((h, 1), n)
      q = _random_params(r, one.init(jax.random.PRNGKey(0), z[:n])['params'], .8)
      jac = np.asarray(jax.jit(jax.jacobian(lambda v: one.apply({'params': q}, v)))(z[:n]))
      c.equal('diagonal diffusion', jac - np.diag(np.diag(jac)), np.zeros((n, n), np.float32))
      c.check('positive diffusion', bool((np.asarray(one.apply({'params': q}, z[:n])) > 0).all()), 'not positive')
  for c in mon.cases('vanishing noise', 3, 40, minimum=2):
    with c:
      r = c.rng
      n, ctx, h = int(r.integers(2, 5)), int(r.integers(1, 4)), int(r.integers(1, 5))
      mod = tr.VariationalDriftDiffusion((h, n), (h, h, n), (h, 1))
      args = (np.zeros(n + 1, np.float32), jnp.float32(0), np.zeros(n, np.float32), np.zeros(ctx, np.float32))
      p = _random_params(r, mod.init(jax.random.PRNGKey(0), *args)['params'], .8)
      p = jax.tree_util.tree_map(np.asarray, dict(p))
      gone = r.random(n) < .6
      gone[r.integers(n)] = True
      mlps = dict(p['diffusion_mlp'])
      for i in np.flatnonzero(gone):
        m = dict(mlps[f'mlps_{i}'])
        last = max(m, key=lambda v: int(v.split('_')[-1]))
        m[last] = dict(m[last], bias=m[last]['bias'] * 0 - np.float32(r.choice([30, 60, 130, 300])))
        mlps[f'mlps_{i}'] = m
      p = dict(p, diffusion_mlp=mlps)
      z, dw, context = r.normal(size=n + 1).astype(np.float32), r.normal(size=n).astype(np.float32), r.normal(
          size=ctx).astype(np.float32)
      c.describe(latent=n, vanishing=gone)
      rate = lambda p, z: mod.apply({'params': p}, z, jnp.float32(0), dw, context)[0][-1]
      both = jax.jit(lambda p, z: (jax.value_and_grad(rate, argnums=(0, 1))(p, z), mod.apply(
          {'params': p}, z, jnp.float32(0), dw, context)[0]))
      ((value, grads), drift) = both(p, z)
      ratio = np.zeros(n)
      post = np.asarray(drift)[:n].astype(float)
      prior = np.asarray(tr.Drift((h, n)).apply({'params': p['prior_drift_mlp']}, z[:n]), float)
      noise = np.asarray(tr.Diffusion((h, 1), n).apply({'params': p['diffusion_mlp']}, z[:n]), float)
      if (noise[gone] > 1e-9).any() or (noise[~gone] < 1e-6).any():
        c.trivial = True
        continue
      ratio[~gone] = (post - prior)[~gone] / noise[~gone]
      c.close('rate without the vanishing noise', float(value), .5 * (ratio ** 2).sum(), rtol=2e-4)
      c.check('finite derivatives', all(np.isfinite(np.asarray(g)).all() for g in jax.tree_util.tree_leaves(grads)))
      c.event('vanishing', gone.sum())
  for c in mon.cases('dynamics', 1, 20, minimum=1):
    with c:
      r = c.rng
      latent, seq = 2 * int(r.integers(2, 4)), int(r.integers(1, 4))
      n = latent * seq
      c.describe(latent=latent, sequence=seq)
      mod = tr.Dynamics(num_layers=1, latent_size=latent, hidden_size=3)
      args = (np.zeros(n + 1, np.float32), jnp.float32(0), np.zeros(n, np.float32), np.zeros(n, np.float32))
      p = _random_params(r, jax.jit(mod.init)(jax.random.PRNGKey(0), *args)['params'], .4)
      f = jax.jit(lambda *a: mod.apply({'params': p}, *a))
      z = r.normal(size=n + 1).astype(np.float32)
      t, ctx = np.float32(r.random()), r.normal(size=n).astype(np.float32)
      drift, noise = f(z, t, np.zeros(n, np.float32), ctx)
      c.equal('no increment, no noise', np.asarray(noise), np.zeros(n + 1, np.float32))
      c.check('divergence rate', float(drift[-1]) >= 0, 'negative')
      scale = []
      for i in range(n):
        e = np.zeros(n, np.float32)
        e[i] = 1
        d2, s = jax.device_get(f(z, t, e, ctx))
        c.equal('noise is not in the drift', d2, np.asarray(drift))
        c.check('diagonal noise', bool(s[i] > 0) and bool((np.delete(s, i) == 0).all()), f'{s.tolist()}')
        scale.append(s[i])
      # moving the prior drift by a constant shows the quadratic form of the rate: half the squared ratio
      prior = [k for k in p if 'prior' in k and np.shape(p[k].get('bias', ())) == (latent,) and 'kernel' in p[k]]
      if len(prior) == 1:
        k = int(r.integers(latent))
        size = .5 * np.abs(scale[k::latent]).min()
        rates = []
        for step in (-size, 0, size):
          q = {**p, prior[0]: {**p[prior[0]], 'bias': np.asarray(p[prior[0]]['bias']) + step * (np.arange(latent) == k)}}
          rates.append(float(jax.device_get(mod.apply({'params': q}, z, t, np.zeros(n, np.float32), ctx))[0][-1]))
        want = (size ** 2 / np.array(scale[k::latent], float) ** 2).sum()
        c.close('divergence rate', rates[0] + rates[2] - 2 * rates[1], want, rtol=1e-3, atol=2e-6 * max(rates))
        c.event('rate')
      dw = r.normal(size=n).astype(np.float32)
      c.close('linear in increments', f(z, t, dw, ctx)[1], np.append(dw * scale, 0), rtol=1e-5)
      moved = z.copy()
      moved[-1] += 1
      c.equal('accumulated divergence is not fed back', np.asarray(f(moved, t, dw, ctx)[0]), np.asarray(drift))
      d4 = np.asarray(f(z, t, dw, r.normal(size=n).astype(np.float32))[0])
      c.check('depends on context', bool(abs(d4 - np.asarray(drift)).max() > 0), 'drift does not see the context')
      c.event('evaluation', n)
  for c in mon.cases('latent path', 2, 20, minimum=1):
    with c:
      r = c.rng
      B, S = int(r.integers(2, 4)), 1
      n, size = int(r.integers(1, 4)), int(r.integers(2, 6))
      s = float(r.choice([.2, 1.]))
      cfg = ml_collections.FrozenConfigDict(dict(
          num_samples=S, use_transformer=False, data_size=size, latent_size=n, num_gridpoints=3, num_sde_layers=1,
          num_layers=1, context_size=2, hidden_size=3, prior_scale=s))
      c.describe(batch=B, samples=S, latent=n, size=size, scale=s)
      mod = tr.LatentSDE(model_config=cfg)
      x = r.normal(size=(B, size)).astype(np.float32)
      key = jax.random.PRNGKey(int(r.integers(2 ** 31)))
      p = _random_params(r, jax.jit(mod.init)(jax.random.PRNGKey(0), x, key)['params'], .4)
      f = jax.jit(lambda x, key: mod.apply({'params': p}, x, key))
      y, aux = jax.device_get(f(x, key))
      c.check('shapes', y.shape == (B, S, size) and aux['kl_q0'].shape == aux['kl_path'].shape == (B,), f'{y.shape}')
      c.check('finite', bool(np.isfinite(y).all() and np.isfinite(aux['kl_q0']).all()), 'not finite')
      c.check('divergences', bool((aux['kl_q0'] >= -1e-5).all() and (aux['kl_path'] >= 0).all()), f'negative: {aux}')
      q = p['encoder_mlp'] if 'encoder_mlp' in p else p['sde_encoder_mlp']
      gelu = lambda v: .5 * v * (1 + np.tanh(np.sqrt(2 / np.pi) * (v + .044715 * v ** 3)))
      hid = x.astype(float)
      for nm in sorted(q):
        hid = gelu(hid @ np.asarray(q[nm]['kernel'], float) + np.asarray(q[nm]['bias'], float))
      mean, logstd = hid[:, :n], hid[:, n:2 * n]
      kl = (np.log(s) - logstd + (np.exp(2 * logstd) + mean ** 2) / (2 * s ** 2) - .5).sum(-1)
      c.close('divergence of the encoding', aux['kl_q0'], kl, rtol=1e-3, atol=1e-4)
      for j in range(B):
        bad = x.copy()
        bad[j] = np.nan
        yb, auxb = jax.device_get(f(bad, key))
        keep = [i for i in range(B) if i != j]
        c.equal('independent examples', yb[keep], y[keep])
        c.equal('independent examples', auxb['kl_path'][keep], aux['kl_path'][keep])
        c.check('depends on the example', not np.isfinite(yb[j]).any(), 'output does not depend on its input')
        c.event('taint')

"""C39: training steps against the roll-out, loss and update written out from their definitions."""

import tempfile
import types

import numpy as np

PARTS = [dict(name=f'rollout{i}', fn='rollout', budget={'quick': 60.}) for i in range(3)] + [
    dict(name='ordered', budget={'quick': 60.}), dict(name='replicas', devices=4, budget={'quick': 60.}),
    dict(name='evaluation', budget={'quick': 60.}), dict(name='runs', devices=2, budget={'quick': 60.}),
    dict(name='restarts', devices=2, budget={'quick': 60.})]
RULE = ('A case is a flow setup, a batch of snapshots, a closure and settings of the loss or the optimizer. Non-trivial '
        'when losses, divergences and gradients or updated parameters were compared with an independent roll-out.')
ASSUMPTIONS = ['The step of the flow solver is the one decided by C19; it is asked for accurate solutions where '
               'trajectories and gradients are compared closely.',
               'Closures are small networks with the interface the training loop calls, as the model of the '
               'repository does not accept the arguments it passes.',
               'Meshes used in evaluation interpolate as the evaluation expects of them.']


def _train():
  from absl import flags
  from swirl_fem.niles import train
  if not flags.FLAGS.is_parsed():
    flags.FLAGS(['check'])
  return train


class _Accurate:
  """A flow solver that is always asked for accurate solutions."""

  def __init__(self, sem):
    self._sem = sem

  def __getattr__(self, name):
    return getattr(self._sem, name)

  def stokes_one_step(self, *args, **kw):
    kw.update(tol=1e-11, atol=0.)
    return self._sem.stokes_one_step(*args, **kw)


def _config(r, n=None, order=None, **kw):
  n = n or int(r.integers(2, 4))
  order = order or int(r.integers(2, 5))
  cfg = dict(
      time_order=int(r.integers(2, 4)), num_steps=int(r.integers(1, 5)), eval_num_steps=int(r.integers(2, 6)),
      permute_elements=False, num_pushforward_steps=int(r.choice([0, 1, 2])), element_grid_size=n, order=order,
      num_elements=n * n, num_channels=2 * (order + 1) ** 2, num_nodes=(n * order + 1) ** 2,
      reynolds_number=float(r.choice([20., 500., 2e4])), drag_coeff=float(r.choice([0., .04, 2.])),
      dt=float(r.choice([1e-3, 5e-3])), alpha=float(r.choice([0., .05, .5])), weight_decay=float(r.choice([0., .05, .5])),
      grad_clip_norm=[None, .01, 10.][int(r.integers(3))], warmup_epochs=1., num_epochs=4., kl_penalty=.3,
      kl_transition_epochs=1., kl_zero_epochs=0)
  cfg.update(kw)
  return types.SimpleNamespace(**cfg)


def _sem(cfg):
  from swirl_fem.common import premesh_commons
  from swirl_fem.navier_stokes import navier_stokes
  return navier_stokes.StokesSEM.create(
      premesh_commons.unit_cube_mesh(cfg.element_grid_size, ndim=2, periodic_dims=(0, 1)), boundary_conditions={},
      order=cfg.order)


def _snapshots(r, sem, b, length):
  """Smooth random velocities which repeat across the periodic sides, and pressures."""
  x = np.asarray(sem.velocity.mesh.node_coords)
  u = np.zeros((b, length) + x.shape)
  for i in range(b):
    for _ in range(3):
      k, ph, w = r.integers(-2, 3, 2), r.uniform(0, 6), r.uniform(-1, 1)
      a = r.normal(size=2)
      for t in range(length):
        u[i, t] += a * np.sin(2 * np.pi * (x @ k) + ph + w * t)[:, None]
  p = r.normal(size=(b, length, sem.pressure.pspace.mesh.num_nodes))
  return u, p


def _closure(noisy=True):
  import flax.linen as nn
  import jax
  import jax.numpy as jnp
  from typing import Any

  class Closure(nn.Module):
    """Depends on every channel of every element, on its place and on both random keys."""
    dtype: Any = jnp.float32

    @nn.compact
    def __call__(self, inputs, z_rng, *, train=False):
      assert inputs.dtype == jnp.float32, inputs.dtype
      ch = inputs.shape[-1]
      f32 = jnp.float32
      w = self.param('w', nn.initializers.normal(.3), (ch, ch), f32)
      place = self.param('place', nn.initializers.normal(.5), inputs.shape[1:2] + (1,), f32)
      s = self.param('s', nn.initializers.constant(.3), (), f32)
      h = jnp.tanh(inputs @ w + place)
      h = h + .3 * jnp.roll(h, 1, axis=1)
      noise = jax.random.normal(z_rng, inputs.shape[1:], f32)
      h = h + s * (noise if noisy else 1)
      if noisy and train and self.has_rng('dropout'):
        h = h * (1 + .1 * jax.random.normal(self.make_rng('dropout'), h.shape[1:], f32))
      mean = h.mean(axis=(1, 2))
      return 3. * h, dict(kl_q0=mean ** 2, kl_path=jnp.abs(mean) + s ** 2, z0_means=mean - .1, z1_means=2 * mean,
                          z1_stds=-mean)
  return Closure()


def _rollout(train, cfg, sem, apply, params, us, ps, rng, steps, training):
  """Predictions and divergences, one example at a time and step by step."""
  import jax
  import jax.numpy as jnp
  b = us[0].shape[0]
  elements = np.asarray(sem.velocity.mesh.elements)
  x = np.asarray(sem.velocity.mesh.node_coords)
  mass = np.asarray(sem.velocity_mass_diag)
  coeffs = {2: [-1., 2.], 3: [1., -3., 3.]}[cfg.time_order]
  drop, z = jax.random.split(rng)
  order = np.asarray(train.make_multiscale_perm()) if cfg.permute_elements else np.arange(len(elements))
  us, ps = list(us), list(ps)
  conv = [[sem.C(u[i]) for i in range(b)] for u in us]
  preds, q0, path, aux = [], 0., 0., None
  step = jax.jit(lambda u, p, f: sem.stokes_one_step(
      u, p, f, mu=1 / cfg.reynolds_number, dt=cfg.dt, alpha=cfg.alpha, time_order=cfg.time_order, tol=0, atol=1e-7)[:2])
  convect = jax.jit(sem.C)
  for t in range(steps):
    inputs = us[-1][:, elements[order]].astype(jnp.float32).reshape(b, len(elements), -1)
    kw = dict(rngs={'dropout': jax.random.fold_in(drop, t)}) if training else {}
    out, aux = apply({'params': params}, inputs, z_rng=jax.random.fold_in(z, t), train=training, **kw)
    if training and t < cfg.num_pushforward_steps:
      out = jax.lax.stop_gradient(out)
    q0, path = q0 + aux['kl_q0'], path + aux['kl_path']
    out = out.reshape(b, len(elements), elements.shape[1], 2)
    nu, npr, nc = [], [], []
    for i in range(b):
      closure = jnp.zeros((len(x), 2)).at[elements[order]].add(out[i])
      u = us[-1][i]
      force = jnp.stack([jnp.sin(8 * np.pi * x[:, 1]), jnp.zeros(len(x))], -1) - cfg.drag_coeff * u + closure
      c = sum(a * h[i] for a, h in zip(coeffs, conv[-len(coeffs):]))
      ui, pi = step(tuple(v[i] for v in us), tuple(v[i] for v in ps), mass * force - c)
      nu.append(ui)
      npr.append(pi)
      nc.append(convect(ui))
    us = us[1:] + [jnp.stack(nu)]
    ps = ps[1:] + [jnp.stack(npr)]
    conv = conv[1:] + [nc]
    preds.append(us[-1])
  return jnp.stack(preds, 1), q0, path, aux


def _loss(train, cfg, sem, apply, params, u, p, rng, kl, training, steps):
  import jax.numpy as jnp
  k = cfg.time_order
  preds, q0, path, aux = _rollout(train, cfg, sem, apply, params, [u[:, i] for i in range(k)],
                                  [p[:, i] for i in range(k)], rng, steps, training)
  err = .5 * ((preds - u[:, k:k + steps]) ** 2).sum((-1, -2)).mean(0)
  kl_q0, kl_path = q0.mean(), path.mean()
  return err.sum() + kl * (kl_q0 + kl_path), dict(
      mse=err, kl_q0=kl_q0, kl_path=kl_path, kl=kl * (kl_q0 + kl_path), preds=preds,
      **{n: jnp.abs(aux[n]).mean() for n in ('z0_means', 'z1_means', 'z1_stds')})


def _compare(c, cfg, permute=False):
  import jax
  import jax.numpy as jnp
  train = _train()
  r = c.rng
  steps = cfg.num_steps
  b = int(r.integers(1, 4))
  sem = _Accurate(_sem(cfg))
  u, p = map(jnp.asarray, _snapshots(r, sem, b, cfg.time_order + steps + int(r.integers(0, 2))))
  model = _closure()
  rng = jax.random.PRNGKey(int(r.integers(2 ** 31)))
  params = model.init({'params': jax.random.PRNGKey(int(r.integers(2 ** 31)))},
                      jnp.ones((1, cfg.num_elements, cfg.num_channels), jnp.float32), rng)['params']
  kl = float(r.choice([0., .1, 2.]))
  c.describe(kl=kl, batch=b, **vars(cfg))

  def loss(params, sem=sem):
    return train.compute_mse_loss(
        {'u': u, 'p': p, 't': jnp.zeros(u.shape[:2])}, params, model_apply_fn=model.apply, step_rng=rng, kl_penalty=kl,
        sem=sem, uniform_mesh=None, first_order_perm=None, config=cfg, train=True)
  (got, aux), grads = jax.jit(jax.value_and_grad(loss, has_aux=True))(params)
  ref = lambda params: _loss(train, cfg, sem, model.apply, params, u, p, rng, kl, True, steps)
  (want, waux), wgrads = jax.value_and_grad(ref, has_aux=True)(params)
  # single precision closures give forces that are accurate to about 1e-6
  c.close('loss', float(got), float(want), rtol=2e-5)
  c.close('errors of the steps', aux['mse'], waux['mse'], rtol=2e-5)
  for k in ('kl_q0', 'kl_path', 'kl', 'z0_means', 'z1_means', 'z1_stds'):
    c.close('divergences and statistics', aux[k], waux[k], rtol=1e-4, atol=1e-6, msg=k)
  c.equal('no spectrum during training', aux['tke_err'], 0.)
  scale = max(float(jnp.abs(g).max()) for g in jax.tree.leaves(wgrads))
  for k in params:
    c.close('gradient', grads[k], wgrads[k], rtol=2e-3, atol=1e-7, scale=scale, msg=k)
  if steps <= cfg.num_pushforward_steps and not kl:
    c.check('no gradient through push-forward steps', all(not np.asarray(g).any() for g in jax.tree.leaves(grads)))
    c.event('stopped')
  c.event('step', steps * b)
  if c.index % 3 == 0:
    # as the training loop asks for it, to the accuracy of the solver
    plain, _ = jax.jit(lambda q: loss(q, sem._sem))(params)
    c.close('loss at the configured accuracy', float(plain), float(want), rtol=1e-3)


def part_rollout(mon):
  for c in mon.cases('rollout', 8, 200):
    with c:
      cfg = _config(c.rng)
      if c.index % 2 == 0:
        # gradients pass the steps after the push-forward steps, but not those before
        stop = int(c.rng.integers(1, 3))
        cfg = _config(c.rng, n=2, order=2, num_pushforward_steps=stop, num_steps=stop + int(c.rng.integers(1, 3)))
      _compare(c, cfg)


def part_ordered(mon):
  for c in mon.cases('ordered', 3, 60):
    with c:
      _compare(c, _config(c.rng, n=12, order=2, permute_elements=True, num_steps=int(c.rng.integers(1, 3)),
                          num_pushforward_steps=0))


def _adamw(params, m, v, g, t, lr, decay, clip):
  norm = np.sqrt(sum((x ** 2).sum() for x in g.values()))
  if clip is not None and norm > clip:
    g = {k: x * clip / norm for k, x in g.items()}
  m = {k: .9 * m[k] + .1 * g[k] for k in g}
  v = {k: .95 * v[k] + .05 * g[k] ** 2 for k in g}
  out = {k: params[k] - lr * (m[k] / (1 - .9 ** t) / (np.sqrt(v[k] / (1 - .95 ** t)) + 1e-6) + decay * params[k])
         for k in g}
  return out, m, v


def part_replicas(mon):
  train = _train()
  import functools
  import jax
  import jax.numpy as jnp
  from flax import jax_utils
  D = jax.local_device_count()
  for c in mon.cases('replicas', 4, 60):
    with c:
      r = c.rng
      cfg = _config(r, order=int(r.integers(2, 4)), num_steps=int(r.integers(1, 3)), num_pushforward_steps=0)
      b, per, base = int(r.integers(1, 3)), int(r.integers(1, 4)), float(10 ** r.uniform(-4, -1))
      sem = _Accurate(_sem(cfg))
      model = _closure()
      c.describe(batch=b, steps_per_epoch=per, base=base, **vars(cfg))
      lr, pen = train.create_learning_rate_fn(cfg, base, per), train.create_kl_penalty_fn(cfg, per)
      state = train.create_train_state(jax.random.PRNGKey(int(r.integers(2 ** 31))), model, lr, None, cfg)
      start = {k: np.asarray(x, np.float64) for k, x in state.params.items()}
      c.check('parameters of the model', {k: x.shape for k, x in start.items()} == dict(
          w=(cfg.num_channels,) * 2, place=(cfg.num_elements, 1), s=()), 'unexpected parameters')
      rngs = jax.random.split(jax.random.PRNGKey(int(r.integers(2 ** 31))), D)
      step = jax.pmap(functools.partial(train.train_step, sem=sem, config=cfg, learning_rate_fn=lr, kl_penalty_fn=pen),
                      axis_name='batch')
      one = jax.jit(jax.value_and_grad(lambda params, u, p, rng, kl: train.compute_mse_loss(
          {'u': u, 'p': p}, params, model_apply_fn=model.apply, step_rng=rng, kl_penalty=kl, sem=sem,
          uniform_mesh=None, first_order_perm=None, config=cfg, train=True), has_aux=True))
      rep = jax_utils.replicate(state)
      params, m, v = start, {k: 0 * x for k, x in start.items()}, {k: 0 * x for k, x in start.items()}
      batches = []
      saved = None
      for t in range(4):
        data = [_snapshots(r, sem, b, cfg.time_order + cfg.num_steps) for _ in range(D)]
        batch = {'u': jnp.stack([d[0] for d in data]), 'p': jnp.stack([d[1] for d in data])}
        batches.append(batch)
        before = {k: np.asarray(x)[0] for k, x in rep.params.items()}
        rep, metrics = step(rep, batch, train_rng=rngs)
        losses, grads = [], []
        for d in range(D):
          (l, _), g = one({k: jnp.asarray(x) for k, x in before.items()}, batch['u'][d], batch['p'][d],
                          jax.random.fold_in(rngs[d], t), float(pen(t)))
          losses.append(float(l))
          grads.append({k: np.asarray(x, np.float64) for k, x in g.items()})
        mean = {k: np.mean([g[k] for g in grads], 0) for k in start}
        params, m, v = _adamw({k: np.asarray(x, np.float64) for k, x in before.items()}, m, v, mean, t + 1,
                              float(lr(t)), cfg.weight_decay, cfg.grad_clip_norm)
        for k, x in rep.params.items():
          x = np.asarray(x)
          for d in range(1, D):
            c.equal('replicas agree', x[d], x[0], msg=f'{k} on device {d} after step {t}')
          c.close('update', x[0] - before[k], params[k] - before[k], rtol=2e-3, atol=1e-6, msg=f'{k} after step {t}')
        # the update hardly depends on the scale of the gradients, but the moments do
        for inner in jax.tree.leaves(rep.opt_state, is_leaf=lambda s: hasattr(s, 'mu')):
          if hasattr(inner, 'mu'):
            size = max(np.abs(x).max() for x in m.values())
            for k in m:
              c.close('first moment', np.asarray(inner.mu[k])[0], m[k], rtol=2e-3, atol=1e-7, scale=size, msg=k)
              c.close('second moment', np.asarray(inner.nu[k])[0], v[k], rtol=4e-3, atol=1e-9, scale=size ** 2, msg=k)
              c.event('moments')
        c.equal('steps counted', np.asarray(rep.step), np.full(D, t + 1))
        c.close('mean loss', np.asarray(metrics['loss']), np.full(D, np.mean(losses)), rtol=1e-5)
        c.close('reported rate', np.asarray(metrics['learning_rate']), np.full(D, float(lr(t))), rtol=1e-6)
        c.close('reported penalty', np.asarray(metrics['kl_penalty']), np.full(D, float(pen(t))), rtol=1e-6)
        c.event('update', D)
        if t == 1:
          saved = jax.tree.map(np.asarray, rep)
      # a run that stops after the second step continues from its checkpoint
      with tempfile.TemporaryDirectory() as d:
        c.check('nothing to restore', int(train.restore_checkpoint(state, d).step) == 0)
        train.save_checkpoint(saved, d)
        back = train.restore_checkpoint(state, d)
      first = jax.tree.map(lambda x: x[0], saved)
      c.check('structure restored', jax.tree.structure(back) == jax.tree.structure(first))
      for x, y in zip(jax.tree.leaves(back), jax.tree.leaves(first)):
        c.equal('restored', np.asarray(x), y)
      again = jax_utils.replicate(back)
      for batch in batches[2:]:
        again, _ = step(again, batch, train_rng=rngs)
      for k, x in again.params.items():
        c.close('continued', np.asarray(x), np.asarray(rep.params[k]), rtol=1e-5, msg=k)
      c.event('checkpoint')


class _Uniform:
  """Interpolates nodal values of another mesh with the same elements to equispaced nodes."""

  def __init__(self, mesh):
    self.mesh = mesh
    self.node_coords, self.num_nodes = mesh.node_coords, mesh.num_nodes

  def interpolate(self, u, source_mesh):
    import jax.numpy as jnp
    a, b = (np.asarray(m.gridpoints_1d.node_values, float) for m in (source_mesh, self.mesh))
    lag = np.array([[np.prod([(x - a[k]) / (a[j] - a[k]) for k in range(len(a)) if k != j]) for j in range(len(a))]
                    for x in b])
    local = jnp.einsum('ij,ej->ei', np.kron(lag, lag), u[np.asarray(source_mesh.elements)])
    return jnp.zeros(self.num_nodes).at[np.asarray(self.mesh.elements)].set(local)


def part_evaluation(mon):
  train = _train()
  import jax
  import jax.numpy as jnp
  from swirl_fem.common import premesh_commons
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  for c in mon.cases('evaluation', 5, 100):
    with c:
      r = c.rng
      # wavenumbers of a coarse grid leave some bins of the spectrum empty, whose logarithms are not finite
      cfg = _config(r, n=int(r.integers(4, 6)), order=int(r.integers(4, 6)))
      n, order, steps, b = cfg.element_grid_size, cfg.order, cfg.eval_num_steps, int(r.integers(1, 3))
      kl = float(r.choice([0., .1, 2.]))
      c.describe(kl=kl, batch=b, **vars(cfg))
      sem = _Accurate(_sem(cfg))
      uniform = _Uniform(refine_premesh(
          premesh_commons.unit_cube_mesh(n, periodic_dims=(0, 1)),
          gridpoints_1d=Nodes1D.create(num_points=order + 1, node_type=NodeType.NEWTON_COTES)).finalize())
      perm = train.transfer_perm(uniform, premesh_commons.unit_cube_mesh(n * order).finalize())
      u, p = map(jnp.asarray, _snapshots(r, sem, b, cfg.time_order + steps + 1))
      u = u + 1e-3 * jnp.asarray(_repeat(r, sem, u))
      model = _closure()
      rng = jax.random.PRNGKey(int(r.integers(2 ** 31)))
      params = model.init({'params': jax.random.PRNGKey(1)},
                          jnp.ones((1, cfg.num_elements, cfg.num_channels), jnp.float32), rng)['params']
      run = jax.jit(lambda params: train.compute_mse_loss(
          {'u': u, 'p': p}, params, model_apply_fn=model.apply, step_rng=rng, kl_penalty=kl, sem=sem,
          uniform_mesh=uniform, first_order_perm=perm, config=cfg, train=False))
      got, aux = run(params)
      want, waux = _loss(train, cfg, sem, model.apply, params, u, p, rng, kl, False, steps)
      c.close('loss', float(got), float(want), rtol=2e-5)
      c.close('errors of the steps', aux['mse'], waux['mse'], rtol=2e-5)
      for k in ('kl_q0', 'kl_path', 'kl', 'z0_means', 'z1_means', 'z1_stds'):
        c.close('divergences and statistics', aux[k], waux[k], rtol=1e-4, atol=1e-6, msg=k)
      # spectra of the second half of the roll-out
      spectra = []
      coords = np.asarray(uniform.node_coords)
      m = n * order + 1
      index = np.rint(coords * (m - 1)).astype(int)
      for field in (waux['preds'], u[:, cfg.time_order:cfg.time_order + steps]):
        tke = np.zeros((b, m, m))
        for i in range(b):
          for t in range(steps // 2, steps):
            for k in range(2):
              grid = np.zeros((m, m))
              grid[index[:, 0], index[:, 1]] = np.asarray(
                  uniform.interpolate(field[i, t, :, k], source_mesh=sem.velocity.mesh))
              tke[i] += .5 * np.abs(np.fft.fftshift(np.fft.fft2(grid))) ** 2 / (steps - steps // 2)
        spectra.append([np.asarray(train.get_energy_spectrum(jnp.asarray(tke[i]), cfg)[1]) for i in range(b)])
      if min(np.min(s) for s in spectra) < 1e-12 * np.max(spectra):
        c.event('empty_bins_skipped')
      else:
        err = np.mean([((np.log(a) - np.log(w)) ** 2).sum() for a, w in zip(*spectra)])
        c.close('spectral error', float(aux['tke_err']), err, rtol=1e-3, atol=1e-6)
        c.event('spectrum', 2 * b * steps)
      c.event('step', steps * b)
      again, _ = run(params)
      c.equal('deterministic', np.asarray(again), np.asarray(got))


def _repeat(r, sem, u):
  """Noise which repeats across the periodic sides, so that no wavenumber is missing."""
  ids = np.asarray(sem.velocity.mesh.node_indices)
  noise = r.normal(size=u.shape[:2] + (ids.max() + 1, 2))
  return noise[:, :, ids]


class _Stop(Exception):
  pass


class _Writer:
  """Records what a run reports."""

  def __init__(self, log):
    self._log = log

  def write_scalars(self, step, scalars):
    self._log.append((int(step), {k: float(np.asarray(v)) for k, v in scalars.items()}))

  def __getattr__(self, name):
    return lambda *args, **kw: None


def _run_config(r, D):
  """Settings of a whole run, which is a handful of updates long."""
  import ml_collections
  cfg = vars(_config(r, n=int(r.integers(2, 4)), order=2, num_steps=int(r.integers(1, 3)), num_pushforward_steps=0,
                     time_order=2, eval_num_steps=int(r.integers(2, 4)), num_epochs=float(r.choice([2., 3.]))))
  per = int(r.integers(2, 4))
  cfg.update(
      model_name='multiscale_transformer', model=dict(), batch_size=D * int(r.integers(1, 3)), debug=False,
      train_window_size=int(r.integers(2, 9)), train_window_stride=int(r.integers(1, 4)), eval_window_size=3,
      eval_window_stride=1, window_step=1, learning_rate=float(10 ** r.uniform(-2, .5)),
      num_train_steps=int(r.choice([-1, per + 1, per + 2])), steps_per_eval=int(r.integers(1, 3)),
      checkpoint_epochs=float(r.choice([1., 1 / per])), eval_every_epochs=100., log_every_steps=int(r.integers(1, 4)),
      ndim=2, cache=False, weight_decay=.05)
  return ml_collections.FrozenConfigDict(cfg), per


def _run(train, cfg, workdir, model, batches, evaluations, examples, stop=None):
  """One run of the training loop on given batches; `stop` = (number of the checkpoint, after it is written or before)."""
  import tensorflow as tf
  import tensorflow_datasets as tfds
  from unittest import mock
  log, count = [], [0]

  def split(batch_size, train, config):
    for batch in (batches if train else evaluations):
      assert all(len(x) == batch_size for x in batch.values())
      yield {k: tf.constant(x) for k, x in batch.items()}
  real = train.save_checkpoint

  def save(*args, **kw):
    count[0] += 1
    if stop == (count[0], False):
      raise _Stop
    real(*args, **kw)
    if stop == (count[0], True):
      raise _Stop

  class Same:
    """A mesh of the same elements on which nodal values can be evaluated."""

    def __init__(self, premesh):
      self.premesh = premesh

    def finalize(self):
      return _Uniform(self.premesh.finalize())
  refine = train.refine_premesh
  with mock.patch.multiple(
      train, create_model=lambda *a, **kw: model, save_checkpoint=save,
      refine_premesh=lambda *a, **kw: Same(refine(*a, **kw))), mock.patch.object(
          train.metric_writers, 'create_default_writer', lambda *a, **kw: _Writer(log)), mock.patch.object(
              train.periodic_actions, 'Profile', lambda **kw: (lambda step: None)), mock.patch.object(
                  train.input_pipeline, 'create_split', split), mock.patch.dict(
                      train.input_pipeline.NUM_SPLIT_EXAMPLES, {tfds.Split.TRAIN: examples}):
    try:
      state = train.train_and_evaluate(cfg, workdir)
    except _Stop:
      state = None
  return state, log


def _batches(r, sem, cfg, count, same=False):
  out = []
  for i in range(count):
    if i and same:
      out.append(out[0])
    else:
      u, p = _snapshots(r, sem, cfg.batch_size, cfg.time_order + max(cfg.num_steps, cfg.eval_num_steps))
      out.append({'u': u + 1e-3 * _repeat(r, sem, u), 'p': p, 't': np.zeros(u.shape[:2])})
  return out


def _saved(workdir):
  import os
  return sorted(int(f.split('_')[-1]) for f in os.listdir(workdir) if f.split('_')[-1].isdigit())


def part_runs(mon):
  """A run performs the updates of its schedule and reports their averages."""
  train = _train()
  import functools
  import jax
  import jax.numpy as jnp
  from flax import jax_utils
  D = jax.local_device_count()
  for c in mon.cases('run', 3, 30):
    with c:
      r = c.rng
      cfg, per = _run_config(r, D)
      evaluate = c.index % 3 == 0
      every = int(r.integers(1, 3))
      if evaluate:
        cfg = cfg.copy_and_resolve_references() if not hasattr(cfg, 'as_configdict') else cfg.as_configdict()
        cfg.update(eval_every_epochs=(every + .5) / per, element_grid_size=4, num_elements=16, num_nodes=81)
        import ml_collections
        cfg = ml_collections.FrozenConfigDict(cfg)
      # the number of windows is just enough for `per` batches, or almost enough for another
      windows = per * cfg.batch_size + int(r.integers(0, cfg.batch_size))
      examples = cfg.train_window_size + (windows - 1) * cfg.train_window_stride + int(
          r.integers(0, cfg.train_window_stride))
      steps = cfg.num_train_steps if cfg.num_train_steps > 0 else int(per * cfg.num_epochs)
      c.describe(steps=steps, per=per, evaluate=evaluate, examples=examples, every=every,
                 **{k: v for k, v in cfg.items() if k != 'model'})
      sem = _sem(cfg)
      model = _closure(noisy=False)
      data = _batches(r, sem, cfg, steps + 1)
      tests = _batches(r, sem, cfg, cfg.steps_per_eval * (steps // every)) if evaluate else []
      with tempfile.TemporaryDirectory() as d:
        state, log = _run(train, cfg, d, model, data, tests, examples)
        saved = _saved(d)
        blank = jax.tree.map(lambda x: np.zeros_like(x[0]), state)
        last = train.restore_checkpoint(blank, d)
      gap = int(per * cfg.checkpoint_epochs)
      c.equal('checkpoints', np.array(saved), np.array(sorted({*range(gap, steps + 1, gap), steps})))
      c.equal('number of updates', np.asarray(state.step), np.full(D, steps))
      for x, y in zip(jax.tree.leaves(last), jax.tree.leaves(state)):
        c.equal('last state is saved', np.asarray(x), np.asarray(y)[0])
      # the same updates, one after the other
      base = cfg.learning_rate * cfg.batch_size / 256
      lr, pen = train.create_learning_rate_fn(cfg, base, per), train.create_kl_penalty_fn(cfg, per)
      step = jax.pmap(functools.partial(train.train_step, sem=sem, config=cfg, learning_rate_fn=lr, kl_penalty_fn=pen),
                      axis_name='batch')
      one = train.create_train_state(jax.random.PRNGKey(0), model, lr, None, cfg)
      rep, keys = jax_utils.replicate(one), jax.random.split(jax.random.PRNGKey(int(r.integers(2 ** 31))), D)
      shard = lambda b: {k: jnp.asarray(x.reshape((D, -1) + x.shape[1:])) for k, x in b.items()}
      reports, pending, states = [], [], {}
      for t in range(steps):
        rep, m = step(rep, shard(data[t]), train_rng=keys)
        pending.append({k: np.asarray(x).mean() for k, x in m.items()})
        states[t + 1] = rep
        if (t + 1) % cfg.log_every_steps == 0:
          reports.append((t + 1, {f'train_{k}': np.mean([x[k] for x in pending]) for k in pending[0]}))
          pending = []
        c.event('update', D)
      for k, x in rep.params.items():
        c.close('parameters', np.asarray(state.params[k]), np.asarray(x), rtol=1e-5, atol=1e-7, msg=k)
      got = [(s, {k: v for k, v in m.items() if k != 'steps_per_second'}) for s, m in log
             if any(k.startswith('train_') for k in m)]
      c.equal('reported steps', np.array([s for s, _ in got]), np.array([s for s, _ in reports]))
      for (s, m), (_, w) in zip(got, reports):
        c.check('reported quantities', set(m) == set(w), f'{sorted(m)}')
        for k in w:
          c.close('report', m.get(k, np.nan), w[k], rtol=2e-3, atol=1e-6, msg=f'{k} at {s}')
      if evaluate:
        from swirl_fem.common import premesh_commons
        from swirl_fem.core.interpolation import Nodes1D, NodeType
        from swirl_fem.core.mesh_refiner import refine_premesh
        n, order = cfg.element_grid_size, cfg.order
        uniform = _Uniform(refine_premesh(
            premesh_commons.unit_cube_mesh(n, periodic_dims=(0, 1)),
            gridpoints_1d=Nodes1D.create(num_points=order + 1, node_type=NodeType.NEWTON_COTES)).finalize())
        perm = train.transfer_perm(uniform, premesh_commons.unit_cube_mesh(n * order).finalize())
        run = jax.jit(lambda params, u, p, kl: train.compute_mse_loss(
            {'u': u, 'p': p}, params, model_apply_fn=model.apply, step_rng=keys[0], kl_penalty=kl, sem=sem,
            uniform_mesh=uniform, first_order_perm=perm, config=cfg, train=False))
        got = [(s, m) for s, m in log if any(k.startswith('eval_') for k in m)]
        c.equal('evaluated steps', np.array([s for s, _ in got]), np.arange(every, steps + 1, every))
        tests = iter(tests)
        for s, m in got:
          want = []
          for _ in range(cfg.steps_per_eval):
            b = shard(next(tests))
            for i in range(D):
              params = {k: x[i] for k, x in states[s].params.items()}
              loss, aux = run(params, b['u'][i], b['p'][i], float(pen(s)))
              want.append(dict(loss=float(loss), mse=float(aux['mse'].mean()), **{
                  'mse@8': float(aux['mse'][:8][-1])}, tke_err=float(aux['tke_err']),
                               kl=float(aux['kl'])))
          for k in want[0]:
            if np.isfinite([w[k] for w in want]).all():
              c.close('evaluation', m[f'eval_{k}'], np.mean([w[k] for w in want]), rtol=2e-3, atol=1e-5, msg=f'{k} at {s}')
              c.event('evaluation')
      c.event('run')


def part_restarts(mon):
  """A run that is stopped and started again ends where it would have."""
  train = _train()
  import jax
  D = jax.local_device_count()
  for c in mon.cases('restart', 3, 30):
    with c:
      r = c.rng
      cfg, per = _run_config(r, D)
      steps = cfg.num_train_steps if cfg.num_train_steps > 0 else int(per * cfg.num_epochs)
      gap = int(per * cfg.checkpoint_epochs)
      count = len({*range(gap, steps + 1, gap), steps})
      stops = [(int(r.integers(1, count + 1)), bool(r.integers(2))) for _ in range(1 if mon.quick else 2)]
      c.describe(steps=steps, stops=stops, **{k: v for k, v in cfg.items() if k != 'model'})
      sem = _sem(cfg)
      model = _closure()
      data = _batches(r, sem, cfg, steps + 2, same=True)
      args = (model, data, [], cfg.train_window_size + (per * cfg.batch_size - 1) * cfg.train_window_stride)
      with tempfile.TemporaryDirectory() as d:
        want, _ = _run(train, cfg, d, *args)
        c.equal('number of updates', np.asarray(want.step), np.full(D, steps))
        marks = _saved(d)
        noop, log = _run(train, cfg, d, *args)
        c.equal('a finished run is not continued', np.asarray(noop.step), np.asarray(want.step))
        for x, y in zip(jax.tree.leaves(noop), jax.tree.leaves(want)):
          c.equal('a finished run is not changed', np.asarray(x), np.asarray(y))
      with tempfile.TemporaryDirectory() as d:
        for stop in stops:
          state, _ = _run(train, cfg, d, *args, stop=stop)
          c.event('stop' if state is None else 'finish')
        c.check('checkpoints of the stopped run', set(_saved(d)) <= set(marks), f'{_saved(d)} of {marks}')
        state, _ = _run(train, cfg, d, *args)
        c.equal('all checkpoints', np.array(_saved(d)), np.array(marks))
      c.equal('number of updates', np.asarray(state.step), np.full(D, steps))
      for k, x in want.params.items():
        c.close('same parameters', np.asarray(state.params[k]), np.asarray(x), rtol=1e-5, atol=1e-7, msg=k)
      if D > 1:
        bad = cfg.as_configdict()
        bad.batch_size = D + 1
        c.raises('indivisible batch', ValueError, lambda: _run(train, type(cfg)(bad), d, *args))
      c.event('restart')

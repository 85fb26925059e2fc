"""C30: helpers of the training loop against their definitions."""

import itertools
import math
import types

import numpy as np

from swirlmon import gen

PARTS = [dict(name='transfer'), dict(name='ordering'), dict(name='spectrum'), dict(name='schedules'),
         dict(name='metrics', devices=4), dict(name='model')]
RULE = ('A case is a pair of meshes, a block size, a field of energies, a configuration of a schedule, or the losses '
        'of several devices. Non-trivial when a definition written out in numpy judged the whole output.')
ASSUMPTIONS = ['Transfers are between meshes with the same nodes.',
               'Shift factors of the element ordering are the sizes of the blocks of the level below.',
               'Epoch counts of transitions are positive.']


def _train():
  from absl import flags
  from swirl_fem.niles import train
  if not flags.FLAGS.is_parsed():
    flags.FLAGS(['check'])
  return train


def part_transfer(mon):
  train = _train()
  from swirl_fem.common import premesh_commons
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  for c in mon.cases('relabelled', 40, 3000):
    with c:
      r = c.rng
      ndim = int(r.integers(2, 4))
      raw = gen.random_mesh(r, ndim, size=str(r.choice(['tiny', 'small', 'medium'])), geometry='affine')
      other, _, _ = gen.scramble(r, raw, permute=True)
      c.describe(ndim=ndim, nodes=len(raw.nodes))
      source = gen.to_premesh(raw).finalize()
      target = gen.to_premesh(other).finalize()
      perm = np.asarray(train.transfer_perm(source, target))
      sc, tc = np.asarray(source.node_coords), np.asarray(target.node_coords)
      c.check('permutation', sorted(perm.tolist()) == list(range(len(sc))), 'not a permutation of the nodes')
      c.close('coordinates', sc[perm], tc, atol=1e-9)
      values = r.normal(size=(len(sc), 2))
      at = {tuple(np.round(x, 7)): v for x, v in zip(sc, values)}
      want = np.array([at.get(tuple(np.round(x, 7)), [np.nan] * 2) for x in tc])
      if np.isfinite(want).all():
        c.equal('values', values[perm], want)
      c.event('node', len(sc))
  for c in mon.cases('uniform', 8, 200):
    with c:
      r = c.rng
      n, order, ndim = int(r.integers(2, 6)), int(r.integers(1, 5)), 2
      c.describe(n=n, order=order)
      uniform = refine_premesh(
          premesh_commons.unit_cube_mesh(n, ndim=ndim, periodic_dims=(0, 1)),
          gridpoints_1d=Nodes1D.create(num_points=order + 1, node_type=NodeType.NEWTON_COTES)).finalize()
      first = premesh_commons.unit_cube_mesh(n * order, ndim=ndim).finalize()
      perm = np.asarray(train.transfer_perm(uniform, first))
      m = n * order + 1
      c.check('permutation', sorted(perm.tolist()) == list(range(m ** 2)), 'not a permutation of the nodes')
      c.close('coordinates', np.asarray(uniform.node_coords)[perm], np.asarray(first.node_coords), atol=1e-9)
      c.event('node', m ** 2)


def part_ordering(mon):
  train = _train()
  for c in mon.cases('blocks', 60, 3000):
    with c:
      r = c.rng
      levels = int(r.integers(1, 4))
      patches = tuple(int(k) for k in r.integers(2, 5 if levels < 3 else 4, levels))
      base = int(r.integers(1, 4))
      factors, f = [], base
      for p in patches:
        factors.append(f)
        f *= p
      size = f
      if c.index == 0:
        size, patches, factors, base = 12, (2, 3), [2, 4], 2
      c.describe(size=size, patches=patches, factors=factors)
      if c.index == 0:
        perm = np.asarray(train.make_multiscale_perm())
      else:
        perm = np.asarray(train.make_multiscale_perm(size, patches, tuple(factors)))
      c.check('permutation', sorted(perm.tolist()) == list(range(size ** 2)), 'not a permutation of the elements')
      ij = np.stack(np.divmod(perm, size), -1)
      for width in factors + [size]:
        blocks = ij.reshape(-1, width ** 2, 2)
        low, high = blocks.min(1), blocks.max(1)
        c.check(f'blocks', bool((high - low == width - 1).all() and (low % width == 0).all()),
                f'{width ** 2} consecutive elements are not a square block')
      # elements are ordered within the smallest blocks, and blocks within larger ones, row by row
      inner = ij.reshape(-1, base ** 2, 2)
      want = np.array(list(itertools.product(range(base), repeat=2)))
      c.equal('within blocks', inner - inner[:, :1], np.broadcast_to(want, inner.shape))
      w = base
      for p in patches:
        corner = ij[::w ** 2].reshape(-1, p ** 2, 2)
        want = np.array(list(itertools.product(range(p), repeat=2))) * w
        c.equal('order of blocks', corner - corner[:, :1], np.broadcast_to(want, corner.shape))
        w *= p
      c.equal('inverse', perm[np.argsort(perm)], np.arange(size ** 2))
      c.event('element', size ** 2)


def part_spectrum(mon):
  train = _train()
  import jax.numpy as jnp
  for c in mon.cases('energies', 40, 2000):
    with c:
      r = c.rng
      n = int(r.integers(3, 60))
      mode = r.choice(['random', 'single', 'field'])
      c.describe(n=n, mode=mode)
      freq = [k if k < (n + 1) // 2 else k - n for k in range(n)]
      freq = sorted(freq)  # the zero frequency sits in the middle
      if mode == 'random':
        tke = 10. ** r.uniform(-6, 4, (n, n))
      elif mode == 'single':
        tke = np.zeros((n, n))
        tke[tuple(r.integers(n, size=2))] = 3.5
      else:
        x = np.stack(np.meshgrid(*[np.arange(n) / n] * 2, indexing='ij'), -1)
        u = np.zeros((n, n, 2))
        for _ in range(4):
          k = r.integers(-(n // 2), n // 2 + 1, 2)
          u += r.normal(size=2) * np.cos(2 * np.pi * (x @ k) + r.uniform(0, 6))[..., None]
        tke = sum(.5 * np.abs(np.fft.fftshift(np.fft.fftn(u[..., i]))) ** 2 for i in range(2))
      top = max(math.hypot(a, b) for a in freq for b in freq)
      low, high = np.zeros(18), np.zeros(18)
      for i, a in enumerate(freq):
        for j, b in enumerate(freq):
          pos = math.hypot(a, b) / top * 19
          # a mode on an edge of bins up to rounding may be counted on either side
          if abs(pos - round(pos)) < 1e-9 and pos > 1e-9:
            sides = [round(pos) - 1, round(pos)]
          else:
            sides = [int(pos)]
          for s in sides:
            if s < 18:
              high[s] += tke[i, j]
          if len(sides) == 1 and sides[0] < 18:
            low[sides[0]] += tke[i, j]
      bins, spectrum = train.get_energy_spectrum(jnp.asarray(tke), types.SimpleNamespace(num_nodes=n * n))
      bins, spectrum = np.asarray(bins), np.asarray(spectrum)
      c.close('wavenumbers', bins, top * np.arange(1, 19) / 19, rtol=1e-12)
      slack = 1e-12 * tke.sum()
      c.check('binning', spectrum.shape == (18,) and
              bool((spectrum >= low - slack).all() and (spectrum <= high + slack).all()),
              lambda: f'spectrum {spectrum.tolist()} outside {low.tolist()} .. {high.tolist()}')
      c.event('mode', n * n)


def part_schedules(mon):
  train = _train()
  for c in mon.cases('schedules', 60, 3000):
    with c:
      r = c.rng
      per = int(r.integers(1, 40))
      warm = float(r.choice([0., .5, 1., 2., 3., 7.])) if r.random() < .7 else int(r.integers(0, 6))
      epochs = float(r.choice([.5, 1., 2., 5., 15.]))
      base = float(10 ** r.uniform(-5, 1))
      zero = float(r.choice([0, 1., 2.5, 4]))
      trans = float(r.choice([.5, 1., 3., 10.]))
      if int(trans * per) < 1:
        trans = 1.
      kl = float(10 ** r.uniform(-4, 1))
      cfg = types.SimpleNamespace(warmup_epochs=warm, num_epochs=epochs, kl_penalty=kl, kl_zero_epochs=zero,
                                  kl_transition_epochs=trans)
      c.describe(steps_per_epoch=per, warmup=warm, epochs=epochs, base=base, zero=zero, transition=trans, kl=kl)
      lr = train.create_learning_rate_fn(cfg, base, per)
      ud = train.create_updown_learning_rate_fn(cfg, base, per)
      pen = train.create_kl_penalty_fn(cfg, per)
      w = warm * per
      total = max(epochs - warm, 1) * per

      def want_lr(t):
        if t < w:
          return base * t / w
        return base * .5 * (1 + math.cos(math.pi * min((t - w) / total, 1)))

      def want_ud(t):
        if w == 0:
          return None
        if t < w:
          return base * t / w
        return base * max(1 - (t - w) / w, 0)

      def want_pen(t):
        z = zero * per
        return 0. if t < z else kl * min((t - z) / (trans * per), 1)

      last = int(w + total + max(w, (zero + trans) * per)) + 5
      ticks = sorted({0, 1, 2, int(w) - 1, int(w), int(w) + 1, int(2 * w), int(2 * w) + 1, int(w + total),
                      int(zero * per), int(zero * per) + 1, int((zero + trans) * per), last, 3 * last}
                     | set(int(k) for k in r.integers(0, last, 6)))
      for t in ticks:
        if t < 0:
          continue
        c.close('learning rate', float(lr(t)), want_lr(t), atol=2e-5 * base, msg=f'step {t}')
        if want_ud(t) is not None:
          c.close('up down rate', float(ud(t)), want_ud(t), atol=2e-5 * base, msg=f'step {t}')
        c.close('penalty', float(pen(t)), want_pen(t), atol=2e-5 * kl, msg=f'step {t}')
        c.event('step')
      # continuity: no jump larger than the steepest slope (of the sampled real steps)
      if w >= 1:
        slope = base * max(1 / w, math.pi / total)
        vals = [float(lr(t)) for t in range(max(0, int(w) - 2), int(w) + 3)]
        c.check('continuous', max(abs(np.diff(vals))) <= 1.01 * slope + 1e-12, 'the learning rate jumps')


def part_metrics(mon):
  train = _train()
  import jax
  import jax.numpy as jnp
  import os
  os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
  import tensorflow as tf
  D = jax.local_device_count()
  names = ['kl_q0', 'kl_path', 'kl', 'z0_means', 'z1_means', 'z1_stds']
  fns = {t: jax.pmap(lambda loss, aux, t=t: train.compute_metrics(loss, aux, t), axis_name='batch')
         for t in (True, False)}
  for c in mon.cases('means', 25, 1500):
    with c:
      r = c.rng
      training = bool(r.random() < .5)
      n = int(r.integers(1, 20)) if training else int(r.integers(128, 140))
      c.describe(train=training, steps=n)
      loss = r.normal(size=D)
      aux = {k: r.normal(size=D) for k in names}
      aux['mse'] = r.normal(size=(D, n))
      aux['tke_err'] = r.normal(size=D)
      got = {k: np.asarray(v) for k, v in fns[training](jnp.asarray(loss), jax.tree.map(jnp.asarray, aux)).items()}
      want = {k: aux[k].mean() for k in names}
      want['loss'] = loss.mean()
      want['mse'] = aux['mse'].mean()
      if not training:
        want['tke_err'] = aux['tke_err'].mean()
        want['mse@1to8'] = aux['mse'][:, :8].mean()
        for k in (8, 16, 32, 64, 128):
          want[f'mse@{k}'] = aux['mse'][:, k - 1].mean()
      c.check('names', set(got) == set(want), f'metrics {sorted(got)} instead of {sorted(want)}')
      for k in want:
        c.close('mean over devices', got.get(k), np.full(D, want[k]), atol=1e-12, msg=k)
        c.event('metric')
  for c in mon.cases('device batches', 15, 600):
    with c:
      r = c.rng
      b = D * int(r.integers(1, 5))
      xs = {'u': r.normal(size=(b, int(r.integers(1, 4)), 3)), 't': r.integers(0, 100, (b,)),
            'p': r.normal(size=(b, 2)).astype(np.float32)}
      c.describe(batch=b)
      got = train.prepare_tf_data(jax.tree.map(tf.constant, xs))
      for k, x in xs.items():
        g = np.asarray(got[k])
        c.check('shape', g.shape == (D, b // D) + x.shape[1:] and g.dtype == x.dtype, f'{k}: {g.shape} {g.dtype}')
        for i in range(b):
          c.equal('row', g[i // (b // D), i % (b // D)], x[i], msg=f'{k}[{i}]')
        c.event('row', b)
  for c in mon.cases('replica means', 5, 100):
    with c:
      x = c.rng.normal(size=(D, 3))
      got = np.asarray(train.cross_replica_mean(jnp.asarray(x)))
      c.close('mean', got, np.tile(x.mean(0), (D, 1)), atol=1e-12)


def part_model(mon):
  train = _train()
  from swirl_fem.niles import transformer
  from swirl_fem.niles.config import niles
  fields = ['num_layers', 'num_heads', 'depth', 'width', 'use_residuals', 'freeze_encoder', 'mean_after_decoder',
            'processor_config', 'num_initial_heads', 'pooling_layers', 'pooling_kernel', 'pooling_strides_q',
            'initial_kv_pooling_strides', 'qkv_tile_reps']
  for c in mon.cases('passed on', 25, 500):
    with c:
      r = c.rng
      cfg = {f: f'{f} {r.integers(10 ** 6)}' for f in fields}
      model = train.create_model('multiscale_transformer', types.SimpleNamespace(**cfg))
      c.check('kind', type(model) is transformer.Model, 'wrong kind of model')
      for f in fields:
        c.equal('field', getattr(model, f), cfg[f], msg=f)
      for name in ('', 'transformer', 'multiscale_transformer2', f'x{r.integers(100)}'):
        c.raises('unknown', ValueError, lambda name=name: train.create_model(name, types.SimpleNamespace(**cfg)))
      c.event('field', len(fields))
  for c in mon.cases('configuration', 1, 1):
    with c:
      cfg = niles.get_config()
      c.equal('elements', cfg.num_elements, cfg.element_grid_size ** 2)
      c.equal('channels', cfg.num_channels, cfg.ndim * (cfg.order + 1) ** 2)
      c.equal('nodes', cfg.num_nodes, (cfg.element_grid_size * cfg.order + 1) ** 2)
      c.check('windows', cfg.train_window_size >= (cfg.time_order + cfg.num_steps) * cfg.window_step
              and cfg.eval_window_size >= (cfg.time_order + cfg.eval_num_steps) * cfg.window_step,
              'windows shorter than the rollout')

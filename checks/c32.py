"""C32: files written by the data generation, replayed as event logs against independent stepping."""

import os
import tempfile
from unittest import mock

import numpy as np

from swirlmon import gen

PARTS = [dict(name=f'cycles{i}', fn='cycles', budget={'quick': 35.}) for i in range(3)] + [
    dict(name='simulation', budget={'quick': 35.}), dict(name='spacing')]
RULE = ('A case is an initial history and a division of a simulation into cycles, with random constants. '
        'Non-trivial when files of at least two divisions of the same steps were replayed.')
ASSUMPTIONS = ['Grid, order, step size, time order and physical constants are those of the module during a run.',
               'Cycles end on recorded steps where their files are compared to those of a longer cycle.']


def _setup(r, directory):
  from absl import flags
  from swirl_fem.niles.datagen import datagen as d
  if not flags.FLAGS.is_parsed():
    flags.FLAGS(['check', '--workdir', directory])
  flags.FLAGS.workdir = directory
  d.RESOLUTION = int(r.integers(2, 4))
  d.ORDER = int(r.integers(3, 5))
  d.DT = float(r.choice([1e-3, 4e-3, 2.5e-3]))
  d.TIME_ORDER = int(r.integers(2, 4))
  d.REYNOLDS_NUMBER = float(r.choice([50., 1e3, 2e4]))
  d.DRAG_COEFF = float(r.choice([0., .04, .8]))
  return d


class _Accurate:
  """A flow solver that is always asked for accurate solutions, so that trajectories can be compared closely."""

  def __init__(self, sem):
    self._sem = sem

  def __getattr__(self, name):
    return getattr(self._sem, name)

  def stokes_one_step(self, *args, **kw):
    kw.update(tol=1e-9, atol=1e-9)
    return self._sem.stokes_one_step(*args, **kw)


def _sem(d):
  from swirl_fem.common import premesh_commons
  from swirl_fem.navier_stokes import navier_stokes
  return _Accurate(navier_stokes.StokesSEM.create(
      premesh_commons.unit_cube_mesh(d.RESOLUTION, ndim=2, periodic_dims=(0, 1)), boundary_conditions={},
      order=d.ORDER))


def _stepper(d, sem):
  """One step written out from the description of the scheme."""
  import jax
  import jax.numpy as jnp
  x = np.asarray(sem.velocity.mesh.node_coords)
  coeffs = {2: [-1., 2.], 3: [1., -3., 3.]}[d.TIME_ORDER]

  def step(us, ps):
    conv = 0.
    for a, u in zip(coeffs, us[-len(coeffs):]):
      conv = conv + a * sem.C(u)
    force = jnp.stack([jnp.sin(8 * np.pi * x[:, 1]), jnp.zeros(len(x))], -1) - d.DRAG_COEFF * us[-1]
    u, p, _ = sem.stokes_one_step(us, ps, sem.B(force) - conv, mu=1 / d.REYNOLDS_NUMBER, dt=d.DT,
                                  time_order=d.TIME_ORDER, tol=1e-9, atol=1e-9)
    return us[1:] + (u,), ps[1:] + (p,)
  return jax.jit(step)


def _read(c, path):
  import h5py
  with h5py.File(path) as f:
    c.check('datasets', set(f) == {'u', 'p', 't'}, f'{sorted(f)}')
    return {k: f[k][()] for k in f}


def _judge(c, d, directory, start, steps, history, files):
  """Compares the file of a cycle with the simulated history (index 0 is the state at step 0)."""
  name = f'kolmogorov_flow_grid_{d.RESOLUTION}_order_{d.ORDER}_step_{start}_{start + steps}.hdf5'
  files.append(name)
  path = os.path.join(directory, name)
  c.check('file', os.path.exists(path), f'{name} missing, found {sorted(os.listdir(directory))}')
  data = _read(c, path)
  taken = list(range(0, steps + 1, 10))
  c.close('times', data['t'], [(start + k) * d.DT for k in taken], rtol=1e-9, atol=1e-12)
  for i, k in enumerate(taken):
    u, p = history[start + k]
    c.close('velocity snapshots', data['u'][i], u, rtol=1e-5, scale=abs(u).max(), msg=f'step {start + k}')
    c.close('pressure snapshots', data['p'][i], p, rtol=1e-5, scale=max(abs(p).max(), 1e-1), msg=f'step {start + k}')
  c.check('number of snapshots', len(data['u']) == len(data['p']) == len(data['t']) == len(taken),
          f"{len(data['u'])} velocities, {len(data['p'])} pressures, {len(data['t'])} times for {steps} steps")
  c.event('snapshot', len(taken))
  c.event('file')
  return data


def part_cycles(mon):
  import jax.numpy as jnp
  for c in mon.cases('divisions', 2, 40, minimum=1):
    with c, tempfile.TemporaryDirectory() as directory:
      r = c.rng
      d = _setup(r, directory)
      sem = _sem(d)
      x = np.asarray(sem.velocity.mesh.node_coords)
      n = sem.pressure.pspace.mesh.num_nodes
      us, ps = [], []
      for _ in range(d.TIME_ORDER):
        k = 2 * np.pi * int(r.integers(1, 3))
        a, b = r.normal(size=2)
        us.append(jnp.asarray(np.stack([a * np.sin(k * x[:, 1]) + b * np.cos(k * x[:, 0]) * np.sin(k * x[:, 1]),
                                        a * np.cos(k * x[:, 0]) - b * np.sin(k * x[:, 0]) * np.cos(k * x[:, 1])], -1)))
        q = np.asarray(sem.pressure.pspace.mesh.node_coords)
        ps.append(jnp.asarray(r.normal() * np.cos(2 * np.pi * q[:, 0])))
      us, ps = tuple(us), tuple(ps)
      start = int(r.choice([5, 8, 37, 113, 1006]))  # whole runs start at zero and go in tens
      first = 10 * int(r.integers(1, 3))
      second = int(r.integers(1, 24))
      c.describe(resolution=d.RESOLUTION, order=d.ORDER, dt=d.DT, time_order=d.TIME_ORDER, start=start,
                 cycles=[first, second])
      step = _stepper(d, sem)
      history, hu, hp = {start: (np.asarray(us[-1]), np.asarray(ps[-1]))}, us, ps
      for k in range(first + second):
        hu, hp = step(hu, hp)
        history[start + k + 1] = (np.asarray(hu[-1]), np.asarray(hp[-1]))
        c.event('reference step')
      files = []
      before = [np.array(v) for v in us + ps]
      # in two cycles
      u1, p1 = d.one_cycle(sem=sem, start_step=start, num_steps=first, us=us, ps=ps)
      one = _judge(c, d, directory, start, first, history, files)
      c.check('history', len(u1) == len(p1) == d.TIME_ORDER, f'{len(u1)} {len(p1)}')
      for i in range(d.TIME_ORDER):
        at = start + first - d.TIME_ORDER + 1 + i
        c.close('returned velocity', u1[i], history[at][0], rtol=1e-5, scale=abs(history[at][0]).max())
        c.close('returned pressure', p1[i], history[at][1], rtol=1e-5, scale=max(abs(history[at][1]).max(), 1e-1))
      u2, p2 = d.one_cycle(sem=sem, start_step=start + first, num_steps=second, us=u1, ps=p1)
      two = _judge(c, d, directory, start + first, second, history, files)
      c.equal('files join', one['u'][-1], two['u'][0])
      c.equal('files join', one['p'][-1], two['p'][0])
      # the same steps in one cycle
      u3, p3 = d.one_cycle(sem=sem, start_step=start, num_steps=first + second, us=us, ps=ps)
      _judge(c, d, directory, start, first + second, history, files)
      for a, b in zip(u2 + p2, u3 + p3):
        c.close('two cycles equal one', a, b, rtol=1e-5, scale=max(abs(np.asarray(b)).max(), 1e-1))
      c.check('files', sorted(os.listdir(directory)) == sorted(set(files)), f'{os.listdir(directory)}')
      for a, b in zip(us + ps, before):
        c.equal('initial history unchanged', np.asarray(a), b)


def part_simulation(mon):
  for c in mon.cases('whole runs', 1, 15, minimum=1):
    with c, tempfile.TemporaryDirectory() as directory:
      r = c.rng
      d = _setup(r, directory)
      d.NUM_CYCLES = int(r.integers(2, 4))
      d.NUM_STEPS_PER_CYCLE = 10 * int(r.integers(1, 3))
      c.describe(resolution=d.RESOLUTION, order=d.ORDER, dt=d.DT, time_order=d.TIME_ORDER, cycles=d.NUM_CYCLES,
                 steps=d.NUM_STEPS_PER_CYCLE)
      import jax.numpy as jnp
      sem = _sem(d)
      x = np.asarray(sem.velocity.mesh.node_coords)
      u = np.stack([np.cos(4 * np.pi * x[:, 0]) * np.sin(4 * np.pi * x[:, 1]),
                    -np.sin(4 * np.pi * x[:, 0]) * np.cos(4 * np.pi * x[:, 1])], -1)
      us = (jnp.asarray(u),) * d.TIME_ORDER
      ps = (jnp.zeros(sem.pressure.pspace.mesh.num_nodes),) * d.TIME_ORDER
      step = _stepper(d, sem)
      history = {0: (u, np.asarray(ps[-1]))}
      for k in range(d.NUM_CYCLES * d.NUM_STEPS_PER_CYCLE):
        us, ps = step(us, ps)
        history[k + 1] = (np.asarray(us[-1]), np.asarray(ps[-1]))
        c.event('reference step')
      cls = d.navier_stokes.StokesSEM
      create = cls.create
      with mock.patch.object(cls, 'create', lambda *a, **k: _Accurate(create(*a, **k))):
        d.run_simulation()
      files = []
      for k in range(d.NUM_CYCLES):
        _judge(c, d, directory, k * d.NUM_STEPS_PER_CYCLE, d.NUM_STEPS_PER_CYCLE, history, files)
      c.check('files', sorted(os.listdir(directory)) == sorted(files), f'{os.listdir(directory)}')


def part_spacing(mon):
  with tempfile.TemporaryDirectory() as directory:
    from absl import flags
    from swirl_fem.niles.datagen import datagen as d
    flags.FLAGS(['check', '--workdir', directory])
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  for c in mon.cases('nearest nodes', 15, 400):
    with c:
      r = c.rng
      ndim, order = int(r.integers(1, 4)), int(r.integers(1, 4))
      raw = gen.random_mesh(r, ndim, size='tiny', geometry=str(r.choice(['affine', 'curved'])))
      mesh = gen.to_premesh(raw)
      if order > 1:
        mesh = refine_premesh(mesh, gridpoints_1d=Nodes1D.create(
            num_points=order + 1, node_type=NodeType.GAUSS_LOBATTO_LEGENDRE))
      mesh = mesh.finalize()
      c.describe(ndim=ndim, order=order)
      x = np.asarray(mesh.element_coords())
      dist = np.linalg.norm(x[:, :, None] - x[:, None], axis=-1)
      dist[:, np.eye(x.shape[1], dtype=bool)] = np.inf
      c.close('minimum distance', float(d.compute_dx(mesh)), dist.min(), rtol=1e-4)
      c.event('element', len(x))

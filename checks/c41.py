"""C41: the same calls in several processes with different histories and hash seeds.

Run as a script (python -m checks.c41 SPEC) it executes one history of jobs.
"""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import zlib

import numpy as np

PARTS = [dict(name='core1', fn='histories', group='core', budget={'quick': 60.}),
         dict(name='core2', fn='histories', group='core', budget={'quick': 60.}),
         dict(name='flow', fn='histories', group='flow', budget={'quick': 60.}),
         dict(name='sde', fn='histories', group='sde', budget={'quick': 60.}),
         dict(name='models', fn='histories', group='models', x64=False, budget={'quick': 60.}),
         dict(name='distributed', fn='histories', group='distributed', devices=4, budget={'quick': 60.}),
         dict(name='cycles', fn='histories', group='cycles', budget={'quick': 60.})]
RULE = ('A case is a set of calls with their inputs, executed in three processes: once each; in reverse order, with '
        'other jobs, failing calls, writes to returned arrays and to the random state of the process in between; '
        'and twice each in random order. The processes hash strings differently. Non-trivial when all results of '
        'all executions were compared.')
ASSUMPTIONS = ['Results are those of one machine and one version of all libraries.']


# --------------------------------------------------------------------- jobs
# Each takes a generator and returns a dict of results. `keep` registers inputs
# which the code under test must leave as they are.

class Inputs:

  def __init__(self):
    self.seen = []

  def __call__(self, x):
    self.seen.append((x, self.state(x)))
    return x

  def state(self, x):
    """Containers with the identity of their entries and the bytes of arrays."""
    if isinstance(x, np.ndarray):
      return x.dtype, x.shape, x.tobytes()
    if isinstance(x, dict):
      return [(k, id(v), self.state(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
      return [(id(v), self.state(v)) for v in x]
    return None

  def changed(self):
    return sum(self.state(x) != before for x, before in self.seen)


def _pm_out(pm, prefix=''):
  out = {prefix + 'points': pm.node_coords, prefix + 'elements': pm.elements}
  for g, f in pm.physical_groups.items():
    out[f'{prefix}group {g}'] = f
  out[prefix + 'group names'] = np.array(sorted(zlib.crc32(g.encode()) for g in pm.physical_groups))
  for name in ('periodic_links', 'partitions'):
    v = getattr(pm, name)
    if v is not None:
      out[prefix + name] = v
  return out


def _mesh_out(m, prefix=''):
  import jax
  out = {}
  for path, leaf in jax.tree_util.tree_leaves_with_path(m):
    out[prefix + jax.tree_util.keystr(path)] = leaf
  return out


def _raw(r, ndim, keep, size='small', periodic=None):
  from checks import c40
  from swirlmon import gen
  raw = c40.random_raw(r, ndim, size, periodic)
  pm = gen.to_premesh(raw)
  x, e, groups = keep([pm.node_coords, pm.elements, dict(pm.physical_groups)])
  links = pm.periodic_links if pm.periodic_links is None else keep(pm.periodic_links)
  return raw, pm.replace(node_coords=x, elements=e, physical_groups=groups, periodic_links=links)


def _nodes1d(r, lo=2, hi=6, kinds=('gauss_lobatto_legendre', 'newton_cotes')):
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  return Nodes1D.create(num_points=int(r.integers(lo, hi)), node_type=NodeType(str(r.choice(kinds))))


def core_interpolation(r, keep):
  from swirl_fem.core.interpolation import BarycentricInterpolator, Nodes1D, NodeType, Quadrature1D
  kinds = ('gauss_legendre', 'gauss_lobatto_legendre', 'newton_cotes')
  ndim = int(r.integers(1, 4))
  g, e = _nodes1d(r, 2, 6, kinds), _nodes1d(r, 2, 6, kinds)
  if r.random() < .3:
    e = Nodes1D.create_single_point(np.array(r.uniform(-1, 1)))
  it = BarycentricInterpolator(ndim=ndim, gridpoints_1d=g, evalpoints_1d=e)
  q = Quadrature1D.create(num_points=int(r.integers(2, 7)), quadrature_type=NodeType(str(r.choice(kinds[:2]))))
  u = keep(r.normal(size=g.num_points ** ndim))
  return dict(grid=g.node_values, eval=e.node_values, matrix=it.interpolation_matrix(),
              gradient=it.interpolation_matrix_grad(), value=it.interpolate(u), slope=it.interpolate_grad(u),
              weights=q.weights, points=q.nodes.node_values, weights_nd=q.weights_nd(ndim),
              equal=np.array([g == e, e == g, g == q.nodes]))


def core_refine(r, keep):
  from swirl_fem.core.mesh_refiner import refine_premesh
  ndim = int(r.integers(1, 4))
  raw, pm = _raw(r, ndim, keep)
  fine = refine_premesh(pm, gridpoints_1d=_nodes1d(r, 2, {1: 7, 2: 6, 3: 4}[ndim]))
  out = dict(_pm_out(pm, 'source '), **_pm_out(fine))
  keep(list(out.values()))
  m = fine.finalize()
  u = keep(r.normal(size=len(fine.node_coords)))
  out.update(_mesh_out(m, 'mesh '), **_mesh_out(pm.finalize(), 'coarse '))
  out.update(gather=m.gather(u), scatter=m.scatter(m.gather(u)), exchange=m.exchange(u))
  return out


def core_partition(r, keep):
  from swirlmon import gen
  from swirl_fem.common.mesh_partitioner import partition
  from swirl_fem.core.mesh_refiner import refine_premesh
  ndim = int(r.integers(1, 4))
  raw, pm = _raw(r, ndim, keep, str(r.choice(['small', 'medium'])), periodic=False)
  parted = partition(pm, int(r.integers(1, min(len(raw.elements), 9) + 1)))
  out = keep(_pm_out(parted, 'parted '))
  if len(np.unique(parted.partitions)) > 1:
    if r.random() < .6:
      parted = refine_premesh(parted, gridpoints_1d=_nodes1d(r, 2, {1: 6, 2: 5, 3: 4}[ndim]))
    out.update(_mesh_out(parted.finalize(axis_name='i'), 'mesh '))
  return out


def core_cube(r, keep):
  from swirl_fem.common import premesh_commons
  ndim = int(r.integers(1, 4))
  n = int(r.integers(2, 4))
  per = tuple(sorted(int(a) for a in r.choice(ndim, int(r.integers(0, ndim + 1)), replace=False)))
  pm = premesh_commons.unit_cube_mesh(n, ndim=ndim, periodic_dims=per)
  out = keep(_pm_out(pm))
  return dict(out, **_mesh_out(pm.finalize(), 'mesh '))


def core_read(r, keep):
  from checks import c10
  from swirlmon import gen
  from swirl_fem.common import mesh_reader
  ndim = int(r.integers(2, 4))
  raw = gen.box(tuple(int(x) for x in r.integers(1, 4, ndim)), (), lengths=r.uniform(.5, 2, ndim))
  raw = gen.scramble(r, raw, 'proper')[0]
  blocks = c10._blocks(r, raw.elements, ndim, 1, int(r.integers(1, 4)))
  bd = raw.groups['boundary'] if 'boundary' in raw.groups else gen.boundary_facets(raw.elements, ndim)
  blocks += c10._blocks(r, np.asarray(bd), ndim - 1, 1, int(r.integers(1, 3)))
  # the same path in every job
  d = os.path.join(os.getcwd(), 'files')
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, 'mesh.msh')
  tags = np.arange(1, len(raw.nodes) + 1)
  getattr(c10.File(raw.nodes, tags, blocks, []), str(r.choice(['write22', 'write41'])))(path, np.random.default_rng(1))
  return _pm_out(mesh_reader.read(path, ndim))


def core_forms(r, keep):
  import jax.numpy as jnp
  from checks import c40
  from swirl_fem.core.fespace import FiniteElementSpace, div, grad
  from swirl_fem.core.interpolation import NodeType, Quadrature1D
  ndim = int(r.integers(1, 4))
  raw, _ = _raw(r, ndim, keep, 'tiny' if ndim == 3 else 'small')
  m = c40.refined(raw, 'gauss_lobatto_legendre', int(r.integers(2, {1: 7, 2: 5, 3: 4}[ndim]))).finalize()
  q = Quadrature1D.create(num_points=int(r.integers(2, 6)),
                          quadrature_type=NodeType(str(r.choice(['gauss_legendre', 'gauss_lobatto_legendre']))))
  fs = FiniteElementSpace.create(m, q)
  u, v = keep(r.normal(size=len(m.node_coords))), keep(r.normal(size=(len(m.node_coords), ndim)))
  uf = fs.scalar_function(m.gather(u))
  vf = fs.vector_function(jnp.stack([m.gather(v[:, k]) for k in range(ndim)], -1))
  sc, ve = fs.scalar_function(None), fs.vector_function(None)
  return dict(volume=fs.integrate(lambda x: jnp.ones(())), energy=fs.integrate(lambda x: uf(x) ** 2),
              flux=fs.integrate(lambda x: div(vf)(x) * uf(x)),
              stiffness=m.scatter(fs.local_covector(lambda t: lambda x: grad(uf)(x) @ grad(t)(x), (sc,))),
              pressure=fs.local_covector(lambda t: lambda x: uf(x) * div(t)(x), (ve,)))


def core_coefficients(r, keep):
  from swirl_fem.navier_stokes import navier_stokes
  return {name: getattr(navier_stokes, name)(int(r.integers(1, 6))) for name in ('extk_coeffs', 'bdfk_coeffs')}


def core_facets(r, keep):
  from swirl_fem.common import facet_util
  ndim, n = int(r.integers(1, 3)), int(r.integers(1, 5))
  m = facet_util.get_orderings_mapping(ndim=ndim, num_points_1d=n)
  keys = sorted(m)
  return dict(keys=np.array(keys), values=np.array([m[k] for k in keys]))


def flow_operators(r, keep):
  import jax
  from swirlmon import flow
  ndim = 2 if r.random() < .8 else 3
  fl = flow.random_flow(_Quiet(r), ndim, maxorder=6 - ndim)
  sem = fl.sem
  u, p = keep(flow.continuous(fl, r)), keep(r.normal(size=fl.P))
  out = dict(B=sem.B(u), Bi=sem.Bi(u), A=sem.A(u), C=sem.C(u), D=sem.D(u), Dt=sem.Dt(p), E=sem.E(p, .1, 2),
             filter=sem.filter(u, alpha=.3), M=sem.pressure.B(p), mass=sem.velocity_mass_diag,
             mask=sem.velocity.interior_mask)
  if fl.ndim == 2:
    out['vorticity'] = sem.vorticity(u)
  return out


def flow_step(r, keep):
  import jax
  from swirlmon import flow
  fl = flow.random_flow(_Quiet(r), 2, maxorder=4)
  us, ps = [flow.continuous(fl, r) for _ in range(2)], [r.normal(size=fl.P) for _ in range(2)]
  force = np.asarray(fl.sem.B(us[-1]) - fl.sem.C(us[-1])).copy()
  ub = (1 - fl.mask)[:, None] * r.normal(size=fl.ndim) * (r.random() < .4)
  us, ps, force, ub = keep([us, ps, force, ub])
  mu, dt, alpha = r.uniform(.01, 1), r.uniform(.01, .1), float(r.choice([0., .05, .4]))
  f = lambda us, ps, force, ub: fl.sem.stokes_one_step(
      us, ps, force, mu=mu, dt=dt, time_order=2, alpha=alpha, tol=1e-6, u_boundary=ub,
      project_out_nullspace=flow.closed(fl))[:2]
  u, p = (jax.jit(f) if r.random() < .3 else f)(us, ps, force, ub)
  return {'solve: velocity': u, 'solve: pressure': p}


def flow_poisson(r, keep):
  from checks import c40
  from swirl_fem.examples.poisson import BCType, solve_poisson
  ndim = int(r.integers(1, 4))
  raw, _ = _raw(r, ndim, keep, periodic=False)
  m = c40.refined(raw, 'gauss_lobatto_legendre', int(r.integers(2, {1: 7, 2: 5, 3: 3}[ndim] + 1))).finalize()
  f = keep(r.normal(size=len(m.node_coords)))
  return {'solve: solution': solve_poisson(m, f, {'boundary': (BCType.DIRICHLET, 0.)}, rtol=1e-10)}


def flow_cg(r, keep):
  from swirl_fem.linalg.cg import cg
  n = int(r.integers(1, 12))
  A = r.normal(size=(n, n))
  A, b = A @ A.T + np.eye(n), keep(r.normal(size=n))
  x, info = cg(lambda v: A @ v, b, keep(r.normal(size=n)), tol=1e-10, maxiter=int(r.choice([3, 200])))[:2]
  return {'solve: x': x}


def flow_training(r, keep):
  """The loss of a closure and its gradient."""
  import jax
  import jax.numpy as jnp
  from checks import c39
  train = c39._train()
  cfg = c39._config(r, n=2, order=2, num_steps=2, num_pushforward_steps=int(r.choice([0, 1])))
  sem = c39._sem(cfg)
  u, p = keep(c39._snapshots(r, sem, 2, cfg.time_order + 2))
  if 39 not in _CACHE:
    _CACHE[39] = c39._closure()
  model = _CACHE[39]
  rng = jax.random.PRNGKey(int(r.integers(2 ** 31)))
  params = model.init({'params': rng}, jnp.ones((1, cfg.num_elements, cfg.num_channels), jnp.float32), rng)['params']

  def loss(params):
    return train.compute_mse_loss(
        {'u': jnp.asarray(u), 'p': jnp.asarray(p), 't': jnp.zeros(u.shape[:2])}, params, model_apply_fn=model.apply,
        step_rng=rng, kl_penalty=.1, sem=sem, uniform_mesh=None, first_order_perm=None, config=cfg, train=True)
  (value, aux), g = jax.jit(jax.value_and_grad(loss, has_aux=True))(params)
  out = {'solve: loss': value, 'solve: errors': aux['mse']}
  return dict(out, **{f'solve: gradient {k}': v for k, v in g.items()})


def sde_integrate(r, keep):
  import jax
  import jax.numpy as jnp
  from swirlmon.systems import System
  from swirl_fem.sde.sdeint import brownian_path, sdeint
  sys_ = System(_Quiet(r), noise=str(r.choice(['scalar', 'vector', 'none'])))
  K = int(r.integers(1, 4))
  n = K * int(r.choice([1, 4, 9]))
  ts = keep(np.linspace(0., float(r.uniform(.3, 1.)), K + 1))
  dw = keep(r.normal(size=(n,) + sys_.m) / np.sqrt(n))
  f = sys_.f(jnp)
  run = lambda p, y: sdeint(f, y, ts, jnp.asarray(dw), p)
  out = run(keep(sys_.params), keep(sys_.y0))
  g = jax.grad(lambda p: sum(jnp.sum(x ** 2) for x in jax.tree.leaves(run(p, sys_.y0))))(sys_.params)
  res = {f'y{i}': x for i, x in enumerate(jax.tree.leaves(out))}
  res.update({f'g{i}': x for i, x in enumerate(jax.tree.leaves(g))})
  return res


def sde_path(r, keep):
  import jax
  from swirl_fem.sde.sdeint import brownian_path
  key = jax.random.PRNGKey(int(r.integers(2 ** 31)))
  n = int(r.choice([1, 7, 64]))
  return dict(path=brownian_path(key, n), paths=jax.vmap(lambda k: brownian_path(k, n))(jax.random.split(key, 3)))


def sde_layer(r, keep):
  import jax
  import jax.numpy as jnp
  from flax import linen as nn
  from swirl_fem.sde.flax_nn_sde import nn_sdeint
  Dense, _ = _modules27()
  dim = int(r.integers(1, 4))
  features, kind = tuple(int(k) for k in r.integers(1, 6, int(r.integers(0, 3)))), int(r.integers(4))

  class Layer(nn.Module):
    @nn.compact
    def __call__(self, x, ts, dw):
      return nn_sdeint(Dense)(features, kind, dim, name='wrapped')(x, ts, dw)
  x, dw = keep(r.normal(size=dim)), keep(r.normal(size=6) / 6 ** .5)
  ts = np.linspace(0, 1., 3)
  out, v = Layer().init_with_output(jax.random.PRNGKey(int(r.integers(2 ** 31))), jnp.asarray(x), jnp.asarray(ts),
                                    jnp.asarray(dw))
  g = jax.grad(lambda v: jnp.sum(Layer().apply(v, jnp.asarray(x), jnp.asarray(ts), jnp.asarray(dw)) ** 2))(v)
  return dict({'out': out}, **{f'v{jax.tree_util.keystr(k)}': a for k, a in jax.tree_util.tree_leaves_with_path(v)},
              **{f'g{jax.tree_util.keystr(k)}': a for k, a in jax.tree_util.tree_leaves_with_path(g)})


_CACHE = {}


def _modules27():
  if 27 not in _CACHE:
    from checks import c27
    _CACHE[27] = c27._modules()
  return _CACHE[27]


def models_transformer(r, keep):
  import types
  import jax
  import jax.numpy as jnp
  from checks import c31
  train = c31._train()
  cfg, stride = c31._configuration(r, int(r.choice([0, 1, 2])))
  L, C, B = stride * int(r.integers(1, 3)), int(r.integers(2, 5)), 2
  model = train.create_model('multiscale_transformer', types.SimpleNamespace(**cfg))
  p0 = train.initialized(jax.random.PRNGKey(int(r.integers(2 ** 31))), L, C, model)
  params = keep(c31._random_params(r, p0, .2))
  x = keep(r.normal(size=(B, L, C)).astype(np.float32))
  y, aux = jax.jit(lambda p, x, k: model.apply({'params': p}, x, k))(
      params, x, jax.random.PRNGKey(int(r.integers(2 ** 31))))
  out = {f'p{jax.tree_util.keystr(k)}': a for k, a in jax.tree_util.tree_leaves_with_path(p0)}
  return dict(out, y=y, **{k: aux[k] for k in aux})


def models_helpers(r, keep):
  from checks import c30
  train = c30._train()
  factor = int(r.choice([1, 2]))
  out = dict(perm=train.make_multiscale_perm(size=12 * factor),
             other=train.make_multiscale_perm(size=12, patch_sizes=(2,), factors=(2,)))
  return out


def models_schedules(r, keep):
  import types
  import jax.numpy as jnp
  from checks import c30
  train = c30._train()
  cfg = types.SimpleNamespace(warmup_epochs=float(r.choice([1., 2.])), num_epochs=float(r.choice([4., 9.])),
                              kl_penalty=float(r.uniform(.1, 1)), kl_zero_epochs=1., kl_transition_epochs=2.)
  per, base = int(r.integers(2, 9)), float(r.uniform(.01, 1))
  ticks = [int(t) for t in r.integers(0, 60, 6)]
  out = {}
  for i, f in enumerate((train.create_learning_rate_fn(cfg, base, per), train.create_updown_learning_rate_fn(
      cfg, base, per), train.create_kl_penalty_fn(cfg, per))):
    out[str(i)] = np.array([float(f(t)) for t in ticks])
  n = int(r.integers(3, 20))
  bins, spectrum = train.get_energy_spectrum(jnp.asarray(keep(r.uniform(0, 1, (n, n)))),
                                             types.SimpleNamespace(num_nodes=n * n))
  return dict(out, bins=bins, spectrum=spectrum)


def models_pipeline(r, keep):
  """Two epochs of a dataset that is replaced in place."""
  import ml_collections
  from checks import c29, c30
  c30._train()
  d = os.path.join(os.getcwd(), 'dataset')
  os.makedirs(d, exist_ok=True)
  pipe = c29._pipeline(d)
  shift = float(r.integers(1, 1000))
  for i in range(28):
    c29._write(os.path.join(d, f'filtered_dns_shard_{i:02}.hdf5'),
               [shift + 100. * i + j for j in range(int(r.integers(4, 8)))], (2,), (), np.float64)
  size = int(r.integers(1, 4))
  it = iter(pipe.create_split(4, bool(r.random() < .5), ml_collections.FrozenConfigDict(dict(
      train_window_size=size, train_window_stride=2, eval_window_size=size, eval_window_stride=1, window_step=1,
      debug=bool(r.random() < .3), cache=bool(r.random() < .5)))).as_numpy_iterator())
  return {f'{i} {k}': v for i in range(4) for k, v in next(it).items()}


def models_files(r, keep):
  """Snapshot files rewritten in place, as by a repeated simulation."""
  import h5py
  from checks import c30
  c30._train()
  from swirl_fem.niles import input_pipeline
  n = int(r.integers(4, 9))
  path = os.path.join(os.getcwd(), 'shard.hdf5')
  with h5py.File(path, 'w') as f:
    for k, shape in (('u', (n, 3, 2)), ('p', (n, 2)), ('t', (n,))):
      f[k] = r.normal(size=shape)
  out = input_pipeline.read_snapshots_file(path)
  windows = input_pipeline._read_and_parse(path, 3, int(r.integers(1, 3)), 1)
  return dict(out, **{'windows ' + k: v for k, v in windows.items()})


def models_transfer(r, keep):
  from checks import c30
  from swirlmon import gen
  train = c30._train()
  raw = gen.random_mesh(r, 2, size=str(r.choice(['tiny', 'small'])), geometry='affine')
  other, _, _ = gen.scramble(r, raw, permute=True)
  return dict(perm=train.transfer_perm(gen.to_premesh(raw).finalize(), gen.to_premesh(other).finalize()))


def distributed_jit(r, keep):
  """Several sharded and static arguments in any order."""
  import jax
  import jax.numpy as jnp
  from checks import c24
  from swirl_fem.communication.jit_distributed import jit_distributed
  P = int(r.integers(1, 5))
  c = _Quiet(r)
  sig = c24.Signature(c, P)
  sig.collective = bool(r.random() < .4)
  mesh = jax.sharding.Mesh(np.array(jax.devices()[:P]), ('i',))
  kw = {'static_argnames': tuple(sig.static_names)} if sig.explicit else {}
  f = jit_distributed(sig.f, mesh, 'i', **kw)
  out = {}
  for k in range(3):
    args, kwargs, values = sig.call(r)
    sharded = {p['name']: values[p['name']] for p in sig.params if not p['static']}
    if sharded and not jax.tree.leaves(sharded):
      continue
    keep(sharded)
    for i, x in enumerate(jax.tree.leaves(f(*args, **kwargs))):
      out[f'call{k} {i}'] = x
  return out


def distributed_scan(r, keep):
  import jax
  import jax.numpy as jnp
  from swirl_fem.communication.jit_distributed import jit_distributed
  from swirl_fem.communication.pscan import preduce, pscan
  P = int(r.integers(1, 5))
  mesh = jax.sharding.Mesh(np.array(jax.devices()[:P]), ('i',))
  op = [jnp.add, jnp.maximum, jnp.multiply][int(r.integers(3))]
  x = keep({'b': r.normal(size=(P, 3)), 'a': r.integers(-9, 9, P), 'z': r.normal(size=(P,))})
  f = jit_distributed(lambda t: (pscan(t, op, axis_name='i'), preduce(t, op, axis_name='i')), mesh, 'i')
  return {str(i): v for i, v in enumerate(jax.tree.leaves(f(x)))}


def distributed_router(r, keep):
  import jax
  import jax.numpy as jnp
  from swirl_fem.communication.crystal_router import crystal_router_setup
  P, m = int(r.integers(1, 5)), int(r.integers(1, 6))
  crystal = crystal_router_setup(jax.sharding.Mesh(np.array(jax.devices()[:P]), ('i',)), 'i')
  n, t = r.integers(0, m + 1, P), r.integers(0, P, (P, m))
  tree = {'x': r.normal(size=(P, m, 2)), 'id': np.arange(P * m).reshape(P, m)}
  n, t, tree = keep([n, t, tree])
  no, out, src = crystal(jnp.asarray(n), jax.tree.map(jnp.asarray, tree), jnp.asarray(t))
  no = np.asarray(no)
  valid = np.arange(out['id'].shape[1]) < no[:, None]
  res = {'n': no, 'source': np.where(valid, np.asarray(src), -1)}
  for k in tree:
    v = np.asarray(out[k])
    res[k] = np.where(valid.reshape(valid.shape + (1,) * (v.ndim - 2)), v, 0)
  return res


def distributed_mesh(r, keep):
  import jax
  import jax.numpy as jnp
  from checks import c40
  from swirlmon import dist
  from swirl_fem.communication.jit_distributed import jit_distributed
  ndim, P = int(r.integers(1, 4)), int(r.integers(2, 5))
  raw = dist.partitioned_raw(r, ndim, P)
  m = c40.refined(raw, 'gauss_lobatto_legendre', int(r.integers(2, {1: 6, 2: 4, 3: 3}[ndim] + 1))).finalize(axis_name='i')
  mesh = jax.sharding.Mesh(np.array(jax.devices()[:P]), ('i',))
  u = keep(np.sin(np.asarray(m.node_coords) @ r.uniform(-1, 1, ndim)))
  f = jit_distributed(lambda m, u: (m.exchange(u), m.scatter(m.gather(u)), m.physical_masks), mesh, 'i')
  res = {str(i): v for i, v in enumerate(jax.tree.leaves(f(m, jnp.asarray(u))))}
  return dict(res, **_mesh_out(m, 'mesh '))


def distributed_train(r, keep):
  """Two updates on two devices."""
  import functools
  import jax
  import jax.numpy as jnp
  from flax import jax_utils
  from checks import c39
  train = c39._train()
  cfg = c39._config(r, n=2, order=2, num_steps=1, num_pushforward_steps=0)
  sem = c39._sem(cfg)
  if 39 not in _CACHE:
    _CACHE[39] = c39._closure()
  lr, pen = train.create_learning_rate_fn(cfg, .01, 3), train.create_kl_penalty_fn(cfg, 3)
  state = train.create_train_state(jax.random.PRNGKey(int(r.integers(2 ** 31))), _CACHE[39], lr, None, cfg)
  devices = jax.local_devices()[:2]
  step = jax.pmap(functools.partial(train.train_step, sem=sem, config=cfg, learning_rate_fn=lr, kl_penalty_fn=pen),
                  axis_name='batch', devices=devices)
  rep = jax_utils.replicate(state, devices)
  rngs = jax.random.split(jax.random.PRNGKey(int(r.integers(2 ** 31))), 2)
  for _ in range(2):
    data = [c39._snapshots(r, sem, 1, cfg.time_order + cfg.num_steps) for _ in range(2)]
    rep, metrics = step(rep, {'u': jnp.stack([d[0] for d in data]), 'p': jnp.stack([d[1] for d in data])},
                        train_rng=rngs)
  out = {f'solve: {k}': v for k, v in rep.params.items()}
  return dict(out, **{f'solve: metric {k}': v for k, v in metrics.items()})


def distributed_scalars(r, keep):
  import jax
  import jax.numpy as jnp
  from checks import c23
  P = int(r.integers(1, 5))
  progs = [c23._program(r, P, 12) for _ in range(2)]
  out = {}

  def f(unused):
    vals = c23._evaluate(progs, 'i')
    out.update({f'global {i} {j}': np.array(v.global_) for i, vs in enumerate(vals) for j, v in enumerate(vs)})
    return [[jnp.asarray(v.local) for v in vs] for vs in vals]
  local = jax.vmap(f, axis_name='i')(jnp.zeros(P))
  return dict(out, **{f'local {i} {j}': v for i, vs in enumerate(local) for j, v in enumerate(vs)})


def cycles_write(r, keep):
  """A simulation cycle into the same directory, and what the file holds."""
  import h5py
  from checks import c32
  d = c32._setup(np.random.default_rng(1), os.path.join(os.getcwd()))
  if 32 not in _CACHE:
    _CACHE[32] = c32._sem(d)
  sem = _CACHE[32]
  us = tuple(r.normal(size=2) * np.stack([np.sin(2 * np.pi * x[:, 1]), np.cos(2 * np.pi * x[:, 0])], -1)
             for x in [np.asarray(sem.velocity.mesh.node_coords)] for _ in range(d.TIME_ORDER))
  ps = tuple(r.normal(size=sem.pressure.pspace.mesh.num_nodes) for _ in us)
  keep([us, ps])
  start, steps = int(r.integers(0, 3)), int(r.choice([1, 10, 12]))
  u, p = d.one_cycle(sem=sem, start_step=start, num_steps=steps, us=us, ps=ps)
  out = {f'solve: u{i}': v for i, v in enumerate(u)}
  out.update({f'solve: p{i}': v for i, v in enumerate(p)})
  name = [n for n in os.listdir('.') if n.endswith(f'_step_{start}_{start + steps}.hdf5')]
  with h5py.File(name[0]) as f:
    out.update({f'solve: file {k}': f[k][()] for k in f})
  return out


class _Quiet:
  """Stands for a case where helpers only describe what they draw."""

  def __init__(self, rng):
    self.rng = rng

  def describe(self, **kw):
    pass

  def event(self, *a, **kw):
    pass


GROUPS = {
    'core': [core_interpolation, core_refine, core_partition, core_cube, core_read, core_forms, core_coefficients,
             core_facets],
    'flow': [flow_operators, flow_step, flow_poisson, flow_cg, flow_training],
    'sde': [sde_integrate, sde_path, sde_layer],
    'models': [models_transformer, models_helpers, models_files, models_transfer, models_schedules,
               models_pipeline],
    'distributed': [distributed_jit, distributed_scan, distributed_router, distributed_mesh, distributed_scalars,
                    distributed_train],
    'cycles': [cycles_write]}


def failing(r):
  """A call which is wrong and fails (or is at least odd)."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.common import premesh_commons
  from swirl_fem.common.mesh_partitioner import partition
  from swirl_fem.communication.jit_distributed import jit_distributed
  from swirl_fem.core.interpolation import BarycentricInterpolator, Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.linalg.cg import cg
  from swirl_fem.navier_stokes.navier_stokes import BCType, StokesSEM
  from swirl_fem.sde.sdeint import sdeint
  cube = lambda: premesh_commons.unit_cube_mesh(2, ndim=2)

  def boom(*a, **k):
    raise RuntimeError('inside the callback')
  calls = [
      lambda: Nodes1D.create(num_points=1, node_type=NodeType.GAUSS_LOBATTO_LEGENDRE),
      lambda: BarycentricInterpolator(2, _nodes1d(r), _nodes1d(r)).interpolate(jnp.ones(3)),
      lambda: refine_premesh(cube(), gridpoints_1d=Nodes1D.create(num_points=3, node_type=NodeType.GAUSS_LEGENDRE)).finalize().exchange(jnp.ones(1)),
      lambda: partition(cube(), 99),
      lambda: StokesSEM.create(cube(), {'nowhere': (BCType.DIRICHLET, 0.)}, order=3),
      lambda: cg(boom, jnp.ones(3)),
      lambda: sdeint(boom, jnp.ones(2), jnp.linspace(0, 1, 3), jnp.ones(4), None),
      lambda: jit_distributed(boom, jax.sharding.Mesh(np.array(jax.devices()[:1]), ('i',)), 'i')(jnp.ones((1, 2))),
      lambda: jit_distributed(lambda x: x, jax.sharding.Mesh(np.array(jax.devices()[:1]), ('i',)), 'i')(jnp.ones((3, 2))),
  ]
  k = int(r.integers(len(calls)))
  try:
    calls[k]()
  except Exception:  # pylint: disable=broad-except
    return True
  return False


def main(spec):
  """Runs one history; writes results and what happened."""
  import jax
  jax.config.update('jax_enable_x64', bool(spec['x64']))
  jobs = {f.__name__: f for f in GROUPS[spec['group']]}
  r = np.random.default_rng(spec['noise'])
  arrays, log = {}, dict(errors={}, changed=[], failing=0, disturbed=0, runs=0, poisoned=0)
  count = {}
  for name, index in spec['order']:
    if spec['hostile']:
      for _ in range(int(r.integers(0, 3))):
        log['failing'] += failing(r)
      np.random.seed(int(r.integers(2 ** 31)))
      random.seed(int(r.integers(2 ** 31)))
      np.random.random(int(r.integers(1, 5)))
      log['disturbed'] += 1
      if r.random() < .1:
        jax.clear_caches()
    keep = Inputs()
    job = f'{name}/{index}'
    run = count[job] = count.get(job, 0) + 1
    try:
      out = jobs[name](np.random.default_rng([spec['seed'], zlib.crc32(name.encode()), index]), keep)
    except Exception as e:  # pylint: disable=broad-except
      log['errors'][f'{job}#{run}'] = f'{type(e).__name__}: {str(e)[:300]}'
      continue
    log['runs'] += 1
    if keep.changed():
      log['changed'].append(job)
    for k, v in out.items():
      a = np.asarray(v)
      if a.dtype == object:
        continue
      arrays[f'{job}#{run}|{k}'] = a.copy()
    # a caller may write to arrays that were returned (results share memory at most with each other)
    for v in out.values():
      if spec['hostile'] and isinstance(v, np.ndarray) and v.flags.writeable and v.size:
        v[...] = 0 if v.dtype.kind in 'biu' else -1e3
        log['poisoned'] += 1
  np.savez(spec['out'], **arrays)
  with open(spec['out'] + '.json', 'w') as f:
    json.dump(log, f)


# ------------------------------------------------------------------ monitor
def part_histories(mon):
  from swirlmon.core import Inconclusive
  group = mon.extra['group']
  names = [f.__name__ for f in GROUPS[group]]
  reps = dict(core=4, flow=2, sde=4, models=3, distributed=4, cycles=3)[group]
  if not mon.quick:
    reps *= 3
  for c in mon.cases('histories', 1, 12, minimum=1):
    with c:
      r = c.rng
      seed = int(r.integers(2 ** 31))
      few = ('distributed_train', 'flow_training', 'models_pipeline', 'flow_operators')
      jobs = [(n, i) for n in names for i in range(reps // 2 if n in few else reps)]
      jobs = [jobs[k] for k in r.permutation(len(jobs))]
      others = [(n, 100 + i) for n in names for i in range(max(1, reps // 2))]
      mixed = jobs[::-1] + others
      mixed = [mixed[k] for k in (r.permutation(len(mixed)) if r.random() < .5 else
                                  np.argsort(np.r_[np.arange(len(jobs)), r.uniform(0, len(jobs), len(others))]))]
      twice = jobs + jobs
      twice = [twice[k] for k in r.permutation(len(twice))]
      histories = [(jobs, False), (mixed, True), (twice, False)]
      c.describe(group=group, jobs=jobs, seed=seed)
      tmp = tempfile.mkdtemp(prefix='c41_')
      try:
        results = _execute(c, mon, tmp, group, seed, histories)
      finally:
        shutil.rmtree(tmp)
      base, blog = results[0]
      for k, (res, log) in enumerate(results):
        c.check('inputs are left as they are', not log['changed'], f'{log["changed"][:5]} in history {k}')
        mine = {e.split('#')[0]: t for e, t in log['errors'].items()}
        first = {e.split('#')[0]: t for e, t in blog['errors'].items()}
        for job in {f'{n}/{i}' for n, i in jobs}:
          a, b = first.get(job), mine.get(job)
          c.check('fails in all histories or in none', (a is None) == (b is None), f'{job} in history {k}: {b or a}')
        for key, v in res.items():
          job, name = key.split('|', 1)
          ref = base.get(job.split('#')[0] + '#1|' + name)
          if ref is None:
            c.check('same results are present', int(job.split('/')[1].split('#')[0]) >= 100 or
                    job.split('#')[0] in mine or job.split('#')[0] in first, key)
            continue
          _same(c, f'{key} in history {k}', v, ref, name.startswith('solve:'))
        for e in ('failing', 'disturbed', 'poisoned', 'runs'):
          c.event(e, log[e])
      have = {k.split('|')[0] for k in base}
      if len(have) < .7 * len(jobs):
        raise Inconclusive(f'only {len(have)} of {len(jobs)} jobs gave results: {list(blog["errors"].items())[:3]}')
      for job in have:
        for k in (1, 2):
          c.check('same results are present', any(x.startswith(job + '|') for x in results[k][0]), job)


def _same(c, what, v, ref, solver):
  if v.dtype != ref.dtype or v.shape != ref.shape:
    c.check('same result', False, f'{what}: {v.dtype}{v.shape} and {ref.dtype}{ref.shape}')
  elif v.dtype.kind not in 'fc':
    c.check('same result', np.array_equal(v, ref), f'{what}: {v.ravel()[:8]} and {ref.ravel()[:8]}')
  else:
    ok = np.isfinite(ref)
    c.check('finite at the same entries', np.array_equal(np.isfinite(v), ok), what)
    if not np.array_equal(np.isfinite(v), ok):
      return
    rtol = 1e-4 if v.dtype.itemsize // (1 + (v.dtype.kind == 'c')) < 8 else (1e-5 if solver else 1e-10)
    scale = np.abs(ref[ok]).max(initial=0.)
    c.close('same result', np.where(ok, v, 0), np.where(ok, ref, 0), rtol=rtol, atol=0., scale=scale, msg=what)


def _execute(c, mon, tmp, group, seed, histories):
  from swirlmon.core import Inconclusive
  procs = []
  for k, (order, hostile) in enumerate(histories):
    d = os.path.join(tmp, str(k))
    os.mkdir(d)
    spec = dict(group=group, seed=seed, order=order, hostile=hostile, noise=int(c.rng.integers(2 ** 31)),
                x64=mon.extra.get('x64', True), out=os.path.join(d, 'out.npz'))
    path = os.path.join(d, 'spec.json')
    with open(path, 'w') as f:
      json.dump(spec, f)
    env = dict(os.environ, PYTHONHASHSEED=str(int(c.rng.integers(1, 2 ** 31))))
    log = open(os.path.join(d, 'log'), 'w')
    procs.append((subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'checks.c41', path], env=env, cwd=d,
                                   stdout=log, stderr=subprocess.STDOUT), spec, log.name))
  out = []
  try:
    for p, spec, log in procs:
      try:
        rc = p.wait(timeout=300 if mon.quick else 900)
      except subprocess.TimeoutExpired:
        raise Inconclusive('a history did not finish') from None
      if rc != 0 or not os.path.exists(spec['out'] + '.json'):
        raise Inconclusive(f'history process ended with {rc}: {open(log).read()[-600:]}')
      with np.load(spec['out']) as z:
        res = {k: z[k] for k in z.files}
      out.append((res, json.load(open(spec['out'] + '.json'))))
  finally:
    for p, _, _ in procs:
      if p.poll() is None:
        p.kill()
        p.wait()
  c.event('processes', len(procs))
  return out


if __name__ == '__main__':
  main(json.load(open(sys.argv[1])))
  sys.stdout.flush()
  os._exit(0)

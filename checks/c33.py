"""C33: runtime sanitizers over the operations of the library.

checkify instruments every gather, scatter and slice of the compiled programs with bounds checks and every
arithmetic operation with NaN checks; numpy runs with floating point traps; arrays are fingerprinted around calls.
"""

import hashlib

import functools

import numpy as np

from swirlmon import gen

PARTS = [dict(name='host'), dict(name='space1', fn='space'), dict(name='space2', fn='space'),
         dict(name='poisson'), dict(name='plane', fn='flow', budget={'quick': 40.}),
         dict(name='solid', fn='flow', budget={'quick': 40.}),
         dict(name='distributed', devices=4), dict(name='leaks', budget={'quick': 40.})]
RULE = ('A case is a mesh and a sequence of operations on it, each executed with the sanitizers on. Non-trivial when '
        'every operation of the sequence ran instrumented and a planted error in the same program was reported.')
ASSUMPTIONS = ['Infinities are looked for in results; NaN and bounds in every intermediate operation.',
               'Host computations may divide by zero where the infinity is then used up.']


def fingerprint(tree):
  import jax
  out = []
  for leaf in jax.tree.leaves(tree):
    a = np.asarray(leaf)
    out.append((a.shape, str(a.dtype), hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest()))
  return out


def premesh_arrays(pm):
  out = dict(x=pm.node_coords, e=pm.elements, l=pm.periodic_links, p=pm.partitions)
  out['groups'] = dict(pm.physical_groups or {})
  out['keys'] = [np.frombuffer(k.encode(), np.uint8) for k in sorted(out['groups'])]
  return {k: v for k, v in out.items() if v is not None}


def _deliberate():
  """Teaches the sanitizer the idioms which drop updates and fill values on purpose.

  An update at the index just past the end (or far beyond it) is dropped by definition, and a gather that asks for a
  fill value gets it. Indices in between, negative ones and all others are errors.
  """
  from jax import lax
  from jax._src import checkify as ck
  import jax.numpy as jnp
  if getattr(ck, '_deliberate', False):
    return
  ck._deliberate = True
  gather = ck.error_checks[lax.gather_p]

  def gather_rule(error, enabled, operand, indices, *, mode, **kw):
    if mode == lax.GatherScatterMode.FILL_OR_DROP:
      enabled = frozenset(enabled) - {ck.OOBError}
    return gather(error, enabled, operand, indices, mode=mode, **kw)
  ck.error_checks[lax.gather_p] = gather_rule

  def scatter_rule(rule, error, enabled, operand, indices, updates, *, mode, dimension_numbers, **kw):
    out_error, out = rule(error, enabled, operand, indices, updates, mode=mode, dimension_numbers=dimension_numbers, **kw)
    if mode != lax.GatherScatterMode.FILL_OR_DROP or ck.OOBError not in enabled:
      return out_error, out
    end = jnp.array([operand.shape[i] for i in dimension_numbers.scatter_dims_to_operand_dims], indices.dtype)
    dropped = (indices == end) | (indices >= jnp.iinfo(indices.dtype).max // 2)
    inside = jnp.where(dropped, 0, indices)
    out_error, _ = rule(error, enabled, operand, inside, updates, mode=mode, dimension_numbers=dimension_numbers, **kw)
    return out_error, out
  for p in (lax.scatter_p, lax.scatter_add_p, lax.scatter_mul_p, lax.scatter_min_p, lax.scatter_max_p):
    ck.error_checks[p] = functools.partial(scatter_rule, ck.error_checks[p])


class Sanitizer:
  """Runs functions instrumented; reports through the case."""

  def __init__(self, c):
    from jax.experimental import checkify
    _deliberate()
    self.c, self.checkify = c, checkify
    self.errors = checkify.index_checks | checkify.nan_checks

  def run(self, name, f, *args, jit=True, finite=True):
    import jax
    g = self.checkify.checkify(f, errors=self.errors)
    before = fingerprint(args)
    err, out = (jax.jit(g) if jit else g)(*args)
    self.c.check('sanitizer', err.get() is None, lambda: f'{name}: {err.get()}')
    if finite:
      bad = [i for i, x in enumerate(jax.tree.leaves(out)) if np.asarray(x).dtype.kind in 'fc'
             and not np.isfinite(np.asarray(x)).all()]
      self.c.check('finite', not bad, f'{name}: output {bad} is not finite')
    self.c.check('inputs unchanged', fingerprint(args) == before, f'{name} changed its inputs')
    self.c.event('instrumented_operation')
    return out

  def control(self):
    """The instrumentation reports planted errors."""
    import jax
    import jax.numpy as jnp
    x = jnp.arange(5.)
    bad = [lambda x: x[jnp.array([1, 7])], lambda x: x.at[jnp.array([9])].add(1.),
           lambda x: jnp.log(x - 3.), lambda x: jax.lax.while_loop(lambda s: s[1] < 2, lambda s: (
               s[0] + x[s[1] + 4], s[1] + 1), (0., 0))[0]]
    for i, f in enumerate(bad):
      err, _ = jax.jit(self.checkify.checkify(f, errors=self.errors))(x)
      if err.get() is None:
        raise RuntimeError(f'the sanitizer is blind to planted error {i}')
      self.c.event('planted_error_reported')


def part_host(mon):
  """Mesh construction with floating point traps and frozen inputs."""
  from swirl_fem.common import premesh_commons
  from swirl_fem.common.mesh_partitioner import partition
  from swirl_fem.core.interpolation import BarycentricInterpolator, Nodes1D, NodeType, Quadrature1D
  from swirl_fem.core.mesh_refiner import refine_premesh
  for c in mon.cases('pipeline', 30, 1500):
    with c, np.errstate(invalid='raise', over='raise'):
      r = c.rng
      ndim = int(r.integers(1, 4))
      periodic = r.random() < .5
      raw = (gen.random_periodic_box(r, ndim, side_groups=True) if periodic
             else gen.random_mesh(r, ndim, str(r.choice(['tiny', 'small']))))
      c.describe(ndim=ndim, periodic=periodic, nodes=len(raw.nodes), elements=raw.elements)
      args = dict(x=np.array(raw.nodes), e=np.array(raw.elements),
                  l=None if raw.links is None else np.array(raw.links),
                  g={k: np.array(v) for k, v in raw.groups.items()})
      before = fingerprint(args)
      pm = gen.to_premesh(gen.Raw(args['x'], args['e'], args['g'], args['l'], None, ''))
      c.check('inputs unchanged', fingerprint(args) == before, 'create changed its inputs')
      state = fingerprint(premesh_arrays(pm))

      def step(name, f):
        out = f()
        c.check('inputs unchanged', fingerprint(premesh_arrays(pm)) == state, f'{name} changed the premesh')
        c.check('inputs unchanged', fingerprint(args) == before, f'{name} changed the arrays of the premesh')
        c.event('traced_operation')
        return out

      def mesh_ok(name, m):
        x = np.asarray(m.node_coords)
        c.check('finite', bool(np.isfinite(x).all()), f'{name}: coordinates')
        e = np.asarray(m.elements)
        c.check('indices in range', bool((e >= -1).all() and (e < x.shape[-2]).all()), f'{name}: elements')
      mesh_ok('finalize', step('finalize', pm.finalize))
      n = int(r.integers(2, 5))
      nodes = Nodes1D.create(num_points=n, node_type=NodeType.GAUSS_LOBATTO_LEGENDRE)
      kept = fingerprint(np.asarray(nodes.node_values))
      fine = step('refine', lambda: refine_premesh(pm, gridpoints_1d=nodes))
      c.check('inputs unchanged', fingerprint(np.asarray(nodes.node_values)) == kept, 'refine changed the nodes')
      fine_state = fingerprint(premesh_arrays(fine))
      mesh_ok('finalize refined', step('finalize refined', fine.finalize))
      c.check('inputs unchanged', fingerprint(premesh_arrays(fine)) == fine_state, 'finalize changed the fine premesh')
      again = step('refine again', lambda: refine_premesh(pm, gridpoints_1d=nodes))
      c.check('repeatable', fingerprint(premesh_arrays(again)) == fine_state, 'refining twice differs')
      if not periodic and len(raw.elements) > 1:
        k = int(r.integers(2, min(4, len(raw.elements)) + 1))
        parts = step('partition', lambda: partition(pm, k))
        arr = np.asarray(parts.partitions if hasattr(parts, 'partitions') else parts)
        c.check('indices in range', bool((arr >= 0).all() and (arr < k).all()), 'partition')
  for c in mon.cases('interpolation', 20, 500):
    with c, np.errstate(invalid='raise', over='raise'):
      r = c.rng
      kinds = [NodeType.NEWTON_COTES, NodeType.GAUSS_LEGENDRE, NodeType.GAUSS_LOBATTO_LEGENDRE]
      a, b = kinds[int(r.integers(3))], kinds[int(r.integers(3))]
      n, m = r.integers(2, 9, 2)
      ndim = int(r.integers(1, 4))
      c.describe(source=a.value, target=b.value, points=[n, m], ndim=ndim)
      g = Nodes1D.create(num_points=int(n), node_type=a)
      h = g if r.random() < .2 else Nodes1D.create(num_points=int(m), node_type=b)
      interp = BarycentricInterpolator(ndim=min(ndim, 2) if n * m > 30 else ndim, gridpoints_1d=g, evalpoints_1d=h)
      for mat in (interp.interpolation_matrix(), interp.interpolation_matrix_grad()):
        c.check('finite', bool(np.isfinite(np.asarray(mat)).all()), 'interpolation matrix')
      q = Quadrature1D.create(num_points=int(m), quadrature_type=b)
      c.check('finite', bool(np.isfinite(np.asarray(q.weights_nd(ndim=ndim))).all()), 'weights')
      c.event('traced_operation', 3)
  for c in mon.cases('unit cubes', 10, 200):
    with c, np.errstate(invalid='raise', over='raise'):
      r = c.rng
      ndim, n = int(r.integers(1, 4)), int(r.integers(2, 4))
      per = tuple(int(d) for d in range(ndim) if r.random() < .5)
      m = premesh_commons.unit_cube_mesh(n, ndim=ndim, periodic_dims=per).finalize()
      c.check('finite', bool(np.isfinite(np.asarray(m.node_coords)).all()), 'unit cube')
      c.event('traced_operation')


def part_space(mon):
  import jax
  import jax.numpy as jnp
  from swirlmon import space
  from swirl_fem.core.fespace import FiniteElementSpace, div, grad
  with_control = True
  for c in mon.cases('operations', 14, 500):
    with c:
      r = c.rng
      s = Sanitizer(c)
      if with_control:
        s.control()
        with_control = False
      ndim = int(r.integers(1, 4))
      sp = space.random_space(c, ndim, hi={1: 6, 2: 5, 3: 3}[ndim], orient='all' if r.random() < .3 else 'proper')
      mesh = sp.mesh
      u = jnp.asarray(r.normal(size=sp.N))
      v = jnp.asarray(r.normal(size=(sp.N, ndim)))
      ul = s.run('gather', lambda m, u: m.gather(u), mesh, u)
      s.run('scatter', lambda m, ul: m.scatter(ul), mesh, ul)
      s.run('exchange', lambda m, u: m.exchange(u), mesh, u)
      s.run('element_coords', lambda m: m.element_coords(), mesh)
      vl = jnp.asarray(np.asarray(v)[np.asarray(sp.els)])

      def forms(m, ul, vl):
        fs = FiniteElementSpace.create(m, sp.quad)
        uf, vf = fs.scalar_function(ul), fs.vector_function(vl)
        out = [fs.jacdets, fs.invjacs, fs.quad_coords, fs.integrate(lambda x: 1. + uf(x) ** 2),
               fs.integrate(div(vf)), fs.integrate(lambda x: (grad(uf)(x) ** 2).sum()),
               fs.local_covector(lambda w: lambda x: uf(x) * w(x), (fs.scalar_function(None),)),
               fs.local_covector(lambda w: lambda x: grad(uf)(x) @ grad(w)(x), (fs.scalar_function(None),)),
               fs.local_covector(lambda w: lambda x: vf(x) @ w(x) + div(w)(x), (fs.vector_function(None),))]
        return out
      s.run('forms', forms, mesh, ul, vl)
      s.run('vanishing fields', forms, mesh, 0 * ul, 0 * vl)

      def energy(m, ul, vl):
        return sum(jnp.sum(o ** 2) for o in forms(m, ul, vl)[3:])
      s.run('gradient', jax.grad(energy, argnums=(1, 2)), mesh, ul, vl)
      s.run('batch', jax.vmap(lambda u: mesh.scatter(mesh.gather(u))), jnp.stack([u, 2 * u]))


def part_poisson(mon):
  import jax.numpy as jnp
  from swirlmon import gen, space
  from swirl_fem.examples.poisson import BCType, solve_poisson
  from swirl_fem.linalg.cg import cg
  for c in mon.cases('solves', 8, 300):
    with c:
      r = c.rng
      s = Sanitizer(c)
      ndim = int(r.integers(1, 4))
      raw = gen.random_mesh(r, ndim, 'tiny' if ndim == 3 else 'small')
      sp = space.random_space(c, ndim, raw=raw, hi={1: 6, 2: 4, 3: 3}[ndim],
                              kinds=['gauss_lobatto_legendre', 'newton_cotes'], qkinds=['gauss_legendre'])
      bcs = {'boundary': (BCType.DIRICHLET, 0)}
      f = jnp.asarray(r.normal(size=sp.N))
      before = fingerprint([sp.mesh.node_coords, sp.mesh.elements, sp.mesh.physical_masks])
      s.run('poisson', lambda f: solve_poisson(sp.mesh, f, bcs), f)
      s.run('poisson without forcing', lambda f: solve_poisson(sp.mesh, f, bcs), 0 * f)
      c.check('inputs unchanged', fingerprint([sp.mesh.node_coords, sp.mesh.elements, sp.mesh.physical_masks]) == before,
              'the mesh changed')
  for c in mon.cases('conjugate gradients', 12, 500):
    with c:
      r = c.rng
      s = Sanitizer(c)
      n = int(r.integers(1, 12))
      q, _ = np.linalg.qr(r.normal(size=(n, n)))
      A = jnp.asarray(q * 10 ** r.uniform(-2, 2, n) @ q.T)
      A = (A + A.T) / 2
      b = jnp.asarray(r.normal(size=n))
      M = jnp.diag(jnp.asarray(r.uniform(.5, 2, n)))
      c.describe(size=n)
      for tol in (1e-3, 1e-10):
        x, info = s.run('cg', lambda A, b: cg(lambda v: A @ v, b, tol=tol), A, b)
        s.run('cg exact start', lambda A, b, x: cg(lambda v: A @ v, b, x0=x, tol=tol)[0], A, A @ b, b)
        s.run('cg preconditioned', lambda A, b: cg(lambda v: A @ v, b, tol=tol, M=lambda v: M @ v)[0], A, b)
        s.run('cg zero', lambda A, b: cg(lambda v: A @ v, 0 * b, tol=tol)[0], A, b)
        s.run('cg no iterations', lambda A, b: cg(lambda v: A @ v, b, tol=tol, maxiter=0)[0], A, b)


def part_flow(mon):
  import jax
  import jax.numpy as jnp
  from swirlmon import flow
  ndim = 2 if mon.part == 'plane' else 3
  for c in mon.cases('operations', 4, 80, minimum=1):
    with c:
      r = c.rng
      s = Sanitizer(c)
      with np.errstate(invalid='raise'):
        fl = flow.random_flow(c, ndim, maxorder=5 if ndim == 2 else 3)
      sem = fl.sem
      u = jnp.asarray(flow.continuous(fl, r))
      p = jnp.asarray(r.normal(size=fl.P))
      state = fingerprint([sem.velocity.mesh.node_coords, sem.velocity.mesh.elements, sem.velocity.interior_mask,
                           sem.velocity_mass_diag, sem.pressure.pspace.mesh.node_coords])
      ops = {'B': (sem.B, u), 'Bi': (sem.Bi, u), 'A': (sem.A, u), 'C': (sem.C, u), 'D': (sem.D, u), 'Dt': (sem.Dt, p),
             'pressure mass': (sem.pressure.B, p), 'E': (lambda p: sem.E(p, .01, 2), p),
             'filter': (lambda u: sem.filter(u, alpha=.3), u),
             'gather': (lambda u: sem.velocity.scatter(sem.velocity.gather(u)), u),
             'exchange': (sem.velocity.exchange, u)}
      if ndim == 2:
        ops['vorticity'] = (sem.vorticity, u)
      for name, (f, arg) in ops.items():
        s.run(name, f, arg)
        s.run(f'{name} of zero', f, 0 * arg)
      k = int(r.integers(2, 4))
      order = ['random', 'rest']

      def step(us, ps, f):
        return sem.stokes_one_step(us, ps, f, mu=.05, dt=.01, time_order=k, tol=1e-5, atol=1e-8,
                                   alpha=.05)[:2]
      if any(int(x) for x in np.ravel(fl.mask)):
        for mode in order:
          z = 0. if mode == 'rest' else 1.
          us = tuple(z * jnp.asarray(flow.continuous(fl, r)) for _ in range(k))
          ps = tuple(z * jnp.asarray(r.normal(size=fl.P)) for _ in range(k))
          s.run(f'step from {mode}', step, us, ps, z * sem.B(u))
      c.check('inputs unchanged', fingerprint([
          sem.velocity.mesh.node_coords, sem.velocity.mesh.elements, sem.velocity.interior_mask,
          sem.velocity_mass_diag, sem.pressure.pspace.mesh.node_coords]) == state, 'the flow setup changed')


def part_distributed(mon):
  import jax
  import jax.numpy as jnp
  from jax.experimental import checkify
  from swirlmon import dist, gen
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  errors = checkify.index_checks | checkify.nan_checks
  _deliberate()

  def instrumented(f):
    def g(*args):
      err, out = checkify.checkify(f, errors=errors)(*args)
      flags = [x for x in jax.tree.leaves(err) if x.dtype == bool]
      return out, sum(x.astype(int).sum() for x in flags) if flags else jnp.zeros((), int)
    return jax.pmap(g, axis_name='dev')
  _, bad = instrumented(lambda x: jax.lax.psum(x[jnp.arange(3) + 3], 'dev'))(jnp.ones((2, 5)))
  if not np.asarray(bad).all():
    raise RuntimeError('the sanitizer is blind on several devices')
  for c in mon.cases('operations', 8, 300):
    with c:
      r = c.rng
      ndim, P = int(r.integers(1, 4)), int(r.integers(2, mon.devices + 1))
      raw = dist.partitioned_raw(r, ndim, P)
      n = int(r.integers(2, 5 if ndim < 3 else 4))
      c.describe(mesh=raw.kind, elements=raw.elements, partitions=raw.partitions, links=raw.links, points=n)
      with np.errstate(invalid='raise', over='raise'):
        pm = gen.to_premesh(raw)
        if n > 2:
          pm = refine_premesh(pm, gridpoints_1d=Nodes1D.create(
              num_points=n, node_type=NodeType.GAUSS_LOBATTO_LEGENDRE))
        mesh = pm.finalize(axis_name='dev')
      N = np.asarray(mesh.node_coords).shape[-2]
      u = jnp.asarray(r.normal(size=(P, N)))
      before = fingerprint(mesh)
      for name, f in {'gather and scatter': lambda m, u: m.scatter(m.gather(u)),
                      'exchange': lambda m, u: m.exchange(u),
                      'assembly': lambda m, u: m.exchange(m.scatter(m.gather(u) ** 2)),
                      'coordinates': lambda m, u: m.element_coords()}.items():
        out, err = instrumented(f)(mesh, u)
        c.check('sanitizer', not np.asarray(err).any(), f'{name}: errors on devices {np.asarray(err).tolist()}')
        c.check('finite', bool(np.isfinite(np.asarray(out)).all()), name)
        c.event('instrumented_operation', P)
      c.check('inputs unchanged', fingerprint(mesh) == before, 'the mesh changed')


def part_leaks(mon):
  """Tracer leaks: transformations around every operation, and use of objects after them."""
  import jax
  import jax.numpy as jnp
  from swirlmon import flow, space
  from swirl_fem.core.fespace import FiniteElementSpace, div, grad
  try:
    with jax.checking_leaks():
      kept = []
      jax.jit(lambda x: kept.append(x) or x)(1.)
    raise RuntimeError('the leak checker is blind')
  except Exception as e:  # pylint: disable=broad-except
    if 'Leak' not in str(e):
      raise
  for c in mon.cases('spaces', 4, 150, minimum=1):
    with c:
      r = c.rng
      ndim = int(r.integers(1, 4))
      sp = space.random_space(c, ndim, hi={1: 5, 2: 4, 3: 3}[ndim])
      ul = jnp.asarray(r.normal(size=sp.els.shape))
      vl = jnp.asarray(r.normal(size=sp.els.shape + (ndim,)))

      def f(mesh, ul, vl):
        fs = FiniteElementSpace.create(mesh, sp.quad)
        uf, vf = fs.scalar_function(ul), fs.vector_function(vl)
        a = fs.integrate(lambda x: uf(x) ** 2) + fs.integrate(div(vf))
        b = fs.local_covector(lambda w: lambda x: grad(uf)(x) @ grad(w)(x), (fs.scalar_function(None),))
        return a, b
      with jax.checking_leaks(), jax.debug_nans(True), jax.debug_infs(True):
        first = jax.jit(f)(sp.mesh, ul, vl)
        jax.vmap(lambda s: f(sp.mesh, s * ul, vl)[0])(jnp.arange(1., 3.))
        jax.grad(lambda ul: f(sp.mesh, ul, vl)[0])(ul)
        jax.jvp(lambda ul: f(sp.mesh, ul, vl)[1], (ul,), (ul,))
        c.event('leak_checked_transformation', 4)
      again = jax.jit(lambda *a: f(*a))(sp.mesh, ul, vl)
      c.close('usable afterwards', again[1], first[1], rtol=1e-12)
  for c in mon.cases('flows', 2, 40, minimum=1):
    with c:
      r = c.rng
      fl = flow.random_flow(c, 2, order=3)
      sem = fl.sem
      u, p = jnp.asarray(flow.continuous(fl, r)), jnp.asarray(r.normal(size=fl.P))
      with jax.checking_leaks(), jax.debug_nans(True), jax.debug_infs(True):
        for f, a in ((sem.A, u), (sem.C, u), (sem.D, u), (sem.Dt, p), (sem.filter, u), (sem.vorticity, u)):
          jax.jit(lambda v, f=f: f(v))(a)
          c.event('leak_checked_transformation')
        jax.jit(lambda u, p: sem.stokes_one_step((u, u), (p, p), 0 * u, mu=.1, dt=.01, time_order=2, tol=1e-4,
                                                 atol=1e-6)[:2])(u, p)
        c.event('leak_checked_transformation')
      c.check('usable afterwards', bool(np.isfinite(np.asarray(sem.A(u))).all()), 'operators fail after tracing')

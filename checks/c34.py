"""C34: derivatives taken through the library against differences of its executions."""

import numpy as np

PARTS = [dict(name='integrals1', fn='integrals'), dict(name='integrals2', fn='integrals'),
         dict(name='operators'), dict(name='solves'),
         dict(name='steps1', fn='steps', budget={'quick': 45.}), dict(name='steps2', fn='steps', budget={'quick': 45.}),
         dict(name='solid', fn='steps', budget={'quick': 45.}), dict(name='distributed', devices=4)]
RULE = ('A case is a mesh or flow, a scalar or field valued computation and directions for each of its arguments. '
        'Non-trivial when forward and reverse mode derivatives and difference quotients were compared.')
ASSUMPTIONS = ['The number of iterations of a solver may differ between perturbed executions within its tolerance.',
               'The conjugate gradient iteration by itself supports forward mode only, as loops do in JAX.',
               'Flow setups are constants of the derivative; node coordinates are differentiated through meshes.']


def quotients(L, args, d, h):
  """Difference quotient of fourth order and an estimate of its error."""
  import jax

  def at(s):
    return np.asarray(L(*jax.tree.map(lambda a, b: a + s * b, args, d)), float)
  one, two = (at(h) - at(-h)) / (2 * h), (at(2 * h) - at(-2 * h)) / (4 * h)
  return (4 * one - two) / 3, np.abs(one - two)


def norm(tree):
  import jax
  return float(np.sqrt(sum(np.sum(np.square(np.asarray(x, float))) for x in jax.tree.leaves(tree))))


def dot(a, b):
  import jax
  return float(sum(np.vdot(np.asarray(x, float), np.asarray(y, float))
                   for x, y in zip(jax.tree.leaves(a), jax.tree.leaves(b))))


def judge(c, names, L, args, directions, h=1e-4, reverse=True, rtol=1e-6, floor=1e-9):
  """Compares derivatives of a scalar function in every argument."""
  import jax
  import jax.numpy as jnp
  args = jax.tree.map(jnp.asarray, args)
  fwd = jax.jit(lambda a, d: jax.jvp(L, a, d)[1])
  val = jax.jit(L)
  g = jax.jit(jax.grad(L, argnums=tuple(range(len(args)))))(*args) if reverse else None
  base = abs(float(val(*args)))
  zeros = jax.tree.map(jnp.zeros_like, args)
  for i, (name, d) in enumerate(zip(names, directions)):
    d = jax.tree.map(jnp.asarray, d)
    full = tuple(d if j == i else z for j, z in enumerate(zeros))
    jv = float(fwd(args, full))
    fd, err = quotients(val, args, full, h)
    size = max(abs(jv), abs(float(fd)), abs(base) * 1e-3)
    tol = max(rtol * size, float(err), floor * max(base, 1.) / h)
    c.close('forward mode', jv, float(fd), atol=tol, msg=name)
    c.event('difference_quotient')
    if reverse:
      rv = dot(g[i], d)
      c.close('reverse mode', rv, float(fd), atol=tol, msg=name)
      c.close('modes agree', rv, jv, atol=rtol * max(size, 1e-3 * norm(g[i]) * norm(d)), msg=name)
      c.check('finite', bool(np.isfinite(norm(g[i]))), f'gradient in {name}')
      c.event('reverse_mode')


def part_integrals(mon):
  import jax
  import jax.numpy as jnp
  from swirlmon import space
  from swirl_fem.core.fespace import FiniteElementSpace, div, grad
  for c in mon.cases('forms', 7, 300):
    with c:
      r = c.rng
      ndim = int(r.integers(1, 4))
      s = space.random_space(c, ndim, hi={1: 6, 2: 4, 3: 3}[ndim], qhi={1: 7, 2: 5, 3: 3}[ndim])
      m = s.mesh
      u, v = r.normal(size=s.N), r.normal(size=(s.N, ndim))
      k = r.normal(size=ndim)
      kind = int(r.integers(5))
      w = r.normal(size=s.N)
      wv = r.normal(size=(s.N, ndim))

      def L(x, u, v, a):
        mesh = m.replace(node_coords=x)
        fs = FiniteElementSpace.create(mesh, s.quad)
        uf = fs.scalar_function(mesh.gather(u))
        vf = fs.vector_function(v[jnp.asarray(s.els)])
        if kind == 0:
          return fs.integrate(lambda x: jnp.sin(a * uf(x)) * jnp.exp(.3 * (x @ k)))
        if kind == 1:
          return fs.integrate(lambda x: a * (grad(uf)(x) ** 2).sum() + div(vf)(x) * uf(x))
        if kind == 2:
          out = fs.local_covector(lambda t: lambda x: a * uf(x) * (grad(uf)(x) @ grad(t)(x)),
                                  (fs.scalar_function(None),))
          return jnp.vdot(mesh.scatter(out), w)
        if kind == 3:
          out = fs.local_covector(lambda t: lambda x: (vf(x) @ grad(vf)(x)) @ t(x) + a * div(vf)(x) * div(t)(x),
                                  (fs.vector_function(None),))
          return (out * jnp.asarray(wv[s.els])).sum()
        return fs.integrate(lambda x: 1. + a * (vf(x) @ vf(x)) * uf(x)) + (fs.jacdets ** 2).sum() + (
            a * fs.quad_coords ** 3).sum()
      c.describe(form=kind)
      scale = np.ptp(s.coords, axis=0).max()
      dx = space.bend(r, s.coords, .3) - s.coords
      judge(c, ['coordinates', 'scalar field', 'vector field', 'parameter'], L,
            (s.coords, u, v, float(r.uniform(.5, 2))),
            (dx, r.normal(size=s.N), r.normal(size=(s.N, ndim)), 1.), h=2e-4, rtol=1e-6, floor=1e-12)


def part_operators(mon):
  """Linear operators: tangents are the operator itself, cotangents its transpose."""
  import jax
  import jax.numpy as jnp
  from swirlmon import flow, space, gen
  for c in mon.cases('meshes', 8, 400):
    with c:
      r = c.rng
      ndim = int(r.integers(1, 4))
      raw = gen.random_periodic_box(r, ndim) if r.random() < .5 else None
      s = space.random_space(c, ndim, hi={1: 5, 2: 4, 3: 3}[ndim], raw=raw, curve=False,
                             kinds=['gauss_lobatto_legendre'])
      m = s.mesh
      ops = {'gather': (m.gather, (s.N,)), 'scatter': (m.scatter, s.els.shape), 'exchange': (m.exchange, (s.N,))}
      for name, (f, shape) in ops.items():
        _linear(c, name, f, r.normal(size=shape), r)
  for c in mon.cases('flows', 3, 100, minimum=1):
    with c:
      r = c.rng
      fl = flow.random_flow(c, 2 if r.random() < .8 else 3, maxorder=4)
      sem = fl.sem
      u, p = r.normal(size=(fl.N, fl.ndim)), r.normal(size=fl.P)
      for name, f, x in (('B', sem.B, u), ('Bi', sem.Bi, u), ('A', sem.A, u), ('D', sem.D, u), ('Dt', sem.Dt, p),
                         ('E', lambda p: sem.E(p, .1, 2), p), ('filter', lambda u: sem.filter(u, alpha=.4), u),
                         ('pressure mass', sem.pressure.B, p)):
        _linear(c, name, f, x, r)
      w = r.normal(size=u.shape)
      judge(c, ['velocity'], lambda u: (sem.C(u) * w).sum(), (u,), (r.normal(size=u.shape),), rtol=1e-6, floor=1e-12)


def _linear(c, name, f, x, r):
  import jax
  import jax.numpy as jnp
  x, d = jnp.asarray(x), jnp.asarray(r.normal(size=x.shape))
  y, t = jax.jit(lambda x, d: jax.jvp(f, (x,), (d,)))(x, d)
  want = jax.jit(f)(d)
  c.close('tangent of a linear operator', t, want, rtol=1e-11, scale=float(np.abs(want).max()) + 1e-300, msg=name)
  ct = jnp.asarray(r.normal(size=y.shape))
  back = jax.jit(lambda x, ct: jax.vjp(f, x)[1](ct)[0])(x, ct)
  c.close('transpose', dot(back, d), dot(ct, t), atol=1e-10 * norm(ct) * norm(t) + 1e-300, msg=name)
  c.event('operator')


def part_solves(mon):
  import jax
  import jax.numpy as jnp
  from swirlmon import space
  from swirl_fem.examples.poisson import BCType, solve_poisson
  from swirl_fem.linalg.cg import cg
  for c in mon.cases('poisson', 6, 200):
    with c:
      r = c.rng
      ndim = int(r.integers(1, 3))
      s = space.random_space(c, ndim, hi={1: 5, 2: 3, 3: 3}[ndim], kinds=['gauss_lobatto_legendre'],
                             qkinds=['gauss_legendre'], size='tiny')
      bcs = {'boundary': (BCType.DIRICHLET, 0)}
      f, d = jnp.asarray(r.normal(size=(2, s.N)))
      run = lambda f: solve_poisson(s.mesh, f, bcs, rtol=1e-12)
      t = jax.jit(lambda f, d: jax.jvp(run, (f,), (d,))[1])(f, d)
      want = np.asarray(run(d))
      c.close('tangent of the solution', t, want, rtol=1e-5, scale=np.abs(want).max() + 1e-12)
      c.event('solve')
  for c in mon.cases('conjugate gradients', 10, 400):
    with c:
      r = c.rng
      n = int(r.integers(1, 7))
      B = r.normal(size=(n, n))
      b, w = r.normal(size=(2, n))
      c.describe(n=n)

      def L(B, b, s):
        A = B @ B.T + s * jnp.eye(n)
        return cg(lambda v: A @ v, b, tol=1e-13)[0] @ w
      args = (B, b, 2.)
      judge(c, ['matrix', 'right hand side', 'shift'], L, args, (r.normal(size=(n, n)), r.normal(size=n), 1.),
            reverse=False, rtol=1e-4, floor=1e-9)

      def R(B, b, s):
        A = B @ B.T + s * jnp.eye(n)
        return jax.lax.custom_linear_solve(lambda v: A @ v, b, symmetric=True,
                                           solve=lambda A, b: cg(A, b, tol=1e-13)[0]) @ w
      judge(c, ['matrix', 'right hand side', 'shift'], R, args, (r.normal(size=(n, n)), r.normal(size=n), 1.),
            rtol=1e-6, floor=1e-11)


def part_steps(mon):
  import jax
  import jax.numpy as jnp
  from swirlmon import flow
  ndim = 3 if mon.part == 'solid' else 2
  for c in mon.cases('steps', 3, 60, minimum=1):
    with c:
      r = c.rng
      fl = flow.random_flow(c, ndim, order=int(r.integers(3, 5)) if ndim == 2 else 2)
      sem = fl.sem
      if not fl.mask.any():
        c.trivial = True
        continue
      closed = flow.closed(fl)
      null = np.linalg.eigvalsh((lambda E: (E + E.T) / 2)(flow.E(fl, .1, 1.)))
      if np.sum(null < 1e-9 * null.max()) != int(closed) or null.max() < 1e-12:
        c.trivial = True
        c.event('several_pressure_modes_skipped')
        continue
      k = int(r.integers(2, 4))
      steps = 1 if ndim == 3 else int(r.integers(1, 3))
      w, q = r.normal(size=(fl.N, ndim)), r.normal(size=fl.P)
      lift = r.random() < .4 and len(fl.dirichlet) > 0
      tol = 1e-11
      alpha = float(r.choice([0., .05, .5]))
      convect = bool(r.random() < .6)
      c.describe(time_order=k, steps=steps, lift=lift, alpha=alpha, convection=convect)

      def L(us, ps, f, ub, mu, dt):
        ub = (1 - fl.mask)[:, None] * ub
        for _ in range(steps):
          g = f
          if convect:
            g = g - (2 * sem.C(us[-1]) - sem.C(us[-2]))
          u, p, _ = sem.stokes_one_step(us, ps, g, mu=mu, dt=dt, time_order=k, alpha=alpha, tol=tol,
                                        u_boundary=ub if lift else None, project_out_nullspace=closed)
          us, ps = us[1:] + (u,), ps[1:] + (p,)
        return (u * w).sum() + .1 * (p * q).sum() + .1 * (u ** 2).sum()

      def cont(masked=True):
        x = r.normal(size=(fl.cls.max() + 1, ndim))[fl.cls]
        return x * fl.mask[:, None] if masked else x
      us, dus = tuple(cont() for _ in range(k)), tuple(cont() for _ in range(k))
      ps, dps = (tuple(r.normal(size=fl.P) for _ in range(k)) for _ in range(2))
      B = fl.mass[:, None]
      args = (us, ps, B * cont(), cont(False), .05, .02)
      directions = (dus, dps, B * cont(), cont(False), .01, .004)
      names = ['velocities', 'pressures', 'force', 'boundary values', 'viscosity', 'step size']
      judge(c, names, L, args, directions, h=2e-3, rtol=1e-5, floor=1e-10)
      c.event('flow_step', steps)
      c.event('closed' if closed else 'open')


def part_distributed(mon):
  """Transposes of the operators of partitioned meshes, over all devices."""
  import jax
  import jax.numpy as jnp
  from swirlmon import dist, gen
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  for c in mon.cases('meshes', 8, 300):
    with c:
      r = c.rng
      ndim, P = int(r.integers(1, 4)), int(r.integers(2, mon.devices + 1))
      raw = dist.partitioned_raw(r, ndim, P)
      pm = gen.to_premesh(raw)
      n = int(r.integers(2, 5 if ndim < 3 else 4))
      if n > 2:
        pm = refine_premesh(pm, gridpoints_1d=Nodes1D.create(
            num_points=n, node_type=NodeType.GAUSS_LOBATTO_LEGENDRE))
      mesh = pm.finalize(axis_name='dev')
      real = np.asarray(mesh.node_indices) >= 0
      c.describe(mesh=raw.kind, partitions=raw.partitions, elements=raw.elements, points=n)
      u, d, ct = (np.where(real, r.normal(size=real.shape), 0.) for _ in range(3))

      def f(m, u):
        return m.exchange(m.scatter(m.gather(u) * 2.))
      tangent = jax.pmap(lambda m, u, d: jax.jvp(lambda u: f(m, u), (u,), (d,))[1], axis_name='dev')
      trans = jax.pmap(lambda m, u, ct: jax.vjp(lambda u: f(m, u), u)[1](ct)[0], axis_name='dev')
      t = np.asarray(tangent(mesh, u, d))
      c.close('tangent of a linear operator', t, jax.pmap(f, axis_name='dev')(mesh, d), rtol=1e-12)
      b = np.asarray(trans(mesh, u, ct))
      c.close('transpose', float((b * d)[real].sum()), float((ct * t)[real].sum()),
              atol=1e-11 * norm(ct) * norm(t))
      c.event('operator')

"""C38: convergence of time stepping to exact solutions, conservation, decay."""

import numpy as np

PARTS = [dict(name='time1', fn='time', budget={'quick': 40.}), dict(name='time2', fn='time', budget={'quick': 40.}),
         dict(name='space', budget={'quick': 40.}), dict(name='walls1', fn='walls', budget={'quick': 40.}),
         dict(name='walls2', fn='walls', budget={'quick': 40.}), dict(name='solid', budget={'quick': 40.}),
         dict(name='conservation', budget={'quick': 40.})]
RULE = ('A case is an exact solution of the Navier-Stokes or Stokes equations on a random mesh, advanced from exact '
        'history at several step sizes or element orders. Non-trivial when errors against the exact velocity were '
        'compared between at least three resolutions, or a history of steps was watched.')
ASSUMPTIONS = ['No filter where an order is measured.', 'Affine or bilinear elements.']


def rotation(r, ndim):
  q, _ = np.linalg.qr(r.normal(size=(ndim, ndim)))
  if np.linalg.det(q) < 0:
    q[:, 0] = -q[:, 0]
  return q


def periodic_mesh(r, counts, lengths, R, bend=.03):
  """A periodic box, distorted inside, rotated and relabelled."""
  from swirlmon import gen
  ndim = len(counts)
  raw = gen.box(counts, tuple(range(ndim)), lengths=lengths, origin=np.zeros(ndim))
  y = raw.nodes.copy()
  for a in range(ndim):
    k = np.zeros(ndim)
    k[r.integers(ndim)] = 1
    y[:, a] += bend * lengths.min() * np.sin(2 * np.pi * (raw.nodes / lengths) @ k + r.uniform(0, 6))
  raw.nodes = y @ R.T
  return gen.scramble(r, raw)[0]


def vortices(r, lengths, nu, speed=.6):
  """Travelling decaying vortices: u(x, t), p(x, t) in box coordinates."""
  k, l = 2 * np.pi / lengths
  U, a, A = speed * r.uniform(-1, 1, 2), r.uniform(0, 6, 2), r.uniform(.7, 1.3) / max(k, l)
  lam = k * k + l * l

  def u(x, t):
    y = x - U * t
    X, Y = k * y[:, 0] + a[0], l * y[:, 1] + a[1]
    e = A * np.exp(-nu * lam * t)
    return U + e * np.stack([-l * np.cos(X) * np.sin(Y), k * np.sin(X) * np.cos(Y)], -1)

  def p(x, t):
    y = x - U * t
    X, Y = k * y[:, 0] + a[0], l * y[:, 1] + a[1]
    e = A * np.exp(-nu * lam * t)
    return -e * e / 4 * (l * l * np.cos(2 * X) + k * k * np.cos(2 * Y))
  return u, p


def beltrami(r, nu):
  """A decaying Beltrami flow in the box of side 2 pi."""
  A, B, C = r.uniform(.3, 1, 3)

  def u(x, t):
    X, Y, Z = x.T
    return np.exp(-nu * t) * np.stack([A * np.sin(Z) + C * np.cos(Y), B * np.sin(X) + A * np.cos(Z),
                                       C * np.sin(Y) + B * np.cos(X)], -1)
  return u, lambda x, t: -.5 * (u(x, t) ** 2).sum(-1)


def turned(f, R, vector):
  return (lambda x, t: f(x @ R, t) @ R.T) if vector else (lambda x, t: f(x @ R, t))


def build(raw, bcs, order, over=2):
  from swirlmon import gen
  from swirl_fem.navier_stokes.navier_stokes import StokesSEM
  return StokesSEM.create(gen.to_premesh(raw), bcs, order=order, num_convection_overint_nodes=over)


def advance(sem, u, p, nu, dt, steps, k, convect=True, force=None, boundary=None, tol=1e-9, alpha=0.):
  """The velocity after a number of steps from exact history, and the L2 norm of differences to it."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.navier_stokes.navier_stokes import extk_coeffs
  vx = np.asarray(sem.velocity.mesh.node_coords)
  px = np.asarray(sem.pressure.pspace.mesh.node_coords)
  us = jnp.asarray(np.stack([u(vx, (i - k + 1) * dt) for i in range(k)]))
  ps = jnp.asarray(np.stack([p(px, -dt), p(px, 0.)]))
  times = dt * np.arange(1, steps + 1)
  fs = jnp.asarray(np.stack([force(vx, t) for t in times]) if force else np.zeros((steps,) + us.shape[1:]))
  bs = jnp.asarray(np.stack([boundary(vx, t) for t in times])) if boundary else None
  ext = extk_coeffs(k - 1) if k > 1 else np.ones(1)

  def step(s, x):
    us, ps = s
    f = sem.B(x[0])
    if convect:
      f = f - sum(e * sem.C(us[i]) for i, e in enumerate(ext))
    un, pn, _ = sem.stokes_one_step([us[i] for i in range(k)], [ps[0], ps[1]], f, mu=nu, dt=dt, time_order=k,
                                    alpha=alpha, tol=tol, **({} if bs is None else dict(u_boundary=x[1])))
    return (jnp.concatenate([us[1:], un[None]]), jnp.stack([ps[1], pn])), None
  us, ps = jax.jit(lambda s, x: jax.lax.scan(step, s, x)[0])((us, ps), (fs,) if bs is None else (fs, bs))
  m = np.asarray(sem.velocity_mass_diag).reshape(len(vx), -1)[:, :1]
  want = u(vx, steps * dt)
  size = np.sqrt((m * want ** 2).sum())
  got = np.asarray(us[-1])
  dist = lambda w: float(np.sqrt((m * (got - w) ** 2).sum()) / size)
  return got, dist, dist(want)


def order_of(c, runs, k, spatial, what, slack=.4, floor=1e-8, tiny=0.):
  """Differences between step sizes fall at order k, and the finest run is close to the exact solution.

  The error in space is common to all step sizes, so it drops out of the differences.
  """
  errors = [w[2] for w in runs]
  diffs = [a[1](b[0]) for a, b in zip(runs, runs[1:])]
  c.describe(errors=errors, differences=diffs)
  text = f'order {k}: differences {[f"{x:.2e}" for x in diffs]}, errors {[f"{x:.2e}" for x in errors]}'
  c.check('finite error', np.isfinite(errors).all(), text)
  seen = 0
  for a, b in zip(diffs, diffs[1:]):
    if a > floor * 2 ** (k + 1):
      c.check(what, a >= b * 2 ** (k - slack) or b < tiny, text)
      seen += 1
  c.check('exact solution', errors[-1] <= 3 * diffs[-1] + spatial, text)
  c.event('halvings', seen)
  c.trivial = not seen


def part_time(mon):
  first = {'time1': 1, 'time2': 2}[mon.part]
  for c in mon.cases('vortices', 2, 120, minimum=1):
    with c:
      r = c.rng
      k = 1 + (c.index + first) % 3
      nu, order = float(r.uniform(.3, 1.)), 9
      R, L = rotation(r, 2), 2 * np.pi * r.uniform(.9, 1.1, 2)
      u, p = vortices(r, L, nu)
      raw = periodic_mesh(r, (2, 2), L, R)
      dt = {1: .04, 2: .06, 3: .08}[k]
      steps = 6
      c.describe(time_order=k, viscosity=nu, lengths=L, rotation=R, nodes=raw.nodes, elements=raw.elements, links=raw.links)
      sem = build(raw, {}, order)
      runs = [advance(sem, turned(u, R, True), turned(p, R, False), nu, dt / 2 ** i, steps * 2 ** i, k) for i in range(3)]
      order_of(c, runs, k, 1e-3, 'order in time')


def part_space(mon):
  """The error falls spectrally with the element order."""
  for c in mon.cases('vortices', 1, 80, minimum=1):
    with c:
      r = c.rng
      nu, k = float(r.uniform(.05, .5)), int(r.integers(2, 4))
      R, L = rotation(r, 2), 2 * np.pi * r.uniform(.9, 1.1, 2)
      u, p = vortices(r, L, nu)
      raw = periodic_mesh(r, (2, 2), L, R, bend=.02)
      orders = (4, 6, 8, 10)
      c.describe(time_order=k, viscosity=nu, lengths=L, rotation=R, nodes=raw.nodes, elements=raw.elements, links=raw.links)
      errors = [advance(build(raw, {}, n), turned(u, R, True), turned(p, R, False), nu, .002, 20, k)[2] for n in orders]
      c.describe(errors=errors)
      text = f'orders {orders}: {[f"{x:.2e}" for x in errors]}'
      c.check('finite error', np.isfinite(errors).all(), text)
      for a, b in zip(errors, errors[1:]):
        c.check('spectral in space', b < max(a / 3, 2e-7), text)
      c.check('spectral in space', errors[-1] < max(errors[0] / 300, 2e-7), text)
      c.event('refinements', 3)


def part_walls(mon):
  """Manufactured flows with Dirichlet values that vary in time."""
  from swirlmon import gen
  from swirl_fem.navier_stokes.navier_stokes import BCType
  for c in mon.cases('manufactured', 2, 120, minimum=1):
    with c:
      r = c.rng
      k = 1 + (c.index + 1) % 2
      nu, convect = float(r.uniform(.2, 1.)), bool(r.random() < .6)
      raw = gen.random_mesh(r, 2, 'small', geometry='plain')
      span = np.ptp(raw.nodes, axis=0).max()
      L = np.array([1., 1.]) * span * r.uniform(2, 3)
      w, q = vortices(r, L, 0., speed=0.)
      _, q2 = vortices(r, L * r.uniform(.8, 1.2), 0.)
      lam = 2 * (2 * np.pi / L[0]) ** 2
      om, ph = r.uniform(1.5, 3, 2), r.uniform(0, 6, 2)
      g, dg = lambda t: 1 + .5 * np.sin(om[0] * t + ph[0]), lambda t: .5 * om[0] * np.cos(om[0] * t + ph[0])
      h = lambda t: np.cos(om[1] * t + ph[1])
      grad = lambda f, x: np.stack([(f(x + d, 0.) - f(x - d, 0.)) / 2e-5 for d in 1e-5 * np.eye(2)], -1)
      u = lambda x, t: g(t) * w(x, 0.)
      p = lambda x, t: h(t) * q2(x, 0.)

      def force(x, t):
        # (w . grad) w = -grad q
        out = (dg(t) + nu * lam * g(t)) * w(x, 0.) + h(t) * grad(q2, x)
        return out - g(t) ** 2 * grad(q, x) if convect else out
      order = 7
      c.describe(time_order=k, viscosity=nu, nodes=raw.nodes, elements=raw.elements, convection=convect)
      sem = build(raw, {'boundary': (BCType.DIRICHLET, 0.)}, order)
      mask = 1 - np.asarray(sem.velocity.interior_mask).reshape(len(sem.velocity.mesh.node_coords), -1)[:, :1]
      dt = .1 * min(1., span)
      runs = [advance(sem, u, p, nu, dt / 2 ** i, 5 * 2 ** i, k, convect, force, lambda x, t: mask * u(x, t))
              for i in range(3)]
      # walls delay the asymptotic regime, so only differences above this size have to shrink
      order_of(c, runs, k, 5e-3, 'order with walls', slack=.6, tiny=6e-4)


def part_solid(mon):
  """Three dimensions: decaying Beltrami flow."""
  for c in mon.cases('beltrami', 1, 30, minimum=1):
    with c:
      r = c.rng
      k = int(r.integers(1, 3))
      nu = float(r.uniform(.3, 1.))
      R, L = rotation(r, 3), 2 * np.pi * np.ones(3)
      u, p = beltrami(r, nu)
      raw = periodic_mesh(r, (2, 2, 2), L, R, bend=.01)
      c.describe(time_order=k, viscosity=nu, rotation=R, nodes=raw.nodes, elements=raw.elements, links=raw.links)
      sem = build(raw, {}, 5, over=1)
      dt = {1: .1, 2: .15}[k]
      runs = [advance(sem, turned(u, R, True), turned(p, R, False), nu, dt / 2 ** i, 2 * 2 ** i, k, tol=1e-8)
              for i in range(3)]
      order_of(c, runs, k, 3e-2, 'order in three dimensions', slack=.6, floor=1e-7)


def part_conservation(mon):
  """Unforced periodic flows from random rough states: momentum is kept, energy is not gained."""
  import jax
  import jax.numpy as jnp
  from swirlmon import flow
  for c in mon.cases('flows', 3, 200, minimum=1):
    with c:
      r = c.rng
      L = r.uniform(.7, 1.5, 2)
      raw = periodic_mesh(r, tuple(int(x) for x in r.integers(1, 4, 2)), L, rotation(r, 2), bend=.02)
      fl = flow.random_flow(c, 2, order=int(r.integers(3, 7)), raw=raw, dirichlet=[])
      sem = fl.sem
      k, nu, dt = int(r.integers(1, 3)), float(10 ** r.uniform(-2, 0)), float(10 ** r.uniform(-2, -1))
      c.describe(time_order=k, viscosity=nu, dt=dt)
      ev, V = np.linalg.eigh((lambda E: (E + E.T) / 2)(flow.E(fl, 1., 1.)))
      # projected to discretely divergence free fields
      u = flow.continuous(fl, r)
      keep = ev > 1e-9 * ev.max()
      phi = V[:, keep] @ ((V[:, keep].T @ np.einsum('pnk,nk->p', fl.D, u)) / ev[keep])
      u = u - flow.Bi(fl, np.einsum('pnk,p->nk', fl.D, phi))
      steps = 12
      if np.sum(~keep) > 1:
        c.trivial = True
        continue

      @jax.jit
      def run(u):
        def step(s, _):
          us, ps = s
          un, pn, _ = sem.stokes_one_step(us, ps, jnp.zeros_like(us[0]), mu=nu, dt=dt, time_order=k, alpha=0., tol=1e-8)
          return (us[1:] + [un], [ps[1], pn]), un
        return jax.lax.scan(step, ([u] * k, [jnp.zeros(fl.P)] * 2), None, length=steps)[1]
      hist = np.asarray(run(jnp.asarray(u)))
      mass = fl.mass[:, None]
      mom = (mass * hist).sum(1)
      c.close('momentum', mom, np.broadcast_to((mass * u).sum(0), mom.shape), rtol=1e-6, scale=(mass * np.abs(u)).sum())
      en = (mass * hist ** 2).sum((1, 2))
      e0 = (mass * u ** 2).sum()
      c.check('energy', np.isfinite(en).all() and (en <= e0 * (1 + 1e-6)).all(), [float(x / e0) for x in en])
      c.event('steps', steps)

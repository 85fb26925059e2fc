import numpy as np

PARTS = [dict(name=f'plane{i}', fn='plane', budget={'quick': 45.}) for i in range(4)] + [
    dict(name=f'solid{i}', fn='solid', budget={'quick': 45.}) for i in range(3)]
RULE = ('A case is a flow setup and several sets of history, forcing, viscosity, step, filter strength '
        'and boundary values; non-trivial when the step was compared with the documented scheme solved '
        'densely in the space of continuous fields.')
ASSUMPTIONS = ['Forces are passed as covectors vanishing on Dirichlet rows, as B, C and Dt produce them.',
               'The projection of constants is requested for closed flows only, and pressures of closed '
               'flows are compared up to the null space of the pressure operator.',
               'Prescribed boundary values belong to linear fields without net flux when the filter is on.']


def _run(c, fl):
  import jax
  import jax.numpy as jnp
  from swirlmon import flow
  sem, r = fl.sem, c.rng
  k = int(r.integers(1, 5))
  closed = flow.closed(fl)
  lift = bool(fl.dirichlet) and r.random() < .5
  project = closed and r.random() < .8
  tol = 1e-11
  npast = int(r.integers(2, 4))
  c.describe(time_order=k, lifted=lift, closed=closed, project=project)

  @jax.jit
  def step(us, ps, f, ub, mu, dt, alpha):
    return sem.stokes_one_step(us, ps, f, mu, dt, k, alpha=alpha, u_boundary=ub if lift else None,
                               project_out_nullspace=project, tol=tol)
  c.event('closed' if closed else 'open')
  for trial in range(4):
    us = [flow.continuous(fl, r) for _ in range(k)]
    ps = [r.normal(size=fl.P) for _ in range(npast)]
    f = fl.mask[:, None] * fl.mass[:, None] * r.normal(size=(fl.N, fl.ndim)) * 3
    mu = float(10 ** r.uniform(-3, 0)) * int(r.random() < .85)
    dt = float(10 ** r.uniform(-3, 0))
    alpha = [.05, 0., float(r.uniform(0, 1))][trial % 3]
    ub = np.zeros((fl.N, fl.ndim))
    if lift:
      if closed or alpha:
        # traceless linear part: no net flux, and reproduced by the filter
        lin = r.normal(size=(fl.ndim, fl.ndim))
        lin -= np.eye(fl.ndim) * np.trace(lin) / fl.ndim
        if fl.raw.links is not None:
          lin = np.zeros_like(lin)
        ub = (fl.vx - fl.vx.mean(0)) @ lin.T + r.normal(size=fl.ndim)
      else:
        ub = r.normal(size=(fl.cls.max() + 1, fl.ndim))[fl.cls]
      if r.random() < .5:
        ub = ub * (1 - fl.mask[:, None])
    if trial == 3:
      us = [0 * u for u in us]
      ps = [0 * p for p in ps]
      f, ub = 0 * f, 0 * ub
    c.describe(**{f'trial{trial}': [mu, dt, alpha]})
    u, p, aux = step(*[jax.tree_util.tree_map(jnp.asarray, a) for a in (us, ps, f, ub)], mu, dt, alpha)
    u, p = np.asarray(u), np.asarray(p)
    if trial == 3:
      c.check('a state at rest stays at rest', not u.any() and not p.any())
      continue
    ru, rp, info = flow.one_step(fl, us, ps, f, mu, dt, k, alpha, ub if lift else None)
    size = np.abs(info['ustar']).max() + np.abs(ru).max()
    if info['null'].shape[1] != int(closed):
      c.event('several_pressure_modes_skipped')  # e.g. a component of its own is closed
      continue
    if np.linalg.norm(info['rhs']) < 1e-6 * np.abs(fl.D).sum(axis=(1, 2)).max() * size:
      # the pressure solve has a right-hand side of rounding errors only
      c.event('vanishing_divergence_skipped')
      continue
    tolu = 100 * tol * max(1., info['cond']) ** .5 + 1e-8
    if tolu > 1e-3:
      c.event('ill_conditioned_skipped')
      continue
    c.close('velocity', u, ru, rtol=tolu * 10, scale=size, msg=f'cond={info["cond"]:.1e}')
    null = info['null']
    d = p - rp
    d = d - null @ (null.T @ d)
    c.close('pressure', d, 0 * d, rtol=tolu * 100,
            scale=np.abs(rp).max() + np.abs(info['dp']).max() + size / dt)
    # the velocity is divergence free up to the residual reported
    div = np.einsum('pnk,nk->p', fl.D, u)
    floor = 1e-13 * np.abs(fl.D).sum(axis=(1, 2)).max() * size * fl.P
    c.check('discretely divergence free', np.linalg.norm(div - null @ (null.T @ div)) <=
            10 * tol * np.linalg.norm(info['rhs']) + floor,
            f'{np.linalg.norm(div)} of {np.linalg.norm(info["rhs"])}')
    fixed = fl.mask == 0
    c.close('prescribed values on Dirichlet nodes', u[fixed], ub[fixed], rtol=1e-12, scale=1 + np.abs(ub).max())
    c.close('continuous across identified nodes', u, flow.exchange(fl, u) / flow.exchange(fl, np.ones((fl.N, 1))),
            rtol=1e-12, scale=size)
    for key in ('u_star_info', 'dp_info'):
      c.check('solvers report convergence', np.isfinite(float(aux[key]['residual'])) and
              int(aux[key]['num_iterations']) >= 0)
    c.event('steps')


def part_plane(mon):
  from swirlmon import flow
  for c in mon.cases('step', 12, 300):
    with c:
      _run(c, flow.random_flow(c, 2, maxorder=5))


def part_solid(mon):
  from swirlmon import flow
  for c in mon.cases('step', 8, 200):
    with c:
      _run(c, flow.random_flow(c, 3))

import numpy as np

PARTS = [dict(name='plane1', fn='plane', budget={'quick': 40.}), dict(name='plane2', fn='plane', budget={'quick': 40.}),
         dict(name='plane3', fn='plane', budget={'quick': 40.}),
         dict(name='solid1', fn='solid', budget={'quick': 40.}), dict(name='solid2', fn='solid', budget={'quick': 40.}),
         dict(name='solid3', fn='solid', budget={'quick': 40.})]
RULE = ('A case is a flow setup (unstructured, curved or periodic mesh, order, Dirichlet groups, '
        'over-integration); non-trivial when all operators were compared with dense matrices '
        'assembled in numpy.')
ASSUMPTIONS = ['Velocity orders of two or more (the pressure space of order 1 is empty).']


def _judge(c, fl):
  import jax
  import jax.numpy as jnp
  from swirlmon import flow, ref
  sem = fl.sem
  dt, k = float(10 ** c.rng.uniform(-3, 0)), int(c.rng.integers(1, 5))
  # leading backward differentiation coefficient: the harmonic number
  beta = sum(1. / i for i in range(1, k + 1))
  c.describe(dt=dt, time_order=k)

  @jax.jit
  def ops(u, p):
    return dict(B=sem.B(u), Bi=sem.Bi(u), A=sem.A(u), C=sem.C(u), D=sem.D(u), Dt=sem.Dt(p),
                Bp=sem.pressure.B(p), E=sem.E(p, dt, k), Q=sem.Q(u, dt, k), X=sem.velocity.exchange(u))

  @jax.jit
  def integrals(u, p):
    from swirl_fem.core.fespace import grad
    ps, vs = sem.pressure.pspace, sem.velocity.vspace
    pf, uf = ps.scalar_function(sem.pressure.gather(p)), vs.scalar_function(sem.velocity.mesh.gather(u[:, 0]))
    return (ps.integrate(lambda x: pf(x) * x[0]), vs.integrate(lambda x: uf(x) * x[-1]),
            jnp.stack([ps.integrate(lambda x: grad(pf)(x)[k]) for k in range(fl.ndim)]))
  u, v = c.rng.normal(size=(2, fl.N, fl.ndim))
  p, q = c.rng.normal(size=(2, fl.P))
  m = fl.mask[:, None]
  got = {n: np.asarray(x) for n, x in ops(jnp.asarray(u), jnp.asarray(p)).items()}
  oth = {n: np.asarray(x) for n, x in ops(jnp.asarray(v), jnp.asarray(q)).items()}
  Dt = np.einsum('pnk,p->nk', fl.D, p)
  sD = np.abs(fl.D).sum(axis=(1, 2)).max() * np.abs(u).max()
  Em = flow.E(fl, dt, beta)
  # magnitude of the terms that may cancel in the pressure operator
  sE = dt / beta * np.abs(p).max() * (np.abs(fl.D).sum(axis=0).max() *
                                      np.abs(fl.D).sum(axis=(1, 2)).max() / flow.exchange(fl, fl.mass).min())
  want = dict(B=m * fl.mass[:, None] * u, Bi=flow.Bi(fl, u), A=m * (fl.A @ u), C=flow.convection(fl, u),
              D=np.einsum('pnk,nk->p', fl.D, u), Dt=m * Dt, Bp=fl.Bp @ p, E=Em @ p,
              Q=dt / beta * flow.Bi(fl, u), X=flow.exchange(fl, u))
  scales = dict(A=np.abs(fl.A).max() * np.abs(u).max(), D=sD, E=sE,
                Dt=np.abs(fl.D).max() * np.abs(p).max(), Bp=np.abs(fl.Bp).max() * np.abs(p).max())
  names = dict(B='mass', Bi='inverse mass', A='stiffness', C='convection', D='divergence',
               Dt='pressure gradient', Bp='pressure mass', E='pressure operator', Q='Q', X='exchange')
  for n, w in want.items():
    c.close(names[n], got[n], w, rtol=1e-10, scale=scales.get(n), atol=1e-13)
  c.equal('mask', np.asarray(sem.velocity.interior_mask)[:, 0] > .5, fl.mask > .5)
  c.close('mass diagonal', np.asarray(sem.velocity_mass_diag), np.repeat(fl.mass[:, None], fl.ndim, 1), rtol=1e-10)
  # the spaces of the velocity and the pressure share the geometry of the elements
  ip, iu, ig = integrals(jnp.asarray(u), jnp.asarray(p))
  psi, dpsi = ref.basis_nd(fl.xp, fl.xv, fl.ndim)
  pq = p[fl.pe] @ psi.T
  xq = fl.vx[fl.ve]
  size = fl.geo.wdet.sum() * (1 + np.abs(xq).max())
  c.close('integral of a pressure', ip, (fl.geo.wdet * pq * xq[..., 0]).sum(), rtol=1e-10, scale=size * np.abs(pq).max())
  c.close('integral of a velocity', iu, (fl.geo.wdet * u[:, 0][fl.ve] * xq[..., -1]).sum(), rtol=1e-10,
          scale=size * np.abs(u).max())
  gp = np.einsum('eqnk,en->eqk', fl.geo.physical_gradients(dpsi), p[fl.pe])
  c.close('integral of a pressure gradient', ig, np.einsum('eq,eqk->k', fl.geo.wdet, gp), rtol=1e-10,
          scale=fl.geo.wdet.sum() * np.abs(gp).max())
  # observed symmetry and duality, with fields vanishing on Dirichlet nodes
  mu, mv = m * u, m * v
  au, av = ops(jnp.asarray(mu), jnp.asarray(p)), ops(jnp.asarray(mv), jnp.asarray(q))
  c.close('stiffness is symmetric', np.vdot(mv, au['A']), np.vdot(mu, av['A']), rtol=1e-9,
          scale=scales['A'] * fl.N)
  c.close('mass is symmetric', np.vdot(mv, au['B']), np.vdot(mu, av['B']), rtol=1e-10, scale=np.abs(fl.mass).sum() * 10)
  c.close('divergence and pressure gradient are transposes', np.vdot(p, au['D']), np.vdot(mu, au['Dt']),
          rtol=1e-9, scale=sD * np.abs(p).sum())
  c.close('pressure operator is symmetric', np.vdot(q, got['E']), np.vdot(p, oth['E']), rtol=1e-9,
          scale=scales['E'] * fl.P)
  c.check('pressure operator is positive', np.vdot(p, got['E']) >= -1e-10 * scales['E'] * fl.P)
  ev = np.linalg.eigvalsh((Em + Em.T) / 2)
  c.check('reference pressure operator is semi-definite', ev[0] > -1e-9 * max(ev[-1], sE), ev[0])
  # constants: no force inside, no flow from a constant velocity
  one = ops(jnp.ones((fl.N, fl.ndim)), jnp.ones(fl.P))
  c.close('constant velocity is divergence free', one['D'], np.zeros(fl.P), rtol=0, atol=1e-9 * max(sD, 1e-3))
  c.close('constant velocity is not strained', one['A'], np.zeros((fl.N, fl.ndim)), rtol=0,
          atol=1e-9 * np.abs(fl.A).sum(1).max())
  c.close('constant velocity is not convected', one['C'], np.zeros((fl.N, fl.ndim)), rtol=0, atol=1e-9 * (1 + sD))
  closed = flow.exchange(fl, np.einsum('pnk->nk', fl.D)) * m
  inner = np.abs(closed) < 1e-9
  c.check('constant pressure exerts no force inside', np.all(
      np.abs(flow.exchange(fl, np.asarray(one['Dt'])))[inner] < 1e-9 * (1 + sD)))
  c.event('operator_applications', 50)


def part_plane(mon):
  from swirlmon import flow
  for c in mon.cases('flow', 14, 400):
    with c:
      _judge(c, flow.random_flow(c, 2))


def part_solid(mon):
  from swirlmon import flow
  for c in mon.cases('flow', 10, 250):
    with c:
      _judge(c, flow.random_flow(c, 3))

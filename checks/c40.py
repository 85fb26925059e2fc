"""C40: units, place and direction of the axes do not matter."""
import os
import shutil

import numpy as np

PARTS = [dict(name='structure', budget={'quick': 30.}), dict(name='files', budget={'quick': 25.}),
         dict(name='forms1', fn='forms', budget={'quick': 40.}), dict(name='forms2', fn='forms', budget={'quick': 40.}),
         dict(name='poisson', budget={'quick': 40.}), dict(name='solver', budget={'quick': 25.}),
         dict(name='flow1', fn='flow', budget={'quick': 40.}), dict(name='flow2', fn='flow', budget={'quick': 40.}),
         dict(name='parted', devices=4, budget={'quick': 40.})]
RULE = ('A case is a random mesh (or file, flow, linear system) and a copy measured in another unit, 1e-6 to 1e6 times the '
        'first, moved by up to 30 domain sizes and turned. Non-trivial when the results of both were compared.')
ASSUMPTIONS = ['Moving a mesh by k domain sizes loses the rounding of its coordinates, k times the machine precision relative '
               'to its size; tolerances leave room for that.']


class Motion:
  """x -> s Q x + t."""

  def __init__(self, c, raw, turn=True):
    from swirlmon import gen
    r = c.rng
    n = raw.nodes.shape[1]
    self.s = float(10. ** r.uniform(-6, 6)) if r.random() < .7 else float(2. ** r.integers(-24, 25))
    if r.random() < .15:
      self.s = 1.
    self.Q = np.eye(n)
    if turn and n > 1 and r.random() < .6:
      q, _ = np.linalg.qr(r.normal(size=(n, n)))
      q[:, 0] *= np.sign(np.linalg.det(q))
      self.Q = q
    span = np.ptp(raw.nodes, axis=0).max()
    self.t = self.s * span * r.uniform(-30, 30, n) * (r.random() < .6)
    c.describe(scale=self.s, turned=self.Q, moved=self.t)

  def points(self, x):
    return self.s * (np.asarray(x) @ self.Q.T) + self.t

  def back(self, y):
    return (np.asarray(y) - self.t) @ self.Q / self.s

  def raw(self, raw):
    import copy
    other = copy.copy(raw)
    other.nodes = self.points(raw.nodes)
    return other


def same_structure(c, a, b):
  c.equal('same elements', np.asarray(b.elements), np.asarray(a.elements))
  c.check('same groups', list(a.physical_groups) == list(b.physical_groups))
  for g in a.physical_groups:
    c.equal('same facets of a group', b.physical_groups.get(g, -1), a.physical_groups[g])
  c.check('both or none periodic', (a.periodic_links is None) == (b.periodic_links is None))
  if a.periodic_links is not None and b.periodic_links is not None:
    c.equal('same links', b.periodic_links, a.periodic_links)
  c.check('both or none partitioned', (a.partitions is None) == (b.partitions is None))
  if a.partitions is not None and b.partitions is not None:
    c.equal('same partitions', b.partitions, a.partitions)


def random_raw(r, ndim, size='small', periodic=None):
  from swirlmon import gen
  if periodic is None:
    periodic = r.random() < .5
  raw = gen.random_periodic_box(r, ndim, maxcount=3 if ndim < 3 else 2, side_groups=True) if periodic else (
      gen.random_mesh(r, ndim, size))
  bd = raw.groups.get('boundary')
  if bd is not None and len(bd) > 1:
    raw.groups = dict(raw.groups, part=bd[r.permutation(len(bd))[:int(r.integers(1, len(bd) + 1))]])
  return raw


def refined(raw, kind, n):
  from swirlmon import gen
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  pm = gen.to_premesh(raw)
  if n > 2:
    pm = refine_premesh(pm, gridpoints_1d=Nodes1D.create(num_points=n, node_type=NodeType(kind)))
  return pm


def part_structure(mon):
  import jax.numpy as jnp
  from swirlmon import gen
  from swirl_fem.common.mesh_partitioner import partition
  from swirl_fem.common.premesh_commons import unit_cube_mesh
  from swirl_fem.core.premesh import Premesh
  for c in mon.cases('structure', 40, 2000):
    with c:
      r = c.rng
      ndim = int(r.integers(1, 4))
      raw = random_raw(r, ndim)
      c.describe(mesh=raw.kind, nodes=raw.nodes, elements=raw.elements, groups=raw.groups, links=raw.links)
      mv = Motion(c, raw)
      kind = str(r.choice(['gauss_lobatto_legendre', 'newton_cotes']))
      n = int(r.integers(2, {1: 7, 2: 6, 3: 4}[ndim] + 1))
      other = mv.raw(raw)
      if raw.links is None and r.random() < .6:
        parts = int(r.integers(1, min(len(raw.elements), 4) + 1))
        pa, pb = partition(gen.to_premesh(raw), parts), partition(gen.to_premesh(other), parts)
        same_structure(c, pa, pb)
        c.event('partitioned')
      a, b = refined(raw, kind, n), refined(other, kind, n)
      same_structure(c, a, b)
      span = np.abs(raw.nodes).max()
      c.close('same points', mv.back(b.node_coords), a.node_coords, rtol=1e-12, scale=60 * span)
      ma, mb = a.finalize(), b.finalize()
      for g in a.physical_groups:
        c.equal('same mask', np.asarray(mb.physical_masks[g]), np.asarray(ma.physical_masks[g]), g)
      c.equal('same elements', np.asarray(mb.elements), np.asarray(ma.elements))
      u = jnp.asarray(r.normal(size=len(a.node_coords)))
      c.equal('same exchange', np.asarray(mb.exchange(u)), np.asarray(ma.exchange(u)))
      c.equal('same gather and scatter', np.asarray(mb.scatter(mb.gather(u))), np.asarray(ma.scatter(ma.gather(u))))
      c.event('nodes', len(u))


def part_files(mon):
  import tempfile
  from checks import c10
  from swirlmon import gen
  from swirl_fem.common import mesh_reader
  for c in mon.cases('files', 25, 800):
    with c:
      r = c.rng
      ndim = int(r.integers(2, 4))
      periodic = tuple(sorted(r.choice(ndim, int(r.integers(0, ndim + 1)), replace=False).tolist()))
      raw = gen.box(tuple(int(x) for x in r.integers(1, 4, ndim)), periodic, lengths=r.uniform(.5, 2, ndim))
      mv = Motion(c, raw, turn=ndim == 3)
      c.describe(mesh=raw.kind)
      tags = np.arange(1, len(raw.nodes) + 1)
      blocks = c10._blocks(r, raw.elements, ndim, 1, int(r.integers(1, 3)))
      entities = []
      if raw.links is not None:
        start = 1
        for a in periodic:
          # the links of one direction: one entity each
          sel = raw.links
          jump = raw.nodes[sel[:, 1, 0]] - raw.nodes[sel[:, 0, 0]]
          mine = sel[np.abs(jump).argmax(1) == a]
          blocks += [(ndim - 1, start, c10._to_gmsh(mine[:, 0], ndim - 1)),
                     (ndim - 1, start + 1, c10._to_gmsh(mine[:, 1], ndim - 1))]
          pairs = sorted(set(zip(mine[:, 1].ravel().tolist(), mine[:, 0].ravel().tolist())))
          entities.append((ndim - 1, (start + 1, start), pairs))
          start += 2
      how = str(r.choice(['write22', 'write41']))
      out = []
      d = tempfile.mkdtemp(prefix='c40_')
      try:
        for i, x in enumerate((raw.nodes, mv.points(raw.nodes))):
          path = os.path.join(d, f'{i}.msh')
          getattr(c10.File(x, tags, blocks, entities), how)(path, np.random.default_rng(1))
          out.append(mesh_reader.read(path, ndim))
      finally:
        shutil.rmtree(d)
      a, b = out
      same_structure(c, a, b)
      c.check('all elements', len(a.elements) == len(raw.elements))
      c.close('same points', mv.back(b.node_coords), a.node_coords, rtol=1e-12, scale=60 * np.abs(raw.nodes).max())
      c.event('files', 2)


def part_forms(mon):
  import jax
  import jax.numpy as jnp
  from swirlmon import space
  from swirl_fem.core.fespace import FiniteElementSpace, div, grad
  for c in mon.cases('forms', 6, 400):
    with c:
      r = c.rng
      ndim = int(r.integers(1, 4))
      raw = random_raw(r, ndim)
      c.describe(mesh=raw.kind, nodes=raw.nodes, elements=raw.elements)
      mv = Motion(c, raw)
      kind = str(r.choice(['gauss_lobatto_legendre', 'newton_cotes']))
      n = int(r.integers(2, {1: 7, 2: 5, 3: 4}[ndim] + 1))
      a = refined(raw, kind, n)
      _, _, quad = space.quadrature(r, 2, {1: 8, 2: 6, 3: 4}[ndim])
      if r.random() < .5:
        a = a.replace(node_coords=space.bend(r, np.asarray(a.node_coords), .04))
        b = a.replace(node_coords=mv.points(a.node_coords))
      else:
        b = refined(mv.raw(raw), kind, n)
      Q = jnp.asarray(mv.Q)

      @jax.jit
      def f(m, u, v, s, t, Q):
        fs = FiniteElementSpace.create(m, quad)
        uf, vf = fs.scalar_function(m.gather(u)), fs.vector_function(v[m.elements])
        sc, ve = fs.scalar_function(None), fs.vector_function(None)

        def add(loc):
          if loc.ndim == 2:
            return m.exchange(m.scatter(loc))
          return jnp.stack([m.exchange(m.scatter(loc[..., k])) for k in range(m.ndim)], -1) @ Q
        z = lambda x: ((x - t) @ Q / s)[-1]
        vol = s ** m.ndim
        out = dict(
            volume=(fs.integrate(lambda x: jnp.ones(())), vol), mass=(fs.integrate(lambda x: uf(x) ** 2 * jnp.cos(z(x))), vol),
            divergence=(fs.integrate(lambda x: div(vf)(x) * uf(x)), vol / s),
            stiffness=(add(fs.local_covector(lambda t: lambda x: grad(uf)(x) @ grad(t)(x), (sc,))), vol / s ** 2),
            advection=(add(fs.local_covector(lambda t: lambda x: vf(x) @ grad(uf)(x) * t(x), (sc,))), vol / s),
            convection=(add(fs.local_covector(lambda t: lambda x: (vf(x) @ grad(vf)(x)) @ t(x), (ve,))), vol / s),
            pressure=(add(fs.local_covector(lambda t: lambda x: uf(x) * div(t)(x), (ve,))), vol / s),
            laplacian=(add(fs.local_covector(lambda t: lambda x: jnp.sum(grad(vf)(x) * grad(t)(x)), (ve,))), vol / s ** 2))
        return {k: w / p for k, (w, p) in out.items()}
      u, v = r.normal(size=len(a.node_coords)), r.normal(size=(len(a.node_coords), ndim))
      want = f(a.finalize(), u, v, 1., np.zeros(ndim), np.eye(ndim))
      got = f(b.finalize(), u, v @ mv.Q.T, mv.s, mv.t, mv.Q)
      for k in want:
        w, g = np.asarray(want[k]), np.asarray(got[k])
        c.close(k, g, w, rtol=1e-9, scale=np.abs(w).max() + .1)
      c.event('forms', len(want))


def part_poisson(mon):
  from swirl_fem.examples.poisson import BCType, solve_poisson
  for c in mon.cases('solutions', 8, 500):
    with c:
      r = c.rng
      ndim = int(r.integers(1, 4))
      raw = random_raw(r, ndim, periodic=False)
      mv = Motion(c, raw)
      c.describe(mesh=raw.kind, nodes=raw.nodes, elements=raw.elements)
      kind = str(r.choice(['gauss_lobatto_legendre', 'newton_cotes']))
      n = int(r.integers(2, {1: 7, 2: 5, 3: 3}[ndim] + 1))
      ma, mb = refined(raw, kind, n).finalize(), refined(mv.raw(raw), kind, n).finalize()
      names = [g for g in sorted(raw.groups) if len(raw.groups[g])]
      bcs = {names[int(r.integers(len(names)))]: (BCType.DIRICHLET, 0.)}
      f = r.normal(size=len(ma.node_coords))
      c.describe(kind=kind, points=n, groups=sorted(bcs))
      x, y = [np.asarray(solve_poisson(m, f, bcs, rtol=1e-12)) for m in (ma, mb)]
      c.check('finite', np.isfinite(x).all() and np.isfinite(y).all())
      c.close('solution', y / mv.s ** 2, x, rtol=1e-7, atol=0, scale=np.abs(x).max() + 1e-300)
      c.event('solutions')


def part_solver(mon):
  import jax
  import jax.numpy as jnp
  from swirl_fem.linalg.cg import cg
  run = jax.jit(lambda A, M, b, x0, tol: cg(lambda v: A @ v, b, x0, tol=tol, atol=0., maxiter=200, M=lambda v: M @ v))
  for c in mon.cases('systems', 60, 3000):
    with c:
      r = c.rng
      n = int(r.choice([1, 2, 3, 5, 8, 13, 20]))
      q, _ = np.linalg.qr(r.normal(size=(n, n)))
      A = (q * 10. ** r.uniform(-2, 2, n)) @ q.T
      A = (A + A.T) / 2
      M = np.diag(r.uniform(.5, 2, n))
      b, x0 = r.normal(size=n), r.normal(size=n) * (r.random() < .5)
      tol = 10. ** r.uniform(-10, -2)
      i, j = [int(v) for v in r.integers(-40, 41, 2)]
      c.describe(matrix=A, rhs=b, start=x0, tol=tol, powers=[i, j])
      a1 = run(A, M, b, x0, tol)
      a2 = run(A * 2. ** i, M, b * 2. ** j, x0 * 2. ** (j - i), tol)
      want, got = np.asarray(a1[0]), np.asarray(a2[0]) * 2. ** (i - j)
      # powers of two: every operation of the recurrence rounds the same way
      c.close('solution in other units', got, want, rtol=1e-10, atol=0, scale=np.abs(want).max() + np.abs(x0).max())
      c.event('systems')


def part_flow(mon):
  import jax
  from swirlmon import flow
  for c in mon.cases('flows', 2, 100, minimum=1):
    with c:
      r = c.rng
      ndim = 2 if r.random() < .8 else 3
      raw = random_raw(r, ndim, size='tiny' if ndim == 3 else 'small')
      mv = Motion(c, raw)
      s, Q, vol = mv.s, mv.Q, mv.s ** ndim
      dirichlet = [g for g in sorted(raw.groups) if r.random() < .6]
      order, over = int(r.integers(2, {2: 6, 3: 4}[ndim])), int(r.integers(0, 4))
      make = lambda w: flow.random_flow(c, ndim, order=order, overint=over, raw=w, dirichlet=dirichlet)
      fa, fb = make(raw), make(mv.raw(raw))
      span = np.abs(raw.nodes).max()
      c.close('same points', mv.back(fb.vx), fa.vx, rtol=1e-12, scale=60 * span)
      c.close('same points', mv.back(fb.px), fa.px, rtol=1e-12, scale=60 * span)
      us, ps = [flow.continuous(fa, r) for _ in range(2)], [r.normal(size=fa.P) for _ in range(2)]
      ub, pb = [s * u @ Q.T for u in us], [s ** 2 * p for p in ps]

      def run(sem, us, ps, s, vol, Q):
        u, p = us[-1], ps[-1]
        out = dict(B=sem.B(u) @ Q / (vol * s), Bi=sem.Bi(sem.B(u)) @ Q / s, A=sem.A(u) @ Q / (vol / s),
                   C=sem.C(u) @ Q / (vol * s), Dt=sem.Dt(p) @ Q / (vol * s), filter=sem.filter(u, alpha=.3) @ Q / s,
                   mass=sem.velocity_mass_diag / vol, mask=sem.velocity.interior_mask,
                   D=sem.D(u) / vol, E=sem.E(p, .1, 2) / vol, M=sem.pressure.B(p) / (vol * s ** 2))
        if ndim == 2:
          out['vorticity'] = sem.vorticity(u)
        return out
      va = jax.jit(lambda us, ps: run(fa.sem, us, ps, 1., 1., np.eye(ndim)))(us, ps)
      vb = jax.jit(lambda us, ps: run(fb.sem, us, ps, s, vol, Q))(ub, pb)
      for k in va:
        w = np.asarray(va[k])
        c.close('operator', np.asarray(vb[k]), w, rtol=1e-9, scale=np.abs(w).max() + 1e-3, msg=k)
      c.event('operators', len(va))
      ev = np.linalg.eigvalsh(flow.E(fa, .1, 1.))
      closed = flow.closed(fa)
      if not fa.mask.any() or ev.max() < 1e-12 or np.sum(ev < 1e-9 * ev.max()) != int(closed):
        continue
      cond = ev.max() / ev[ev > 1e-9 * ev.max()].min()
      if cond > 1e5:
        continue
      tol = 1e-12
      k = 2
      conv = bool(r.random() < .7)

      def step(sem, us, ps, mu):
        f = sem.B(us[-1]) - (sem.C(us[-1]) if conv else 0.)
        return sem.stokes_one_step(us, ps, f, mu=mu, dt=.02, time_order=k, tol=tol, project_out_nullspace=closed)[:2]
      xu, xp = jax.jit(lambda us, ps: step(fa.sem, us, ps, .1))(us, ps)
      yu, yp = jax.jit(lambda us, ps: step(fb.sem, us, ps, .1 * s ** 2))(ub, pb)
      rtol = max(1e-8, 20 * tol * cond)
      c.close('velocity of a step', np.asarray(yu) @ Q / s, xu, rtol=rtol, scale=np.abs(xu).max() + 1)
      xp, yp = np.asarray(xp), np.asarray(yp) / s ** 2
      if closed:  # up to a constant
        xp, yp = [w - (fa.Bp @ w).sum() / fa.Bp.sum() for w in (xp, yp)]
      c.close('pressure of a step', yp, xp, rtol=10 * rtol, scale=np.abs(xp).max() + 1)
      c.event('steps')


def part_parted(mon):
  import jax
  import jax.numpy as jnp
  from jax.sharding import Mesh as DeviceMesh
  from swirlmon import dist
  from swirl_fem.communication.jit_distributed import jit_distributed
  from swirl_fem.core.fespace import FiniteElementSpace, grad
  from swirl_fem.core.interpolation import Quadrature1D, NodeType
  for c in mon.cases('partitions', 6, 300):
    with c:
      r = c.rng
      ndim, P = int(r.integers(1, 4)), int(r.integers(2, 5))
      raw = dist.partitioned_raw(r, ndim, P)
      mv = Motion(c, raw)
      c.describe(mesh=raw.kind, nodes=raw.nodes, elements=raw.elements, links=raw.links, partitions=raw.partitions)
      n = int(r.integers(2, {1: 6, 2: 5, 3: 3}[ndim] + 1))
      quad = Quadrature1D.create(num_points=n + 1, quadrature_type=NodeType('gauss_legendre'))
      axis = 'i'
      dm = DeviceMesh(np.array(jax.devices()[:P]), (axis,))
      vol = mv.s ** ndim
      a, b = [refined(w, 'gauss_lobatto_legendre', n).finalize(axis_name=axis) for w in (raw, mv.raw(raw))]
      for name in ('elements', 'physical_masks'):
        la, lb = jax.tree.leaves(getattr(a, name)), jax.tree.leaves(getattr(b, name))
        c.check('same local structure', len(la) == len(lb) and all(
            np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(la, lb)), name)
      xa = np.asarray(a.node_coords)
      u = np.sin(xa @ r.uniform(-1, 1, ndim) + r.uniform(0, 6))

      def f(m, u):
        fs = FiniteElementSpace.create(m, quad)
        uf = fs.scalar_function(m.gather(u))
        loc = fs.local_covector(lambda t: lambda x: grad(uf)(x) @ grad(t)(x), (fs.scalar_function(None),))
        ones = fs.local_covector(lambda t: lambda x: uf(x) * t(x), (fs.scalar_function(None),))
        return m.exchange(m.scatter(loc)), m.exchange(m.scatter(ones)), m.exchange(u), fs.integrate(
            lambda x: uf(x) ** 2)[None]
      ra, rb = [[np.asarray(x) for x in jit_distributed(f, dm, axis)(m, jnp.asarray(u))] for m in (a, b)]
      for k, name, p in ((0, 'stiffness', vol / mv.s ** 2), (1, 'mass', vol), (2, 'exchange', 1.), (3, 'integral', vol)):
        real = np.isfinite(ra[k])
        c.close(name, rb[k] / p, ra[k], rtol=1e-9, scale=np.abs(ra[k]).max() + 1e-3)
      c.event('partitions', P)

"""C37: relabelling a mesh relabels the results and changes nothing else."""

import numpy as np

PARTS = [dict(name='refine'), dict(name='spaces1', fn='spaces', budget={'quick': 40.}),
         dict(name='spaces2', fn='spaces', budget={'quick': 40.}), dict(name='poisson', budget={'quick': 40.}),
         dict(name='flow1', fn='flow', budget={'quick': 40.}), dict(name='flow2', fn='flow', budget={'quick': 40.}),
         dict(name='parted', devices=4, budget={'quick': 40.})]
RULE = ('A case is a random mesh and a relabelled copy: nodes renumbered, elements permuted, corners rotated, group facets '
        'and links reordered, reversed and swapped. Non-trivial when results of both meshes were compared node by node, '
        'matched by coordinates.')
ASSUMPTIONS = ['Rotations of the corner order keep the orientation of elements.',
               'Solver results agree to the tolerance of the solver times the condition number.']


def matching(c, a, b):
  """perm with b[perm[i]] == a[i]."""
  a, b = np.asarray(a), np.asarray(b)
  if not c.check('number of nodes', a.shape == b.shape, f'{a.shape} {b.shape}'):
    return None
  d = np.empty(len(a), int)
  worst = 0.
  for i in range(0, len(a), 256):
    m = np.abs(a[i:i + 256, None] - b[None]).max(-1)
    d[i:i + 256] = m.argmin(1)
    worst = max(worst, m.min(1).max())
  scale = np.abs(a).max() + 1
  ok = c.check('same node coordinates', worst <= 1e-10 * scale and len(set(d.tolist())) == len(d),
               f'worst {worst:.1e}, {len(set(d.tolist()))} of {len(d)} matched')
  return d if ok else None


def pair(c, ndim, periodic=None, size='small'):
  from swirlmon import gen
  r = c.rng
  if periodic is None:
    periodic = r.random() < .5
  raw = gen.random_periodic_box(r, ndim, maxcount=3 if ndim < 3 else 2, side_groups=True) if periodic else (
      gen.random_mesh(r, ndim, size))
  bd = raw.groups.get('boundary')
  if bd is not None and len(bd) > 1:
    raw.groups = dict(raw.groups, part=bd[r.permutation(len(bd))[:int(r.integers(1, len(bd) + 1))]])
  other = gen.scramble(r, raw)[0]
  # groups are listed in another order
  keys = list(other.groups)
  other.groups = {k: other.groups[k] for k in [keys[i] for i in r.permutation(len(keys))]}
  c.describe(mesh=raw.kind, nodes=raw.nodes, elements=raw.elements, groups=raw.groups, links=raw.links,
             other_nodes=other.nodes, other_elements=other.elements, other_links=other.links)
  return raw, other


def refined(raw, kind, n):
  from swirlmon import gen
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  pm = gen.to_premesh(raw)
  if n > 2:
    pm = refine_premesh(pm, gridpoints_1d=Nodes1D.create(num_points=n, node_type=NodeType(kind)))
  return pm


def part_refine(mon):
  import jax.numpy as jnp
  from swirlmon import gen
  for c in mon.cases('structure', 40, 2000):
    with c:
      r = c.rng
      ndim = int(r.integers(1, 4))
      raw, other = pair(c, ndim)
      kind = str(r.choice(['gauss_lobatto_legendre', 'newton_cotes']))
      n = int(r.integers(2, {1: 7, 2: 6, 3: 4}[ndim] + 1))
      c.describe(kind=kind, points=n)
      a, b = refined(raw, kind, n), refined(other, kind, n)
      d = matching(c, a.node_coords, b.node_coords)
      if d is None:
        continue
      rows = lambda e: sorted(tuple(sorted(x)) for x in np.asarray(e).reshape(len(e), -1).tolist())
      c.check('same elements', rows(d[np.asarray(a.elements)]) == rows(b.elements))
      c.check('same groups', set(a.physical_groups) == set(b.physical_groups), sorted(b.physical_groups))
      for g in a.physical_groups:
        c.check('same facets of a group', rows(d[np.asarray(a.physical_groups[g])]) == rows(b.physical_groups[g]), g)
      ca, cb = gen.link_classes(len(d), a.periodic_links), gen.link_classes(len(d), b.periodic_links)
      ident = lambda cl: np.unique(cl, return_inverse=True)[1]
      pairs = set(zip(ident(ca).tolist(), ident(cb)[d].tolist()))
      c.check('same identification', len(pairs) == len(np.unique(ca)) == len(np.unique(cb)),
              f'{len(np.unique(ca))} and {len(np.unique(cb))} classes')
      ma, mb = a.finalize(), b.finalize()
      for g in a.physical_groups:
        c.check('same mask', np.array_equal(np.asarray(ma.physical_masks[g]), np.asarray(mb.physical_masks[g])[d]), g)
      u = r.normal(size=len(d))
      ub = np.empty_like(u)
      ub[d] = u
      ja, jb = jnp.asarray(u), jnp.asarray(ub)
      c.close('exchange', ma.exchange(ja), np.asarray(mb.exchange(jb))[d], rtol=1e-13, scale=np.abs(u).max() * 8)
      c.close('gather and scatter', ma.scatter(ma.gather(ja)), np.asarray(mb.scatter(mb.gather(jb)))[d], rtol=1e-13,
              scale=np.abs(u).max() * 16)
      c.event('nodes', len(d))


def part_spaces(mon):
  import jax
  import jax.numpy as jnp
  from swirlmon import space
  from swirl_fem.core.fespace import FiniteElementSpace, div, grad
  for c in mon.cases('forms', 6, 400):
    with c:
      r = c.rng
      ndim = int(r.integers(1, 4))
      raw, other = pair(c, ndim)
      kind = str(r.choice(['gauss_lobatto_legendre', 'newton_cotes']))
      n = int(r.integers(2, {1: 7, 2: 5, 3: 4}[ndim] + 1))
      a, b = refined(raw, kind, n), refined(other, kind, n)
      d = matching(c, a.node_coords, b.node_coords)
      if d is None:
        continue
      _, _, quad = space.quadrature(r, 2, {1: 8, 2: 6, 3: 4}[ndim])
      if r.random() < .5:
        x = space.bend(r, np.asarray(a.node_coords), .04)
        y = np.empty_like(x)
        y[d] = x
        a, b = a.replace(node_coords=x), b.replace(node_coords=y)

      @jax.jit
      def f(m, u, v):
        fs = FiniteElementSpace.create(m, quad)
        uf, vf = fs.scalar_function(m.gather(u)), fs.vector_function(v[m.elements])
        sc, ve = fs.scalar_function(None), fs.vector_function(None)

        def add(loc):
          if loc.ndim == 2:
            return m.exchange(m.scatter(loc))
          return jnp.stack([m.exchange(m.scatter(loc[..., k])) for k in range(m.ndim)], -1)
        return dict(
            volume=fs.integrate(lambda x: jnp.ones(())), mass=fs.integrate(lambda x: uf(x) ** 2 * jnp.cos(x[-1])),
            divergence=fs.integrate(lambda x: div(vf)(x) * uf(x)),
            stiffness=add(fs.local_covector(lambda t: lambda x: grad(uf)(x) @ grad(t)(x), (sc,))),
            advection=add(fs.local_covector(lambda t: lambda x: vf(x) @ grad(uf)(x) * t(x), (sc,))),
            convection=add(fs.local_covector(lambda t: lambda x: (vf(x) @ grad(vf)(x)) @ t(x), (ve,))),
            pressure=add(fs.local_covector(lambda t: lambda x: uf(x) * div(t)(x), (ve,))))
      u, v = r.normal(size=len(d)), r.normal(size=(len(d), ndim))
      ub, vb = np.empty_like(u), np.empty_like(v)
      ub[d], vb[d] = u, v
      got, want = f(b.finalize(), ub, vb), f(a.finalize(), u, v)
      for k in want:
        w, g = np.asarray(want[k]), np.asarray(got[k])
        c.close(k, g[d] if g.ndim else g, w, rtol=1e-10 if w.ndim else 1e-9, scale=np.abs(w).max() + .1)
      c.event('forms', len(want))


def part_poisson(mon):
  from swirlmon import gen
  from swirl_fem.examples.poisson import BCType, solve_poisson
  for c in mon.cases('solutions', 8, 500):
    with c:
      r = c.rng
      ndim = int(r.integers(1, 4))
      raw, other = pair(c, ndim, periodic=False)
      kind = str(r.choice(['gauss_lobatto_legendre', 'newton_cotes']))
      n = int(r.integers(2, {1: 7, 2: 5, 3: 3}[ndim] + 1))
      a, b = refined(raw, kind, n), refined(other, kind, n)
      d = matching(c, a.node_coords, b.node_coords)
      if d is None:
        continue
      ma, mb = a.finalize(), b.finalize()
      names = [g for g in sorted(raw.groups) if len(raw.groups[g])]
      bcs = {names[int(r.integers(len(names)))]: (BCType.DIRICHLET, 0.)}
      f = r.normal(size=len(d))
      fb = np.empty_like(f)
      fb[d] = f
      c.describe(kind=kind, points=n, groups=sorted(bcs))
      x, y = [np.asarray(solve_poisson(m, w, bcs, rtol=1e-12)) for m, w in ((ma, f), (mb, fb))]
      c.check('finite', np.isfinite(x).all() and np.isfinite(y).all())
      c.close('solution', y[d], x, rtol=1e-7, scale=np.abs(x).max() + 1e-300)
      c.event('solutions')


def part_flow(mon):
  import jax
  from swirlmon import flow
  for c in mon.cases('flows', 2, 100, minimum=1):
    with c:
      r = c.rng
      ndim = 2 if r.random() < .8 else 3
      raw, other = pair(c, ndim, size='tiny' if ndim == 3 else 'small')
      dirichlet = [g for g in sorted(raw.groups) if r.random() < .6]
      order, over = int(r.integers(2, {2: 6, 3: 4}[ndim])), int(r.integers(0, 4))
      make = lambda w: flow.random_flow(c, ndim, order=order, overint=over, raw=w, dirichlet=dirichlet)
      fa, fb = make(raw), make(other)
      dv, dp = matching(c, fa.vx, fb.vx), matching(c, fa.px, fb.px)
      if dv is None or dp is None:
        continue

      def move(x, d):
        y = np.empty_like(x)
        y[d] = x
        return y
      us, ps = [flow.continuous(fa, r) for _ in range(2)], [r.normal(size=fa.P) for _ in range(2)]
      ub, pb = [move(u, dv) for u in us], [move(p, dp) for p in ps]

      def run(sem, us, ps):
        u, p = us[-1], ps[-1]
        out = dict(B=sem.B(u), Bi=sem.Bi(sem.B(u)), A=sem.A(u), C=sem.C(u), Dt=sem.Dt(p), filter=sem.filter(u, alpha=.3),
                   mass=sem.velocity_mass_diag, mask=sem.velocity.interior_mask)
        if ndim == 2:
          out['vorticity'] = sem.vorticity(u)
        return out, dict(D=sem.D(u), E=sem.E(p, .1, 2), M=sem.pressure.B(p))
      (va, pa), (vb, pbb) = [jax.jit(lambda us, ps, s=s: run(s, us, ps))(u, p)
                             for s, u, p in ((fa.sem, us, ps), (fb.sem, ub, pb))]
      for k in va:
        w = np.asarray(va[k])
        c.close('velocity operator', np.asarray(vb[k])[dv], w, rtol=1e-10, scale=np.abs(w).max() + 1e-3, msg=k)
      for k in pa:
        w = np.asarray(pa[k])
        c.close('pressure operator', np.asarray(pbb[k])[dp], w, rtol=1e-10, scale=np.abs(w).max() + 1e-3, msg=k)
      c.event('operators', len(va) + len(pa))
      ev = np.linalg.eigvalsh(flow.E(fa, .1, 1.))
      closed = flow.closed(fa)
      if not fa.mask.any() or ev.max() < 1e-12 or np.sum(ev < 1e-9 * ev.max()) != int(closed):
        continue
      cond = ev.max() / ev[ev > 1e-9 * ev.max()].min()
      if cond > 1e5:
        continue
      tol = 1e-12
      k = 2

      def step(sem, us, ps):
        return sem.stokes_one_step(us, ps, sem.B(us[-1]) - sem.C(us[-1]), mu=.1, dt=.02, time_order=k, tol=tol,
                                   project_out_nullspace=closed)[:2]
      (xu, xp), (yu, yp) = [jax.jit(lambda us, ps, s=s: step(s, us, ps))(u, p)
                            for s, u, p in ((fa.sem, us, ps), (fb.sem, ub, pb))]
      rtol = max(1e-8, 20 * tol * cond)
      c.close('velocity of a step', np.asarray(yu)[dv], xu, rtol=rtol, scale=np.abs(xu).max() + 1)
      xp, yp = np.asarray(xp), np.asarray(yp)[dp]
      if closed:  # up to a constant
        xp, yp = [w - (fa.Bp @ w).sum() / fa.Bp.sum() for w in (xp, yp)]
      c.close('pressure of a step', yp, xp, rtol=10 * rtol, scale=np.abs(xp).max() + 1)
      c.event('steps')


def part_parted(mon):
  """Relabelled partitioned meshes, with the partitions renamed as well."""
  import jax
  import jax.numpy as jnp
  from jax.sharding import Mesh as DeviceMesh
  from swirlmon import dist, gen
  from swirl_fem.communication.jit_distributed import jit_distributed
  from swirl_fem.core.fespace import FiniteElementSpace, grad
  from swirl_fem.core.interpolation import Quadrature1D, NodeType
  for c in mon.cases('partitions', 6, 300):
    with c:
      r = c.rng
      ndim, P = int(r.integers(1, 4)), int(r.integers(2, 5))
      raw = dist.partitioned_raw(r, ndim, P)
      other = gen.scramble(r, raw)[0]
      other.partitions = r.permutation(P)[other.partitions]
      c.describe(mesh=raw.kind, nodes=raw.nodes, elements=raw.elements, links=raw.links, partitions=raw.partitions,
                 other_elements=other.elements, other_partitions=other.partitions)
      n = int(r.integers(2, {1: 6, 2: 5, 3: 3}[ndim] + 1))
      quad = Quadrature1D.create(num_points=n + 1, quadrature_type=NodeType('gauss_legendre'))
      k, ph = r.uniform(-1, 1, ndim), r.uniform(0, 6)
      axis = 'i'
      dm = DeviceMesh(np.array(jax.devices()[:P]), (axis,))

      def f(m):
        fs = FiniteElementSpace.create(m, quad)
        u = jnp.sin(m.node_coords @ k + ph)
        uf = fs.scalar_function(m.gather(u))
        loc = fs.local_covector(lambda t: lambda x: grad(uf)(x) @ grad(t)(x), (fs.scalar_function(None),))
        ones = fs.local_covector(lambda t: lambda x: uf(x) * t(x), (fs.scalar_function(None),))
        return m.exchange(m.scatter(loc)), m.exchange(m.scatter(ones)), m.exchange(jnp.ones_like(u)), fs.integrate(
            lambda x: uf(x) ** 2)[None]
      tables = []
      for w in (raw, other):
        m = refined(w, 'gauss_lobatto_legendre', n).finalize(axis_name=axis)
        out = [np.asarray(x) for x in jit_distributed(f, dm, axis)(m)]
        els, xyz = np.asarray(m.elements), np.asarray(m.node_coords)
        pts, vals = [], []
        for p in range(P):
          used = np.unique(els[p])
          used = used[used >= 0]
          pts.append(xyz[p][used])
          vals.append(np.stack([x.reshape(xyz.shape[:2])[p][used] for x in out[:3]], -1))
        tables.append((np.concatenate(pts), np.concatenate(vals), out[3].sum()))
      (xa, va, ia), (xb, vb, ib) = tables
      scale = np.abs(xa).max() + 1
      d = np.abs(xa[:, None] - xb[None]).max(-1)
      c.check('same points', d.min(1).max() < 1e-10 * scale and d.min(0).max() < 1e-10 * scale,
              f'{d.min(1).max():.1e} {d.min(0).max():.1e}')
      c.check('number of local copies', len(xa) == len(xb), f'{len(xa)} {len(xb)}')
      c.close('distributed result', vb[d.argmin(1)], va, rtol=1e-10, scale=np.abs(va).max())
      c.close('distributed integral', ib, ia, rtol=1e-11, scale=abs(ia) + 1e-3)
      c.event('copies', len(xa))

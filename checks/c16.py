import numpy as np

PARTS = [dict(name='dense1', fn='dense'), dict(name='dense2', fn='dense'), dict(name='tolerance'),
         dict(name='convergence'), dict(name='mixed')]
RULE = ('A case is a mesh (unstructured, curved, refined), a forcing and a set of boundary conditions; '
        'non-trivial when the solution was compared with a dense solve of an independently assembled '
        'system, with an exact solution, or with the tolerance contract.')
ASSUMPTIONS = ['Meshes without periodic links (the solver does not exchange periodic images).',
               'The assembled system uses the documented quadrature of order + (ndim + 1) // 2 points.']


def _dense(s, masks, forcing):
  """Independent assembly and solve."""
  from swirlmon import ref
  ndim = s.ndim
  x, w = ref.gl(s.n - 1 + (ndim + 1) // 2)
  geo = ref.Geometry(s.coords[s.els], s.nodes1d, x, w)
  G = geo.physical_gradients()
  A = ref.assemble(s.els, np.einsum('eq,eqnj,eqmj->enm', geo.wdet, G, G), s.N)
  M = ref.assemble(s.els, np.einsum('eq,qn,qm->enm', geo.wdet, geo.phi, geo.phi), s.N)
  free = ~masks
  u = np.zeros(s.N)
  b = M @ forcing
  if free.any():
    u[free] = np.linalg.solve(A[np.ix_(free, free)], b[free])
  return u, A, b, free


def _space(c, ndim, groups=True, curve=None, raw=None):
  from swirlmon import gen, space
  raw = raw or gen.random_mesh(c.rng, ndim, 'small')
  bd = raw.groups['boundary']
  if groups:
    cut = int(c.rng.integers(1, len(bd) + 1))
    perm = c.rng.permutation(len(bd))
    raw.groups = {'a': bd[perm[:cut]], 'boundary': bd}
    if cut < len(bd):
      raw.groups['b'] = bd[perm[cut:]]
  return space.random_space(c, ndim, raw=raw, hi={1: 7, 2: 5, 3: 3}[ndim], curve=curve,
                            kinds=['gauss_lobatto_legendre', 'newton_cotes'], qkinds=['gauss_legendre'])


def _masks(s, names):
  out = np.zeros(s.N, bool)
  for n in names:
    out[np.unique(np.asarray(s.pm.physical_groups[n]))] = True
  return out


def part_dense(mon):
  import jax.numpy as jnp
  from swirl_fem.examples.poisson import solve_poisson, BCType
  for c in mon.cases('system', 22, 700):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      s = _space(c, ndim)
      names = sorted(s.pm.physical_groups)
      dirichlet = [str(n) for n in c.rng.choice(names, int(c.rng.integers(1, len(names) + 1)), replace=False)]
      bcs = {n: (BCType.DIRICHLET if n in dirichlet else BCType.NEUMANN, 0) for n in names
             if n in dirichlet or c.rng.random() < .5}
      f = c.rng.normal(size=s.N)
      c.describe(dirichlet=dirichlet, conditions=len(bcs), forcing=f)
      u = np.asarray(solve_poisson(s.mesh, jnp.asarray(f), bcs, rtol=1e-12))
      want, A, b, free = _dense(s, _masks(s, dirichlet), f)
      c.check('zero on the Dirichlet nodes', np.all(u[~free] == 0))
      c.close('solution', u, want, rtol=1e-8, atol=1e-12)
      c.event('unknowns', free.sum())
      c.trivial = not free.any()


def part_tolerance(mon):
  import jax.numpy as jnp
  from swirl_fem.examples.poisson import solve_poisson, BCType
  for c in mon.cases('tolerance', 16, 500):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      s = _space(c, ndim)
      bcs = {'a': (BCType.DIRICHLET, 0)}
      f, g = c.rng.normal(size=(2, s.N))
      _, A, b, free = _dense(s, _masks(s, ['a']), f)
      norm = np.linalg.norm(b[free])
      rtol, atol = float(10 ** c.rng.uniform(-9, -1)), 0.
      if c.rng.random() < .4:
        rtol, atol = 0., float(10 ** c.rng.uniform(-8, -2)) * norm
      c.describe(rtol=rtol, atol=atol, forcing=f)
      u = np.asarray(solve_poisson(s.mesh, jnp.asarray(f), bcs, rtol=rtol, atol=atol))
      r = (b - A @ u)[free]
      c.check('residual within the tolerance',
              np.linalg.norm(r) <= max(rtol * norm, atol) * (1 + 1e-6) + 1e-12 * (norm + np.abs(A).sum(1).max() * np.abs(u).max()),
              f'{np.linalg.norm(r)} of {norm}')
      for kw in (dict(),):
        v = np.asarray(solve_poisson(s.mesh, jnp.asarray(f), bcs, **kw))
        r = (b - A @ v)[free]
        c.check('default tolerance', np.linalg.norm(r) <= 1e-5 * norm * (1 + 1e-6) + 1e-13, np.linalg.norm(r))
      al = float(c.rng.normal())
      uf, ug, uc = (np.asarray(solve_poisson(s.mesh, jnp.asarray(q), bcs, rtol=1e-12))
                    for q in (f, g, f + al * g))
      c.close('linear in the forcing', uc, uf + al * ug, rtol=1e-8,
              scale=np.abs(uf).max() + abs(al) * np.abs(ug).max())
      c.event('solves', 5)


def part_convergence(mon):
  """Manufactured solutions on distorted boxes: spectral and algebraic decay."""
  import jax.numpy as jnp
  from swirlmon import gen, space
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.examples.poisson import solve_poisson, BCType
  for c in mon.cases('manufactured', 9, 200):
    with c:
      ndim = 1 + c.index % 3
      k = c.rng.integers(1, 3, ndim) if ndim < 3 else np.ones(3, int)
      exact = lambda x: np.prod(np.sin(np.pi * k * x), axis=-1)
      f = lambda x: np.pi ** 2 * np.sum(k ** 2) * exact(x)
      counts = tuple(int(v) for v in c.rng.integers(2, 4 if ndim < 3 else 3, ndim))
      raw = gen.box(counts)
      inner = np.all((raw.nodes > 1e-9) & (raw.nodes < 1 - 1e-9), axis=1)
      raw.nodes = raw.nodes + inner[:, None] * c.rng.uniform(-.12, .12, raw.nodes.shape) / np.array(counts)
      raw, _, _ = gen.scramble(c.rng, raw, 'proper')
      c.describe(modes=k, mesh=raw.kind, nodes=raw.nodes)
      errs = []
      orders = {1: [3, 5, 7, 9], 2: [3, 5, 7], 3: [3, 5]}[ndim]
      for p in orders:
        pm = refine_premesh(gen.to_premesh(raw), gridpoints_1d=Nodes1D.create(
            num_points=p, node_type=NodeType.GAUSS_LOBATTO_LEGENDRE))
        mesh = pm.finalize()
        x = np.asarray(pm.node_coords)
        u = np.asarray(solve_poisson(mesh, jnp.asarray(f(x)), {'boundary': (BCType.DIRICHLET, 0)}, rtol=1e-11))
        errs.append(np.abs(u - exact(x)).max())
      c.describe(errors=errs)
      c.check('error decays spectrally', all(b < .35 * a + 1e-8 for a, b in zip(errs, errs[1:])), errs)
      c.check('solution is accurate', errs[-1] < {1: 1e-3, 2: 3e-2, 3: .15}[ndim], errs)
      c.event('solves', len(errs))
  for c in mon.cases('h-convergence', 2, 30):
    with c:
      ndim = 1 + c.index % 2
      errs = []
      for n in (4, 8, 16):
        raw = gen.box((n,) * ndim)
        mesh = gen.to_premesh(raw).finalize()
        ex = np.prod(np.sin(np.pi * raw.nodes), axis=1)
        u = np.asarray(solve_poisson(mesh, jnp.asarray(ndim * np.pi ** 2 * ex),
                                     {'boundary': (BCType.DIRICHLET, 0)}, rtol=1e-11))
        errs.append(np.abs(u - ex).max())
      c.describe(ndim=ndim, errors=errs)
      rates = [np.log2(a / b) for a, b in zip(errs, errs[1:])]
      c.check('second order for linear elements', all(1.7 < r < 2.4 for r in rates), rates)


def part_mixed(mon):
  """Natural conditions: solutions that vary in one direction only; rejections."""
  import jax.numpy as jnp
  from swirlmon import gen
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.examples.poisson import solve_poisson, BCType
  for c in mon.cases('one direction', 14, 300):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      counts = tuple(int(v) for v in c.rng.integers(1, 4 if ndim < 3 else 3, ndim))
      L = c.rng.uniform(.5, 2, ndim)
      raw = gen.box(counts, lengths=L, side_groups=True)
      raw, _, _ = gen.scramble(c.rng, raw, 'proper')
      a = int(c.rng.integers(ndim))
      both = bool(c.rng.random() < .5)
      p = int(c.rng.integers(3, 6 if ndim < 3 else 5))
      c.describe(counts=counts, direction=a, both=both, points=p)
      pm = refine_premesh(gen.to_premesh(raw), gridpoints_1d=Nodes1D.create(
          num_points=p, node_type=NodeType.GAUSS_LOBATTO_LEGENDRE))
      x = np.asarray(pm.node_coords)[:, a]
      # -u'' = 1: quadratic, hence in the space
      want = x * (L[a] - x) / 2 if both else x * (2 * L[a] - x) / 2
      bcs = {f'lo{a}': (BCType.DIRICHLET, 0), f'hi{a}': (BCType.DIRICHLET if both else BCType.NEUMANN, 0.)}
      u = np.asarray(solve_poisson(pm.finalize(), jnp.ones(len(x)), bcs, rtol=1e-12))
      c.close('exact mixed solution', u, want, rtol=1e-8)
      c.event('solves')
  for c in mon.cases('reject', 6, 30):
    with c:
      ndim = 1 + c.index % 3
      raw = gen.box((2,) * ndim)
      mesh = gen.to_premesh(raw).finalize()
      f = jnp.ones(len(raw.nodes))
      c.describe(ndim=ndim)
      bad = [1., -.5, np.zeros(3), jnp.ones(len(raw.nodes)), lambda x: 0., 3]
      for v in bad:
        for t in (BCType.DIRICHLET, BCType.NEUMANN):
          c.raises('unsupported value is rejected', NotImplementedError,
                   lambda: solve_poisson(mesh, f, {'boundary': (t, v)}))

import itertools

import numpy as np

PARTS = [dict(name='geometry1', fn='geometry'), dict(name='geometry2', fn='geometry'),
         dict(name='integral1', fn='integral'), dict(name='integral2', fn='integral'),
         dict(name='exact'), dict(name='motion')]
RULE = ('A case is a mesh (unstructured, refined with any node family, curved, any orientation) with a '
        'quadrature rule; non-trivial when geometry or integrals were compared with an independent '
        'numpy evaluation of the element maps or with a closed form.')
ASSUMPTIONS = ['Closed-form integrals are taken on meshes whose union is a known polytope.']


def part_geometry(mon):
  import jax
  from swirlmon import space
  from swirl_fem.core.fespace import FiniteElementSpace
  for c in mon.cases('space', 40, 1500):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      s = space.random_space(c, ndim, orient=str(c.rng.choice(['proper', 'all'])), qlo=1)
      make = lambda m: (lambda f: (f.quad_coords, f.jacdets, f.invjacs))(
          FiniteElementSpace.create(m, s.quad))
      x, det, inv = (make if c.rng.random() < .15 else jax.jit(make))(s.mesh)
      c.close('quadrature coordinates', x, s.geo.x, rtol=1e-11)
      c.close('jacobian determinants', det, s.geo.det, rtol=1e-10)
      # invjacs[e, q, j, i] = d xi_i / d x_j in the layout of jac[i, j] = d x_j / d xi_i
      c.close('inverse jacobians', inv, s.geo.inv, rtol=1e-9)
      c.event('quadrature_points', s.geo.det.size)
      if s.raw.kind and not s.curved:
        c.event('negative_elements', np.sum(s.geo.det.min(axis=1) < 0))


def part_integral(mon):
  """Weighted sum formula, linearity and additivity for general functions."""
  import jax
  import jax.numpy as jnp
  from swirlmon import space, gen
  from swirl_fem.core.fespace import FiniteElementSpace
  from swirl_fem.core.mesh import Mesh
  for c in mon.cases('space', 30, 1000):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      s = space.random_space(c, ndim, qlo=1)
      k, l = c.rng.normal(size=(2, ndim))
      a, b = c.rng.normal(size=2)
      u = c.rng.normal(size=s.N)
      w = c.rng.normal(size=(s.N, ndim))
      f = lambda x, xp: xp.sin(x @ xp.asarray(k)) + 2.
      g = lambda x, xp: xp.exp(x @ xp.asarray(l) * .2) / (1 + (x @ xp.asarray(k)) ** 2)

      def run(m, ul, wl):
        fs = FiniteElementSpace.create(m, s.quad)
        uf, wf = fs.scalar_function(ul), fs.vector_function(wl)
        return dict(
            volume=fs.integrate(lambda x: 1.),
            f=fs.integrate(lambda x: f(x, jnp)), g=fs.integrate(lambda x: g(x, jnp)),
            combination=fs.integrate(lambda x: a * f(x, jnp) + b * g(x, jnp)),
            nodal=fs.integrate(uf), square=fs.integrate(lambda x: uf(x) ** 2 * f(x, jnp)),
            vector=fs.integrate(lambda x: jnp.sin(wf(x)).sum() + wf(x)[0] * uf(x)))
      ul, wl = jnp.asarray(u[s.els]), jnp.asarray(w[s.els])
      got = {kk: float(v) for kk, v in jax.jit(run)(s.mesh, ul, wl).items()}
      wd = s.geo.wdet
      uq = np.einsum('qn,en->eq', s.geo.phi, u[s.els])
      wq = np.einsum('qn,enk->eqk', s.geo.phi, w[s.els])
      fx, gx = f(s.geo.x, np), g(s.geo.x, np)
      want = dict(volume=np.ones_like(fx), f=fx, g=gx, combination=a * fx + b * gx, nodal=uq,
                  square=uq ** 2 * fx, vector=np.sin(wq).sum(-1) + wq[..., 0] * uq)
      for kk, v in want.items():
        c.close('weighted sum', got[kk], np.sum(wd * v), rtol=1e-11, scale=np.sum(np.abs(wd * v)),
                msg=kk)
      c.close('linearity', got['combination'], a * got['f'] + b * got['g'], rtol=1e-11,
              scale=np.sum(np.abs(wd)) * (abs(a) + abs(b)) * 4)
      # additivity over disjoint sets of elements
      if len(s.els) > 1:
        pick = c.rng.random(len(s.els)) < .5
        total = 0.
        for sel in (pick, ~pick):
          if sel.any():
            sub = Mesh.create(node_coords=s.coords, elements=s.els[sel],
                              gridpoints_1d=s.pm.gridpoints_1d)
            fs = FiniteElementSpace.create(sub, s.quad)
            total += float(jax.jit(lambda: fs.integrate(lambda x: f(x, jnp)))())
        c.close('additivity', total, got['f'], rtol=1e-11, scale=np.sum(np.abs(wd * fx)))
      fs = FiniteElementSpace.create(s.mesh, s.quad)
      c.raises('vector integrand is rejected', ValueError, lambda: fs.integrate(lambda x: jnp.outer(x, x)))
      c.event('integrals', len(got))


def _box_integral(coef_f, lo, hi):
  """Exact integral of a polynomial over a box by a high order Gauss rule."""
  from swirlmon import ref
  x, w = ref.gl(12)
  pts, ws = [], []
  for a, b in zip(lo, hi):
    pts.append(a + (b - a) * (x + 1) / 2)
    ws.append(w * (b - a) / 2)
  p = np.array(list(itertools.product(*pts)))
  q = np.array([np.prod(t) for t in itertools.product(*ws)])
  return float(np.sum(q * coef_f(p))), float(np.sum(q * np.abs(coef_f(p))))


def part_exact(mon):
  """Polynomials within the degree of the rule, against closed forms."""
  import jax
  import jax.numpy as jnp
  from swirlmon import space, gen, ref
  from swirl_fem.core.fespace import FiniteElementSpace
  for c in mon.cases('polytope', 40, 1500):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      style = str(c.rng.choice(['affine', 'multilinear']))
      mesh = str(c.rng.choice(['box', 'simplex'] if ndim > 1 else ['box']))
      lo = c.rng.uniform(-1, 1, ndim)
      hi = lo + c.rng.uniform(.5, 2, ndim)
      if mesh == 'simplex':
        raw = gen.simplex_mesh(c.rng, ndim, 9 if ndim == 2 else 8)
        raw.nodes = raw.nodes  # the unit cube
        raw.nodes = lo + raw.nodes * (hi - lo)
        style = 'multilinear'
      else:
        counts = c.rng.integers(1, 4 if ndim < 3 else 3, ndim)
        raw = gen.box(tuple(counts), lengths=hi - lo, origin=lo)
        if style == 'multilinear':
          inner = np.all((raw.nodes > lo + 1e-9) & (raw.nodes < hi - 1e-9), axis=1)
          raw.nodes = raw.nodes + inner[:, None] * c.rng.uniform(-.2, .2, raw.nodes.shape) * (
              (hi - lo) / counts)
      lin = np.eye(ndim)
      if style == 'affine' and c.rng.random() < .5:
        lin = gen.linear_map(c.rng, ndim)
      raw = raw.copy(nodes=raw.nodes @ lin.T)
      raw, _, _ = gen.scramble(c.rng, raw, 'proper')
      s = space.random_space(c, ndim, raw=raw, curve=False, qlo=2, qhi={1: 10, 2: 8, 3: 5}[ndim])
      exact = {'gauss_legendre': 2 * s.nq - 1, 'gauss_lobatto_legendre': 2 * s.nq - 3, 'newton_cotes': 1}[s.qkind]
      if style == 'affine':
        deg, total = exact, True
        if np.array_equal(lin, np.eye(ndim)):
          total = False
      else:
        # per variable degree p of f becomes p*ndim, plus the determinant's (ndim - 1) + 1
        deg, total = (exact - (ndim if ndim > 1 else 0)) // 1, True
      if ndim > 1 and style == 'multilinear':
        deg = exact - ndim
      deg = min(deg, 9 if ndim < 3 else 6)
      if deg < 0:
        c.trivial = True
        continue
      f, _ = ref.random_poly(c.rng, ndim, deg, total=total)
      c.describe(degree=deg, style=style)
      mid = (np.asarray(raw.nodes).max(0) + np.asarray(raw.nodes).min(0)) / 2
      got = jax.jit(lambda m: FiniteElementSpace.create(m, s.quad).integrate(
          lambda x: f(x - jnp.asarray(mid), jnp)))(s.mesh)
      vol = np.linalg.det(lin)
      want, mag = _box_integral(lambda p: vol * f(p @ lin.T - mid), lo, hi)
      c.close('exact integral', got, want, rtol=1e-10, scale=mag)
      c.event(f'degree_{deg}')


def part_motion(mon):
  """Rigid motions and renumbering leave integrals unchanged."""
  import jax
  import jax.numpy as jnp
  from swirlmon import space, gen, ref
  from swirl_fem.core.fespace import FiniteElementSpace, grad
  for c in mon.cases('motion', 25, 800):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      s = space.random_space(c, ndim)
      q, _ = np.linalg.qr(c.rng.normal(size=(ndim, ndim)))
      if np.linalg.det(q) < 0:
        q[:, 0] *= -1
      t = c.rng.normal(size=ndim)
      k = c.rng.normal(size=ndim)
      u = c.rng.normal(size=s.N)

      def run(m, rot, shift, nodal):
        fs = FiniteElementSpace.create(m, s.quad)
        uf = fs.scalar_function(m.gather(nodal))
        back = lambda x: rot.T @ (x - shift)
        return jnp.stack([
            fs.integrate(lambda x: jnp.sin(jnp.asarray(k) @ back(x))),
            fs.integrate(lambda x: jnp.dot(grad(uf)(x), grad(uf)(x))),
            fs.integrate(lambda x: uf(x) * jnp.exp(.1 * back(x)[0]))])
      run = jax.jit(run)
      base = run(s.mesh, jnp.eye(ndim), jnp.zeros(ndim), jnp.asarray(u))
      moved = s.pm.replace(node_coords=s.coords @ q.T + t).finalize()
      got = run(moved, jnp.asarray(q), jnp.asarray(t), jnp.asarray(u))
      c.close('rigid motion', got, base, rtol=1e-9)
      p, e = c.rng.permutation(s.N), c.rng.permutation(len(s.els))
      xyz, un = np.empty_like(s.coords), np.empty_like(u)
      xyz[p], un[p] = s.coords, u
      ren = s.pm.replace(node_coords=xyz, elements=p[s.els][e].astype(np.int32), physical_groups={},
                         periodic_links=None).finalize()
      got = run(ren, jnp.eye(ndim), jnp.zeros(ndim), jnp.asarray(un))
      c.close('renumbering', got, base, rtol=1e-10)
      scale = float(c.rng.uniform(.3, 3))
      got = run(s.pm.replace(node_coords=s.coords * scale).finalize(), scale * jnp.eye(ndim),
                jnp.zeros(ndim), jnp.asarray(u))
      c.event('motions', 3)
      c.close('scaled energy', got[1], base[1] * scale ** (ndim - 2), rtol=1e-9)

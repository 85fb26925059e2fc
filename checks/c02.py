import numpy as np

PARTS = [dict(name='matrices'), dict(name='functions')]
RULE = ('A case is a (grid, evaluation points, dimension) triple with random tensor polynomials; '
        'non-trivial when interpolated values and derivatives were compared with analytic ones.')

LEBESGUE = 1e-9


def _nodes(rng, ndim, kinds=('gauss_legendre', 'gauss_lobatto_legendre', 'newton_cotes'), top=None,
           single=False):
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  kind = str(rng.choice(list(kinds) + (['single'] if single else [])))
  if kind == 'single':
    v = float(rng.choice([rng.uniform(-1, 1), rng.uniform(-1.5, 1.5), 0., 1., -1.]))
    return 'single', Nodes1D.create_single_point(np.array(v))
  top = top or {1: 13, 2: 8, 3: 5}[ndim]
  if kind == 'newton_cotes':
    top = min(top, 9)
  lo = 1 if kind == 'gauss_legendre' else 2
  n = int(rng.integers(lo, top + 1))
  return kind, Nodes1D.create(num_points=n, node_type=NodeType(kind))


def _one(c, mon, use_functions):
  import jax
  import jax.numpy as jnp
  from swirlmon import ref
  from swirl_fem.core.interpolation import BarycentricInterpolator
  ndim = 1 + c.index % 3
  gk, g = _nodes(c.rng, ndim)
  ek, e = (gk, g) if c.rng.random() < .1 else _nodes(c.rng, ndim, single=True)
  gx, ex = np.asarray(g.node_values), np.asarray(e.node_values)
  ng, ne = len(gx), len(ex)
  c.describe(grid=gk, grid_points=ng, eval=ek, eval_points=ex if ek == 'single' else ne, ndim=ndim)
  it = BarycentricInterpolator(ndim=ndim, gridpoints_1d=g, evalpoints_1d=e)
  f, df = ref.random_poly(c.rng, ndim, ng - 1)
  xg, xe = ref.tensor(gx, ndim), ref.tensor(ex, ndim)
  scale = max(np.abs(f(xg)).max(), np.abs(f(xe)).max(), 1.) * (5 if gk == 'newton_cotes' else 1)
  want = f(xe)
  wantg = np.stack([d(xe) for d in df], axis=-1)
  gscale = max(scale * ng * ng, np.abs(wantg).max())
  if not use_functions:
    m, mg = np.asarray(it.interpolation_matrix()), np.asarray(it.interpolation_matrix_grad())
    c.event('matrices')
    c.check('shape', m.shape == (ne ** ndim, ng ** ndim) and mg.shape == m.shape + (ndim,))
    c.close('value', m @ f(xg), want, rtol=1e-9, scale=scale)
    c.close('gradient', np.einsum('qnd,n->qd', mg, f(xg)), wantg, rtol=1e-9, scale=gscale)
    c.close('partition of unity', m.sum(axis=1), np.ones(len(m)), atol=1e-9)
    phi, dphi = ref.basis_nd(gx, ex, ndim)
    c.close('lagrange basis', m, phi, rtol=1e-9)
    c.close('lagrange gradients', mg, dphi, rtol=1e-9, scale=max(1., np.abs(dphi).max()))
  else:
    u = jnp.asarray(f(xg))
    v = it.interpolate(u)
    c.event('interpolations')
    c.close('value', v, want, rtol=1e-9, scale=scale)
    c.close('gradient', it.interpolate_grad(u), wantg, rtol=1e-9, scale=gscale)
    us = jnp.asarray(c.rng.normal(size=(3, ng ** ndim)))
    batched = jax.jit(jax.vmap(it.interpolate))(us)
    bg = jax.jit(jax.vmap(it.interpolate_grad))(us)
    phi, dphi = ref.basis_nd(gx, ex, ndim)
    c.close('batched value', batched, us @ phi.T, rtol=1e-9, scale=max(1, np.abs(phi).max() * 3))
    c.close('batched gradient', bg, np.einsum('qnd,bn->bqd', dphi, us), rtol=1e-9,
            scale=max(1., np.abs(dphi).max() * 5))


def part_matrices(mon):
  for c in mon.cases('matrix', 300, 4000):
    with c:
      _one(c, mon, False)
  from swirlmon import ref
  from swirl_fem.core.interpolation import BarycentricInterpolator, Nodes1D, NodeType
  # evaluation points at and next to grid points, where the barycentric formula is delicate
  for c in mon.cases('near node', 60, 600):
    with c:
      gk, g = _nodes(c.rng, 1)
      gx = np.asarray(g.node_values)
      j = int(c.rng.integers(len(gx)))
      off = float(c.rng.choice([0., 2e-16, -2e-16, 1e-15, 1e-13, -1e-12] +
                               6 * [c.rng.choice([-1, 1]) * 10 ** c.rng.uniform(-13, -3)]))
      x = float(gx[j] + off)
      c.describe(grid=gk, n=len(gx), node=j, offset=off)
      it = BarycentricInterpolator(1, g, Nodes1D.create_single_point(np.array(x)))
      m = np.asarray(it.interpolation_matrix())
      phi, dphi = ref.basis_nd(gx, [x], 1)
      c.close('value', m, phi, rtol=1e-11)
      c.close('gradient', np.asarray(it.interpolation_matrix_grad()), dphi, rtol=1e-7,
              scale=max(1., np.abs(dphi).max()))


def part_functions(mon):
  for c in mon.cases('function', 30, 400, minimum=9):
    with c:
      _one(c, mon, True)

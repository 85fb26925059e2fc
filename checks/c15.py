import itertools

import numpy as np

PARTS = [dict(name='exact1', fn='exact'), dict(name='exact2', fn='exact'),
         dict(name='curved'), dict(name='flux1', fn='flux'), dict(name='flux2', fn='flux')]
RULE = ('A case is a mesh and polynomial fields representable in its space; non-trivial when '
        'derivatives at quadrature points were compared with exact ones, or the integrated divergence '
        'with an independently integrated boundary flux.')


def part_exact(mon):
  import jax
  import jax.numpy as jnp
  from jax import vmap
  from swirlmon import space, ref
  from swirl_fem.core.fespace import FiniteElementSpace, grad, div
  for c in mon.cases('polynomial', 30, 1000):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      s = space.random_space(c, ndim, curve=False, size=str(c.rng.choice(['small', 'medium'])))
      deg = int(c.rng.integers(1, s.n))
      c.describe(degree=deg)
      mid, span = s.coords.mean(0), np.ptp(s.coords, axis=0).max() / 2
      polys = [ref.random_poly(c.rng, ndim, deg, total=True) for _ in range(ndim + 1)]
      sc = lambda x: (x - mid) / span
      u = polys[0][0](sc(s.coords))
      w = np.stack([p[0](sc(s.coords)) for p in polys[1:]], axis=-1)

      def run(m, un, wn):
        fs = FiniteElementSpace.create(m, s.quad)
        uf = fs.scalar_function(m.gather(un))
        wf = fs.vector_function(vmap(m.gather, in_axes=-1, out_axes=-1)(wn))
        plain = lambda x: polys[0][0]((x - jnp.asarray(mid)) / span, jnp)
        ev = lambda f: vmap(vmap(f))(fs.quad_coords)
        return dict(value=ev(uf), vector=ev(wf), grad=ev(grad(uf)), vgrad=ev(grad(wf)), div=ev(div(wf)),
                    plain=ev(plain), plain_grad=ev(grad(plain)),
                    mixed=ev(lambda x: jnp.dot(wf(x), grad(uf)(x)) - div(wf)(x) * uf(x)))
      got = jax.jit(run)(s.mesh, jnp.asarray(u), jnp.asarray(w))
      x = sc(s.geo.x)
      du = np.stack([d(x) for d in polys[0][1]], axis=-1) / span
      dw = np.stack([np.stack([d(x) for d in p[1]], axis=-1) for p in polys[1:]], axis=-1) / span
      wv = np.stack([p[0](x) for p in polys[1:]], axis=-1)
      uv = polys[0][0](x)
      # the interpolant of large node sets amplifies rounding through the inverse jacobian
      amp = max(1., np.abs(s.geo.inv).max() * span)
      tol = 1e-11 * amp
      c.close('value', got['value'], uv, rtol=tol)
      c.close('vector value', got['vector'], wv, rtol=tol)
      c.close('gradient', got['grad'], du, rtol=tol * 10, scale=max(np.abs(du).max(), np.abs(u).max() / span))
      c.close('vector gradient', got['vgrad'], dw, rtol=tol * 10,
              scale=max(np.abs(dw).max(), np.abs(w).max() / span))
      c.close('divergence', got['div'], np.trace(dw, axis1=-2, axis2=-1), rtol=tol * 10,
              scale=max(np.abs(dw).max(), np.abs(w).max() / span))
      c.close('plain function', got['plain'], uv, rtol=1e-11)
      c.close('gradient of a plain function', got['plain_grad'], du, rtol=1e-11)
      mixed = np.einsum('eqj,eqj->eq', wv, du) - np.trace(dw, axis1=-2, axis2=-1) * uv
      c.close('combination', got['mixed'], mixed, rtol=tol * 10,
              scale=np.abs(wv).max() * max(np.abs(du).max(), 1 / span) + np.abs(dw).max() * np.abs(uv).max())
      c.event('quadrature_points', uv.size)


def part_curved(mon):
  """On curved elements: arbitrary nodal values against the independent basis."""
  import jax
  import jax.numpy as jnp
  from jax import vmap
  from swirlmon import space
  from swirl_fem.core.fespace import FiniteElementSpace, grad, div
  for c in mon.cases('nodal', 30, 1000):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      s = space.random_space(c, ndim, curve=True)
      u, w = c.rng.normal(size=s.N), c.rng.normal(size=(s.N, ndim))
      a, b = c.rng.normal(size=ndim), c.rng.normal(size=(ndim, ndim))

      def run(m, un, wn, lin, linv):
        fs = FiniteElementSpace.create(m, s.quad)
        ev = lambda f: vmap(vmap(f))(fs.quad_coords)
        sf = lambda y: fs.scalar_function(m.gather(y))
        vf = lambda y: fs.vector_function(vmap(m.gather, in_axes=-1, out_axes=-1)(y))
        return (ev(grad(sf(un))), ev(grad(vf(wn))), ev(div(vf(wn))), ev(grad(sf(lin))), ev(grad(vf(linv))))
      g = jax.jit(run)(s.mesh, jnp.asarray(u), jnp.asarray(w), jnp.asarray(s.coords @ a),
                       jnp.asarray(s.coords @ b))
      G = s.geo.physical_gradients()
      du = np.einsum('eqnj,en->eqj', G, u[s.els])
      dw = np.einsum('eqnj,enk->eqjk', G, w[s.els])
      c.close('gradient', g[0], du, rtol=1e-10)
      c.close('vector gradient', g[1], dw, rtol=1e-10)
      c.close('divergence', g[2], np.trace(dw, axis1=-2, axis2=-1), rtol=1e-10, scale=np.abs(dw).max())
      c.close('gradient of a linear function', g[3], np.broadcast_to(a, du.shape), rtol=1e-9)
      c.close('gradient of a linear field', g[4], np.broadcast_to(b, dw.shape), rtol=1e-9)
      c.event('quadrature_points', du.size)


def _flux(raw, w):
  """Outward flux through the boundary facets, by Gauss quadrature on each facet."""
  from swirlmon import gen, ref
  ndim = raw.ndim
  count = {}
  for e in raw.elements:
    for lf in gen.local_facets(ndim):
      count.setdefault(tuple(sorted(e[lf].tolist())), []).append((e[lf], e))
  x, q = ref.gl(10)
  total = mag = 0.
  for v in count.values():
    if len(v) > 1:
      continue
    f, e = v[0]
    p = raw.nodes[f]
    inside = raw.nodes[e].mean(0)
    if ndim == 1:
      n = np.sign(p[0] - inside)
      vals = w(p) @ n
      total += vals.sum()
      mag += np.abs(vals).sum()
      continue
    phi, dphi = ref.basis_nd(np.array([-1., 1.]), x, ndim - 1)
    ws = ref.tensor_weights(q, ndim - 1)
    pts = phi @ p
    tang = np.einsum('qni,nd->qid', dphi, p)
    if ndim == 2:
      nrm = np.stack([tang[:, 0, 1], -tang[:, 0, 0]], axis=-1)
    else:
      nrm = np.cross(tang[:, 0], tang[:, 1])
    if np.sum(ws * np.einsum('qd,qd->q', nrm, pts - inside)) < 0:
      nrm = -nrm
    vals = ws * np.einsum('qd,qd->q', w(pts), nrm)
    total += vals.sum()
    mag += np.abs(vals).sum()
  return total, mag


def part_flux(mon):
  import jax
  import jax.numpy as jnp
  from jax import vmap
  from swirlmon import space, ref
  from swirl_fem.core.fespace import FiniteElementSpace, div
  from swirl_fem.core.interpolation import NodeType, Quadrature1D
  for c in mon.cases('mesh', 25, 800):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      s = space.random_space(c, ndim, curve=False)
      quad = Quadrature1D.create(num_points=s.n + 2, quadrature_type=NodeType.GAUSS_LEGENDRE)
      mid, span = s.coords.mean(0), np.ptp(s.coords, axis=0).max() / 2
      polys = [ref.random_poly(c.rng, ndim, s.n - 1, total=True) for _ in range(ndim)]
      field = lambda x: np.stack([p[0]((x - mid) / span) for p in polys], axis=-1)
      w = field(s.coords)

      def run(m, wn):
        fs = FiniteElementSpace.create(m, quad)
        wf = fs.vector_function(vmap(m.gather, in_axes=-1, out_axes=-1)(wn))
        return fs.integrate(div(wf))
      got = jax.jit(run)(s.mesh, jnp.asarray(w))
      want, mag = _flux(s.raw, field)
      c.close('divergence theorem', got, want, rtol=1e-10, scale=max(mag, np.abs(w).max() * span ** (ndim - 1)))
      c.event('boundary_fluxes')

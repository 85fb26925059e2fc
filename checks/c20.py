import numpy as np

PARTS = [dict(name=f'plane{i}', fn='plane', budget={'quick': 25.}) for i in range(3)] + [
    dict(name='solid', budget={'quick': 25.})]
RULE = ('A case is a flow setup (unstructured, curved or periodic mesh, order) and several fields; '
        'non-trivial when filtered fields (and vorticities in 2D) were compared with numpy references.')
ASSUMPTIONS = ['Filtered fields are equal at identified nodes, as the velocities of the solver are.',
               'Vorticity is averaged over the elements sharing a mesh node; periodic images are not mixed.']


def _judge(c, fl):
  import jax
  import jax.numpy as jnp
  from swirlmon import flow, ref
  sem, r = fl.sem, c.rng
  # boundary conditions play no role for either operation
  def smooth():
    return r.normal(size=(fl.cls.max() + 1, fl.ndim))[fl.cls]
  filt = jax.jit(lambda u, alpha: sem.filter(u, alpha=alpha))
  default = jax.jit(sem.filter)
  u, v = smooth(), smooth()
  got = {}
  alphas = [0., .05, 1., float(r.uniform(0, 1)), float(r.uniform(-1, 2))]
  for a in alphas:
    got[a] = np.asarray(filt(jnp.asarray(u), a))
    c.close('filter', got[a], flow.filtered(fl, u, a), rtol=1e-10, scale=10 * np.abs(u).max(), msg=f'alpha={a}')
  c.close('alpha 0 is the identity', got[0.], u, rtol=1e-14)
  c.close('default strength', np.asarray(default(jnp.asarray(u))), flow.filtered(fl, u, .05), rtol=1e-10,
          scale=10 * np.abs(u).max())
  a = alphas[3]
  s, t = r.normal(size=2)
  c.close('linear', np.asarray(filt(jnp.asarray(s * u + t * v), a)),
          s * got[a] + t * np.asarray(filt(jnp.asarray(v), a)), rtol=1e-10, scale=20 * np.abs(u).max())
  # idempotence: the full filter is a projection
  c.close('full filter is a projection', np.asarray(filt(jnp.asarray(got[1.]), 1.)), got[1.], rtol=1e-9,
          scale=10 * np.abs(u).max())
  # components are filtered independently
  w = u.copy()
  w[:, 0] = 0
  c.close('components are independent', np.asarray(filt(jnp.asarray(w), a))[:, 1:], got[a][:, 1:], rtol=1e-12,
          scale=10 * np.abs(u).max())
  affine = _affine(fl)
  if affine and fl.raw.links is None or not fl.raw.links is None and not fl.raw.links.size:
    f = [ref.random_poly(r, fl.ndim, fl.order - 1, True)[0] for _ in range(fl.ndim)]
    low = np.stack([g(fl.vx) for g in f], -1)
    c.close('keeps polynomials of lower degree', np.asarray(filt(jnp.asarray(low), a)), low, rtol=1e-9,
            scale=10 * np.abs(low).max())
    c.event('polynomials')
  c.event('filtered_fields', 9)
  if fl.ndim != 2:
    return
  vort = jax.jit(sem.vorticity)
  curl = np.einsum('eqn,en->eq', fl.G[..., 0], u[fl.ve][..., 1]) - np.einsum(
      'eqn,en->eq', fl.G[..., 1], u[fl.ve][..., 0])
  want = np.zeros(fl.N)
  np.add.at(want, fl.ve, curl)
  want /= fl.mult
  gotv = np.asarray(vort(jnp.asarray(u)))
  c.close('vorticity', gotv, want, rtol=1e-10, scale=np.abs(fl.G).sum(2).max() * np.abs(u).max())
  c.event('vorticities')
  if affine:
    (f0, d0), (f1, d1) = (ref.random_poly(r, 2, fl.order, True) for _ in range(2))
    x = fl.vx
    p = np.stack([f0(x), f1(x)], -1)
    exact = d1[0](x) - d0[1](x)
    c.close('vorticity of polynomials', np.asarray(vort(jnp.asarray(p))), exact, rtol=1e-9,
            scale=np.abs(fl.G).sum(2).max() * np.abs(p).max())
    grad = np.stack([2 * fl.vx[:, 0] + fl.vx[:, 1], fl.vx[:, 0] - 3 * fl.vx[:, 1]], -1)
    c.close('gradients have no vorticity', np.asarray(vort(jnp.asarray(grad))), np.zeros(fl.N), rtol=0,
            atol=1e-10 * np.abs(fl.G).sum(2).max() * np.abs(grad).max())
    c.event('vorticities', 2)


def _affine(fl):
  x = fl.raw.nodes[fl.raw.elements]
  n = 2 ** fl.ndim
  # every corner is determined by the first one and its neighbours
  for i in range(n):
    bits = [1 << k for k in range(fl.ndim) if i >> k & 1]
    pred = x[:, 0] + sum((x[:, b] - x[:, 0] for b in bits), 0 * x[:, 0])
    if np.abs(pred - x[:, i]).max() > 1e-12 * (1 + np.abs(x).max()):
      return False
  return True


def _flow(c, ndim):
  from swirlmon import flow, gen
  r = c.rng
  raw = None
  if r.random() < .5:
    counts = [int(r.integers(1, 4 if ndim == 2 else 3)) for _ in range(ndim)]
    per = [d for d in range(ndim) if r.random() < .3]
    raw = gen.box(counts, tuple(per), side_groups=True)
    raw.nodes = raw.nodes @ (np.eye(ndim) + .3 * r.normal(size=(ndim, ndim)) / ndim).T
    raw = gen.scramble(r, raw)[0]
  return flow.random_flow(c, ndim, raw=raw)


def part_plane(mon):
  for c in mon.cases('fields', 14, 400):
    with c:
      _judge(c, _flow(c, 2))


def part_solid(mon):
  for c in mon.cases('fields', 8, 200):
    with c:
      _judge(c, _flow(c, 3))

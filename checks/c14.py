import numpy as np

PARTS = [dict(name='scalar1', fn='scalar'), dict(name='scalar2', fn='scalar'),
         dict(name='vector1', fn='vector'), dict(name='vector2', fn='vector'),
         dict(name='matrix1', fn='matrix'), dict(name='matrix2', fn='matrix'), dict(name='misuse')]
RULE = ('A case is a finite element space on a random (curved, unstructured) mesh and several random '
        'multilinear forms with the placeholder in a random argument position; non-trivial when '
        'covectors or dense matrices were compared with numpy einsums over the same basis.')


def _ctx(c, s):
  from swirlmon.space import Space
  t = Space()
  r = c.rng
  t.k, t.l = r.normal(size=(2, s.ndim))
  t.K = r.normal(size=(s.ndim, s.ndim))
  t.u, t.v = r.normal(size=(2, s.N))
  t.w, t.z = r.normal(size=(2, s.N, s.ndim))
  t.g = lambda x, xp: 1.5 + xp.sin(x @ xp.asarray(t.k))
  t.h = lambda x, xp: x @ xp.asarray(t.l)
  # numpy evaluations at the quadrature points
  ph, G = s.geo.phi, s.geo.physical_gradients()
  t.ph, t.G, t.wd = ph, G, s.geo.wdet
  t.uq, t.vq = (np.einsum('qn,en->eq', ph, a[s.els]) for a in (t.u, t.v))
  t.wq, t.zq = (np.einsum('qn,enk->eqk', ph, a[s.els]) for a in (t.w, t.z))
  t.du, t.dv = (np.einsum('eqnj,en->eqj', G, a[s.els]) for a in (t.u, t.v))
  t.dw, t.dz = (np.einsum('eqnj,enk->eqjk', G, a[s.els]) for a in (t.w, t.z))
  t.gq, t.hq = t.g(s.geo.x, np), t.h(s.geo.x, np)
  return t


def _scalar_forms(t, jnp, grad, div):
  """name -> (form(a, u, v, w), numpy (coefficient of phi, coefficient of grad phi))."""
  K = t.K
  tr = lambda m: np.trace(m, axis1=-2, axis2=-1)
  return {
      'mass': (lambda a, u, v, w: lambda x: a(x) * u(x), (t.uq, None)),
      'stiffness': (lambda a, u, v, w: lambda x: jnp.dot(grad(a)(x), grad(u)(x)), (None, t.du)),
      'load': (lambda a, u, v, w: lambda x: a(x) * t.g(x, jnp), (t.gq, None)),
      'divergence': (lambda a, u, v, w: lambda x: div(w)(x) * a(x), (tr(t.dw), None)),
      'convection': (lambda a, u, v, w: lambda x: a(x) * jnp.dot(w(x), grad(u)(x)),
                     (np.einsum('eqj,eqj->eq', t.wq, t.du), None)),
      'trilinear': (lambda a, u, v, w: lambda x: u(x) * a(x) * v(x) * t.g(x, jnp),
                    (t.uq * t.vq * t.gq, None)),
      'reaction-diffusion': (
          lambda a, u, v, w: lambda x: jnp.dot(jnp.asarray(K) @ grad(a)(x), grad(u)(x)) + 2. * a(x) * v(x),
          (2. * t.vq, np.einsum('kj,eqk->eqj', K, t.du))),
      'flux': (lambda a, u, v, w: lambda x: jnp.dot(grad(a)(x), w(x)) * t.h(x, jnp),
               (None, t.wq * t.hq[..., None])),
      'partial': (lambda a, u, v, w: lambda x: grad(a)(x)[-1] * u(x),
                  (None, t.uq[..., None] * np.eye(t.du.shape[-1])[-1])),
      'coordinate gradient': (
          lambda a, u, v, w: lambda x: a(x) * jnp.sum(grad(lambda y: t.g(y, jnp))(x)),
          (np.cos(t.xq @ t.k) * np.sum(t.k), None)),
  }


def _vector_forms(t, jnp, grad, div):
  """name -> (form(b, u, w, z), numpy (coefficient [.., k] of phi, [.., j, k] of d_j phi))."""
  d = t.du.shape[-1]
  K = t.K
  eye = np.eye(d)
  return {
      'mass': (lambda b, u, w, z: lambda x: jnp.dot(b(x), w(x)) * t.g(x, jnp),
               (t.wq * t.gq[..., None], None)),
      'gradient': (lambda b, u, w, z: lambda x: div(b)(x) * u(x),
                   (None, t.uq[..., None, None] * eye)),
      'stiffness': (lambda b, u, w, z: lambda x: jnp.sum(grad(b)(x) * grad(w)(x)), (None, t.dw)),
      'transposed': (lambda b, u, w, z: lambda x: jnp.sum(grad(b)(x) * grad(w)(x).T),
                     (None, np.swapaxes(t.dw, -1, -2))),
      'convection': (lambda b, u, w, z: lambda x: jnp.dot(b(x), w(x) @ grad(z)(x)),
                     (np.einsum('eqj,eqjk->eqk', t.wq, t.dz), None)),
      'load': (lambda b, u, w, z: lambda x: jnp.dot(b(x), jnp.asarray(t.k)) * t.h(x, jnp),
               (t.hq[..., None] * t.k, None)),
      'advected': (lambda b, u, w, z: lambda x: jnp.dot(z(x), w(x) @ grad(b)(x)),
                   (None, np.einsum('eqj,eqk->eqjk', t.wq, t.zq))),
      'component': (lambda b, u, w, z: lambda x: b(x)[0] * u(x) + (jnp.asarray(K) @ b(x))[-1] * z(x)[0],
                    (t.uq[..., None] * eye[0] + t.zq[..., :1] * K[-1], None)),
  }


def _run(mon, c, vector):
  import jax
  import jax.numpy as jnp
  from swirlmon import space
  from swirl_fem.core.fespace import FiniteElementSpace, grad, div
  ndim = 1 + int(c.rng.integers(3))
  s = space.random_space(c, ndim, qlo=2)
  t = _ctx(c, s)
  t.xq = s.geo.x
  forms = (_vector_forms if vector else _scalar_forms)(t, jnp, grad, div)
  # forms of the gradient of their argument, whose placeholder is that gradient
  of_gradient = {}
  if vector:
    of_gradient = {'gradient: stiffness': 'stiffness', 'gradient: advected': 'advected'}
    forms['gradient: stiffness'] = (lambda gb, u, w, z: lambda x: jnp.sum(gb(x) * grad(w)(x)), forms['stiffness'][1])
    forms['gradient: advected'] = (lambda gb, u, w, z: lambda x: jnp.sum(gb(x) * jnp.outer(w(x), z(x))),
                                   forms['advected'][1])
  else:
    of_gradient = {'gradient: stiffness': 'stiffness', 'gradient: flux': 'flux'}
    forms['gradient: stiffness'] = (lambda ga, u, v, w: lambda x: jnp.sum(ga(x) * grad(u)(x)), forms['stiffness'][1])
    forms['gradient: flux'] = (lambda ga, u, v, w: lambda x: jnp.sum(ga(x) * w(x)) * t.h(x, jnp), forms['flux'][1])
  names = [str(n) for n in c.rng.choice(sorted(forms), 4, replace=False)]
  perms = {n: c.rng.permutation(4) for n in names}
  c.describe(forms=names, positions=[perms[n].tolist() for n in names])
  test = c.rng.normal(size=(len(s.els), s.n ** ndim) + ((ndim,) if vector else ()))

  def build(m, ul, vl, wl, zl, tl):
    fs = FiniteElementSpace.create(m, s.quad)
    mk = fs.vector_function if vector else fs.scalar_function
    others = ([fs.scalar_function(ul), fs.vector_function(wl), fs.vector_function(zl)] if vector else
              [fs.scalar_function(ul), fs.scalar_function(vl), fs.vector_function(wl)])
    cov, val = {}, {}
    for n in names:
      p = perms[n]
      # arguments are handed over in the permuted order
      def form(*args, n=n, p=p):
        back = [None] * 4
        for pos, a in zip(p, args):
          back[pos] = a
        return forms[n][0](*back)
      arg = (lambda v: grad(mk(v))) if n in of_gradient else mk
      base = [arg(None)] + others
      cov[n] = fs.local_covector(form, tuple(base[i] for i in p))
      base[0] = arg(tl)
      val[n] = fs.integrate(form(*[base[i] for i in p]))
    return cov, val
  args = [jnp.asarray(a[s.els]) for a in (t.u, t.v, t.w, t.z)] + [jnp.asarray(test)]
  cov, val = jax.jit(build)(s.mesh, *args)
  for n in names:
    got = np.asarray(cov[n])
    c0, c1 = forms[n][1]
    want, mag = 0., 0.
    if vector:
      for coef, ein, mat in ((c0, 'eq,eqk,qn->enk', t.ph), (c1, 'eq,eqjk,eqnj->enk', t.G)):
        if coef is not None:
          want = want + np.einsum(ein, t.wd, coef, mat)
          mag = max(mag, np.einsum(ein, np.abs(t.wd), np.abs(coef), np.abs(mat)).max())
    else:
      for coef, ein, mat in ((c0, 'eq,eq,qn->en', t.ph), (c1, 'eq,eqj,eqnj->en', t.G)):
        if coef is not None:
          want = want + np.einsum(ein, t.wd, coef, mat)
          mag = max(mag, np.einsum(ein, np.abs(t.wd), np.abs(coef), np.abs(mat)).max())
    c.close('covector of ' + n, got, want, rtol=1e-10, scale=mag)
    c.close('covector paired with a function is the integral', np.sum(got * test), val[n],
            rtol=1e-10, scale=mag * np.sum(np.abs(test)))
    c.event('forms')


def part_scalar(mon):
  for c in mon.cases('space', 26, 900):
    with c:
      _run(mon, c, False)


def part_vector(mon):
  for c in mon.cases('space', 26, 900):
    with c:
      _run(mon, c, True)


def part_matrix(mon):
  import jax
  import jax.numpy as jnp
  from swirlmon import space, ref, gen
  from swirl_fem.core.fespace import FiniteElementSpace, grad
  for c in mon.cases('operators', 16, 600):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      # positive definiteness needs a rule that resolves the products
      periodic = c.rng.random() < .3
      raw = gen.random_periodic_box(c.rng, ndim, maxcount=2) if periodic else None
      kinds = ['gauss_lobatto_legendre'] if periodic else None
      s = space.random_space(c, ndim, hi={1: 7, 2: 4, 3: 3}[ndim], qkinds=['gauss_legendre'], qlo=5,
                             qhi=8 if ndim < 3 else 5, raw=raw, kinds=kinds, curve=False if periodic else None)
      c.describe(periodic=periodic)

      def ops(m, u):
        fs = FiniteElementSpace.create(m, s.quad)
        f = fs.scalar_function(m.gather(u))
        pl = fs.scalar_function(None)
        loc = [fs.local_covector(lambda a, b: lambda x: a(x) * b(x), (pl, f)),
               fs.local_covector(lambda a, b: lambda x: jnp.dot(grad(a)(x), grad(b)(x)), (f, pl))]
        return [m.scatter(l) for l in loc]
      ops = jax.jit(ops)
      M, A = np.zeros((s.N, s.N)), np.zeros((s.N, s.N))
      for i in range(s.N):
        e = np.zeros(s.N)
        e[i] = 1.
        M[:, i], A[:, i] = (np.asarray(o) for o in ops(s.mesh, jnp.asarray(e)))
      ph, G = s.geo.phi, s.geo.physical_gradients()
      Mr = ref.assemble(s.els, np.einsum('eq,qn,qm->enm', s.geo.wdet, ph, ph), s.N)
      Ar = ref.assemble(s.els, np.einsum('eq,eqnj,eqmj->enm', s.geo.wdet, G, G), s.N)
      c.close('mass matrix', M, Mr, rtol=1e-10)
      c.close('stiffness matrix', A, Ar, rtol=1e-10)
      c.close('mass is symmetric', M, M.T, rtol=1e-11)
      c.close('stiffness is symmetric', A, A.T, rtol=1e-11)
      lo = np.linalg.eigvalsh((M + M.T) / 2)[0]
      c.check('mass is positive definite', lo > 0 or s.n > s.nq, f'{lo}')
      lo = np.linalg.eigvalsh((A + A.T) / 2)[0]
      c.check('stiffness is positive semi-definite', lo > -1e-9 * np.abs(A).max(), f'{lo}')
      c.close('stiffness annihilates constants', A @ np.ones(s.N), np.zeros(s.N), rtol=0,
              atol=1e-10 * np.abs(A).sum(axis=1).max())
      c.close('mass of one is the volume', M.sum(), np.sum(s.geo.wdet), rtol=1e-10)
      c.event('matrix_entries', 2 * s.N ** 2)


def part_misuse(mon):
  import jax.numpy as jnp
  from swirlmon import space
  from swirl_fem.core.fespace import FiniteElementSpace
  for c in mon.cases('misuse', 8, 60):
    with c:
      ndim = 1 + int(c.rng.integers(3))
      s = space.random_space(c, ndim, hi=3, qhi=3)
      fs = FiniteElementSpace.create(s.mesh, s.quad)
      u = fs.scalar_function(s.mesh.gather(jnp.asarray(c.rng.normal(size=s.N))))
      ph, vph = fs.scalar_function(None), fs.vector_function(None)
      two = lambda a, b: lambda x: a(x) * b(x)
      c.raises('two placeholders', ValueError, lambda: fs.local_covector(two, (ph, ph)))
      c.raises('two placeholders', ValueError,
               lambda: fs.local_covector(lambda a, b: lambda x: a(x) * b(x)[0], (ph, vph)))
      c.raises('no placeholder', ValueError, lambda: fs.local_covector(two, (u, u)))
      c.raises('no placeholder', ValueError, lambda: fs.local_covector(two, (u, lambda x: x[0])))
      E, n = s.els.shape
      c.raises('wrong shape', ValueError, lambda: fs.scalar_function(jnp.zeros((E, n + 1))))
      c.raises('wrong shape', ValueError, lambda: fs.scalar_function(jnp.zeros((E, n, ndim + 1))))
      c.raises('wrong shape', ValueError, lambda: fs.vector_function(jnp.zeros((E, n, ndim + 1))))
      c.raises('wrong shape', ValueError, lambda: s.mesh.gather(jnp.zeros(s.N + 1)))

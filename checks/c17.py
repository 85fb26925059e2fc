import functools

import numpy as np

PARTS = [dict(name='contract'), dict(name='trajectory'), dict(name='special'), dict(name='pytree'),
         dict(name='single', x64=False)]
RULE = ('A case is a linear system (spectrum, conditioning, preconditioner, guess, inner product, '
        'tolerances and iteration limit); non-trivial when the reported residual, count, stopping '
        'decision or iterates were judged by numpy.')
ASSUMPTIONS = ['Iterates are compared with textbook preconditioned CG only while rounding cannot have '
               'changed them (condition number up to 1e2).']

SIZES = (1, 2, 3, 5, 8, 13, 21)


def _orth(rng, n):
  q, r = np.linalg.qr(rng.normal(size=(n, n)))
  return q * np.sign(np.diag(r))


def _spd(rng, n, cond):
  ev = np.exp(rng.uniform(0, np.log(cond), n))
  q = _orth(rng, n)
  a = (q * ev) @ q.T * np.exp(rng.uniform(-3, 3))
  return (a + a.T) / 2


@functools.lru_cache(None)
def _solver(dot=False):
  import jax
  import jax.numpy as jnp
  from swirl_fem.linalg.cg import cg

  def run(A, b, x0, tol, atol, maxiter, M, w):
    kw = dict(dot_fn=lambda p, q: jnp.vdot(w * p, q)) if dot else {}
    return cg(lambda x: A @ x, b, x0, tol=tol, atol=atol, maxiter=maxiter, M=lambda x: M @ x, **kw)
  return jax.jit(run)


def _system(c, n, cond, dot):
  """A self-adjoint positive definite in the inner product <p, q> = sum w p q."""
  r = c.rng
  w = np.exp(r.uniform(-1, 1, n)) if dot else np.ones(n)
  s = _spd(r, n, cond)
  A = s / w[:, None]
  style = str(r.choice(['none', 'jacobi', 'spd']))
  if style == 'none':
    M = np.eye(n)
  elif style == 'jacobi':
    M = np.diag(1 / np.diag(A))
  else:
    M = _spd(r, n, 30.) / w[:, None]
  x = r.normal(size=n)
  guess = str(r.choice(['zero', 'random', 'near']))
  x0 = {'zero': np.zeros(n), 'random': r.normal(size=n) * 3, 'near': x + 1e-3 * r.normal(size=n)}[guess]
  c.describe(size=n, cond=cond, dot=dot, preconditioner=style, guess=guess, A=A, b=A @ x, x0=x0, M=M)
  return A, A @ x, x, x0, M, w


def _reference(A, b, x0, M, w, iters):
  """Textbook preconditioned CG: the iterates and their squared residuals."""
  d = lambda p, q: np.sum(w * p * q)
  x, r = x0.copy(), b - A @ x0
  z = M @ r
  p, g = z, d(r, z)
  out = [(x, g)]
  for _ in range(iters):
    Ap = A @ p
    al = g / d(p, Ap)
    x, r = x + al * p, r - al * Ap
    z = M @ r
    g, old = d(r, z), g
    p = z + g / old * p
    out.append((x, g))
  return out


def part_contract(mon):
  """The stopping decision and the truth of what is reported."""
  for c in mon.cases('system', 260, 20000):
    with c:
      n = int(c.rng.choice(SIZES))
      dot = bool(c.rng.random() < .3)
      A, b, x, x0, M, w = _system(c, n, float(10 ** c.rng.uniform(0, 5)), dot)
      tol = float(10 ** c.rng.uniform(-9, 0)) * int(c.rng.random() < .85)
      atol = float(10 ** c.rng.uniform(-8, 1)) * int(c.rng.random() < .5)
      if not tol and not atol:
        tol = 1e-6
      maxiter = int(c.rng.integers(0, 3 * n + 3)) if c.rng.random() < .5 else 10 * n + 50
      c.describe(tol=tol, atol=atol, maxiter=maxiter)
      run = lambda m: _solver(dot)(A, b, x0, tol, atol, m, M, w)
      got, info = run(maxiter)
      got, k, res = np.asarray(got), int(info['num_iterations']), float(info['residual'])
      d = lambda p, q: np.sum(w * p * q)
      limit = max(tol ** 2 * d(b, b), atol ** 2)
      c.event('iterations', k)
      c.check('iteration limit', 0 <= k <= maxiter, f'{k} of {maxiter}')
      c.check('stops converged or at the limit', res <= limit * (1 + 1e-12) or k == maxiter,
              f'residual {res} limit {limit} iterations {k} of {maxiter}')
      r = b - A @ got
      true = d(r, M @ r)
      # drift between the recursive and the true residual
      noise = 1e-13 * (k + 1) * (np.abs(A).sum() * (np.abs(got).max() + np.abs(x0).max() + np.abs(x).max()) + np.abs(b).max())
      mag = np.sqrt(np.max(w)) * np.sqrt(np.abs(M).sum())
      c.check('reported residual is true',
              abs(np.sqrt(max(res, 0)) - np.sqrt(max(true, 0))) <= 1e-7 * np.sqrt(true) + 10 * noise * mag,
              f'reported {res} true {true}')
      if k > 0:
        before = float(run(k - 1)[1]['residual'])
        c.check('did not stop late', before > limit * (1 - 1e-12), f'{before} already under {limit}')
        c.check('prefix count', int(run(k - 1)[1]['num_iterations']) == k - 1)
        c.event('decisions_with_iterations')
      else:
        c.equal('no iteration returns the guess', got, x0)
      if k < maxiter:
        e, s = got - x, A * w[:, None]
        lam = np.linalg.eigvalsh((s + s.T) / 2)[0]
        mw = np.linalg.eigvalsh((M * w[:, None] + (M * w[:, None]).T) / 2)[0]
        c.check('solution error is bounded by the tolerance',
                np.linalg.norm(e) <= (np.sqrt(limit) / np.sqrt(mw) * np.max(w) / lam) * 1.01 + 1e4 * noise * np.max(w) / lam + 1e-9,
                f'error {np.linalg.norm(e)}')


def part_trajectory(mon):
  """Iterates against textbook CG, energy monotonicity and finite termination."""
  for c in mon.cases('iterates', 120, 6000):
    with c:
      n = int(c.rng.choice(SIZES))
      dot = bool(c.rng.random() < .3)
      cond = float(10 ** c.rng.uniform(0, 2))
      A, b, x, x0, M, w = _system(c, n, cond, dot)
      ref = _reference(A, b, x0, M, w, min(n, 8))
      energy, first = [], ref[0][1]
      s = A * w[:, None]
      for k, (xr, gr) in enumerate(ref):
        if k and gr <= 1e-18 * first:
          break
        got, info = _solver(dot)(A, b, x0, 0., 0., k, M, w)
        got = np.asarray(got)
        # past that point the direction of the residual is mostly rounding
        if gr > 1e-8 * first or k == 0:
          scale = np.abs(x).max() + np.abs(x0).max()
          c.close('iterate', got, xr, rtol=1e-5, scale=scale, msg=f'k={k}')
          c.close('residual history', float(info['residual']), gr, rtol=1e-4, atol=1e-9 * first)
        e = got - x
        energy.append(e @ s @ e)
        c.event('iterates')
      c.check('energy error never increases', all(
          b_ <= a_ * (1 + 1e-9) + 1e-13 * energy[0] + 1e-25 for a_, b_ in zip(energy, energy[1:])), energy)
  for c in mon.cases('termination', 40, 1500):
    with c:
      n = int(c.rng.choice(SIZES[2:]))
      m = int(c.rng.integers(1, min(n, 5) + 1))
      ev = np.linspace(1, 1 + 2 * (m - 1), m)[c.rng.integers(0, m, n)]
      q = _orth(c.rng, n)
      A = (q * ev) @ q.T
      x = c.rng.normal(size=n)
      c.describe(size=n, distinct=len(set(ev)), A=A, x=x)
      got, info = _solver()(A, A @ x, np.zeros(n), 1e-9, 0., 10 * n, np.eye(n), np.ones(n))
      c.check('as many iterations as distinct eigenvalues', int(info['num_iterations']) <= len(set(ev)),
              int(info['num_iterations']))
      c.close('solution', got, x, rtol=1e-7)
      c.event('terminations')


def part_special(mon):
  import jax
  import jax.numpy as jnp
  from swirl_fem.linalg.cg import cg
  for c in mon.cases('no work', 40, 600):
    with c:
      n = int(c.rng.choice(SIZES))
      A, b, x, x0, M, w = _system(c, n, 100., False)
      got, info = _solver()(A, np.zeros(n), np.zeros(n), 1e-5, 0., 50, M, w)
      c.check('zero right-hand side', int(info['num_iterations']) == 0 and float(info['residual']) == 0)
      c.equal('zero solution', got, np.zeros(n))
      got, info = _solver()(A, b, x, 1e-6, 0., 50, M, w)
      c.check('exact guess takes no iteration', int(info['num_iterations']) == 0)
      c.equal('exact guess is returned', got, x)
      got, info = _solver()(A, b, x0, 0., 1e9, 50, M, w)
      c.check('absolute tolerance alone', int(info['num_iterations']) == 0)
      c.event('special_systems', 3)
  for c in mon.cases('semidefinite', 60, 3000):
    with c:
      n = int(c.rng.choice(SIZES[2:]))
      rank = int(c.rng.integers(1, n))
      q = _orth(c.rng, n)
      ev = np.concatenate([np.exp(c.rng.uniform(0, 3, rank)), np.zeros(n - rank)])
      A = (q * ev) @ q.T
      A = (A + A.T) / 2
      x, x0 = c.rng.normal(size=(2, n))
      if c.rng.random() < .4:
        x0 = np.zeros(n)
      c.describe(size=n, rank=rank, A=A, x=x, x0=x0)
      got, info = _solver()(A, A @ x, x0, 1e-8, 0., 20 * n, np.eye(n), np.ones(n))
      got = np.asarray(got)
      c.check('converges', int(info['num_iterations']) < 20 * n)
      c.close('consistent system is solved', A @ got, A @ x, rtol=1e-7)
      null = q[:, rank:]
      c.close('null space component of the guess is kept', null.T @ got, null.T @ x0, rtol=1e-9,
              scale=np.abs(x0).max() + np.abs(x).max())
      c.event('semidefinite_systems')
  for c in mon.cases('defaults', 12, 200):
    with c:
      n = int(c.rng.choice(SIZES))
      A, b, x, x0, M, w = _system(c, n, 50., False)
      op = lambda v: jnp.asarray(A) @ v
      got, info = cg(op, jnp.asarray(b))
      k = int(info['num_iterations'])
      r = b - A @ np.asarray(got)
      c.check('default tolerance is 1e-5 relative', r @ r <= (1e-5) ** 2 * (b @ b) * 1.001)
      c.check('default takes the first such iterate',
              k == 0 or float(cg(op, jnp.asarray(b), maxiter=k - 1)[1]['residual']) > 1e-10 * (b @ b))
      got, info = cg(op, jnp.asarray(b), tol=0.)
      c.check('default iteration limit', int(info['num_iterations']) <= 10 * n)
      xs = c.rng.normal(size=(3, n))
      xs[1] = 0.
      sol, inf = jax.vmap(lambda rhs: cg(op, rhs, tol=1e-6))(jnp.asarray(xs))
      for i in range(3):
        one, io = cg(op, jnp.asarray(xs[i]), tol=1e-6)
        # counts may differ by rounding, so allow what the tolerance allows
        c.close('batched', sol[i], one, rtol=1e-3, scale=1e-30 + np.abs(np.asarray(one)).max() + np.abs(xs[i]).max())
        c.check('batched count', abs(int(inf['num_iterations'][i]) - int(io['num_iterations'])) <= 2 + n // 4)
        c.check('batched residual', float(inf['residual'][i]) <= 1e-12 * (xs[i] @ xs[i]) * 1.001)
      c.event('default_systems')


def part_pytree(mon):
  import jax
  import jax.numpy as jnp
  from swirl_fem.linalg.cg import cg
  for c in mon.cases('pytree', 40, 1000):
    with c:
      shapes = [(), (3,), (2, 2), (1, 4), (5,)]
      pick = [shapes[i] for i in c.rng.choice(5, int(c.rng.integers(1, 4)), replace=False)]
      sizes = [int(np.prod(s)) for s in pick]
      n = sum(sizes)
      A = _spd(c.rng, n, 50.)
      x, x0 = c.rng.normal(size=(2, n))
      weights = [float(v) for v in np.exp(c.rng.uniform(-1, 1, 1))] * len(pick)

      def split(v):
        out, i = {}, 0
        for j, (s, k) in enumerate(zip(pick, sizes)):
          out[f'leaf{j}'] = jnp.reshape(v[i:i + k], s)
          i += k
        return out
      join = lambda t: jnp.concatenate([jnp.ravel(t[f'leaf{j}']) for j in range(len(pick))])
      op = lambda t: split(jnp.asarray(A) @ join(t))
      pre = lambda t: split(join(t) / jnp.asarray(np.diag(A)))
      c.describe(shapes=[list(s) for s in pick], A=A, x=x)
      dot = lambda p, q: jnp.sum(p * q) * weights[0]
      got, info = cg(op, split(jnp.asarray(A @ x)), split(jnp.asarray(x0)), tol=1e-9, M=pre, dot_fn=dot)
      c.check('structure', jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(split(jnp.asarray(x))))
      c.check('shapes', all(got[k].shape == v.shape for k, v in split(jnp.asarray(x)).items()))
      c.close('solution', join(got), x, rtol=1e-6)
      flat, fi = cg(lambda v: jnp.asarray(A) @ v, jnp.asarray(A @ x), jnp.asarray(x0), tol=1e-9,
                    M=lambda v: v / jnp.asarray(np.diag(A)), dot_fn=dot)
      c.close('same as flattened', join(got), flat, rtol=1e-6)
      c.check('same count', abs(int(info['num_iterations']) - int(fi['num_iterations'])) <= 2 + n // 4)
      lim = 1e-18 * weights[0] * np.sum((A @ x) ** 2)
      c.check('residual below the limit', float(info['residual']) <= lim * 1.001, f"{info['residual']} {lim}")
      k = int(info['num_iterations'])
      c.check('not late', float(cg(op, split(jnp.asarray(A @ x)), split(jnp.asarray(x0)), tol=1e-9, M=pre,
                                   dot_fn=dot, maxiter=k - 1)[1]['residual']) > lim * .999)
      c.event('leaves', len(pick))


def part_single(mon):
  """Single precision: stopping decision and dtype."""
  import jax.numpy as jnp
  for c in mon.cases('float32', 80, 3000):
    with c:
      n = int(c.rng.choice(SIZES))
      A, b, x, x0, M, w = _system(c, n, 30., False)
      f = lambda a: jnp.asarray(a, jnp.float32)
      tol = float(10 ** c.rng.uniform(-5, -1))
      got, info = _solver()(f(A), f(b), f(x0), tol, 0., 20 * n + 20, f(M), f(w))
      k, res = int(info['num_iterations']), float(info['residual'])
      c.check('dtype', got.dtype == jnp.float32 and info['residual'].dtype == jnp.float32)
      c.check('converged', k < 20 * n + 20 and res <= tol ** 2 * (b @ b) * (1 + 1e-4))
      c.check('not late', k == 0 or float(_solver()(f(A), f(b), f(x0), tol, 0., k - 1, f(M), f(w))[1][
          'residual']) > tol ** 2 * (b @ b) * (1 - 1e-4))
      c.event('iterations', k)

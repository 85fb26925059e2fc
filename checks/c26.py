import numpy as np

PARTS = [dict(name=f'adjoint{i}', fn='adjoint', budget={'quick': 30.}) for i in range(6)] + [
    dict(name='exact', budget={'quick': 30.})]
RULE = ('A case is a random system, output times, cotangents and way of passing parameters; non-trivial when '
        'adjoint gradients at three resolutions of one path were compared with derivatives of a reference loop.')
ASSUMPTIONS = ['Arguments are floating point (integer or key arguments raise under differentiation).',
               'The path and the output times are constants of the adjoint (documented as not implemented).']


def _reference(sys, ts, n, cot):
  """Loss and gradients of the discrete solution, by differentiating a plain loop."""
  import jax
  import jax.numpy as jnp
  from jax import lax

  def solve(y, params, dw):
    dt = (ts[1] - ts[0]) / n
    idx = np.arange(n * (len(ts) - 1))
    times = jnp.asarray(np.asarray(ts)[idx // n] + (idx % n) * dt)

    def step(y, x):
      t, w = x
      drift, diff = sys.flat_fields(y, t, w, params, jnp)
      _, diffh = sys.flat_fields(y + diff, t + dt, w, params, jnp)
      y = y + drift * dt + .5 * (diff + diffh)
      return y, y
    _, ys = lax.scan(step, y, (times, dw))
    return ys[n - 1::n]

  def loss(y, params, dw):
    ys = solve(y, params, dw)
    return jnp.sum(cot * ys) + .5 * jnp.sum(cot * ys ** 2)
  return jax.jit(jax.value_and_grad(loss, argnums=(0, 1)))


def part_adjoint(mon):
  import jax
  import jax.numpy as jnp
  from swirlmon.systems import System
  from swirl_fem.sde.sdeint import sdeint
  for c in mon.cases('systems', 8, 300):
    with c:
      r = c.rng
      sys = System(c, strength=.6, commutative=True)
      ts = sys.times(r)
      K = len(ts) - 1
      cot = r.normal(size=(K, sys.d))
      if r.random() < .3:
        cot[:-1] = 0
      fine = 4096
      w = sys.path(r, fine * K) * np.sqrt(K)
      names = list(sys.params)
      style = int(r.integers(4))
      used = names if r.random() < .7 else [str(x) for x in r.choice(names, 2, replace=False)]
      c.describe(times=ts, arguments=['tree', 'closure', 'list', 'mixed'][style], differentiated=used, cotangent=cot,
                 path_sum=w.sum(0))
      field = sys.f(jnp)
      const = {k: jnp.asarray(v) for k, v in sys.params.items()}

      def loss(y0, p, dw):
        q = {**const, **p}
        if style == 0:
          out = sdeint(field, y0, jnp.asarray(ts), dw, q)
        elif style == 1:
          out = sdeint(lambda y, t, w: field(y, t, w, q), y0, jnp.asarray(ts), dw)
        elif style == 2:
          out = sdeint(lambda y, t, w, *a: field(y, t, w, dict(zip(names, a))), y0, jnp.asarray(ts), dw,
                       *[q[k] for k in names])
        else:
          out = sdeint(lambda y, t, w, a: field(y, t, w, {**q, names[0]: a}), y0, jnp.asarray(ts), dw, q[names[0]])
        ys = jnp.stack([sys.flat(jax.tree_util.tree_map(lambda x: x[i], out), jnp) for i in range(K)])
        return jnp.sum(cot * ys) + .5 * jnp.sum(cot * ys ** 2)
      grad = jax.jit(jax.value_and_grad(loss, argnums=(0, 1)))
      y0 = jax.tree_util.tree_map(jnp.asarray, sys.y0)
      p = {k: const[k] for k in used}
      errs, sizes = [], []
      for n in (64, 512, 4096):
        dw = w.reshape((K * n, fine // n) + sys.m).sum(1)
        value, (gy, gp) = grad(y0, p, jnp.asarray(dw))
        rv, (ry, rp) = _reference(sys, ts, n, cot)(jnp.asarray(sys.flat(sys.y0, np)), const, jnp.asarray(dw))
        c.close('value under differentiation', value, rv, rtol=1e-9, scale=1 + abs(float(rv)))
        c.check('structure of the gradient', jax.tree_util.tree_structure(gy) == jax.tree_util.tree_structure(y0) and
                sorted(gp) == sorted(used))
        parts = {'y0': (sys.flat(gy, np), np.asarray(ry))}
        parts.update({k: (np.asarray(gp[k]), np.asarray(rp[k])) for k in used})
        size = max(np.abs(b).max() for _, b in parts.values()) + 1e-3
        errs.append({k: float(np.abs(a - b).max() / size) for k, (a, b) in parts.items()})
        c.check('finite', all(np.isfinite(a).all() for a, _ in parts.values()))
        c.event('gradients', len(parts))
      c.describe(errors=[max(e.values()) for e in errs])
      for k in errs[0]:
        e = [x[k] for x in errs]
        c.check('adjoint gradient agrees', e[2] < .02, f'{k}: {e}')
        c.check('agreement improves with the resolution', e[2] < .5 * e[0] + 2e-3, f'{k}: {e}')
        m = c.mon.margins
        m['adjoint gradient error at 4096'] = max(m.get('adjoint gradient error at 4096', 0), e[2] / .02)
      if c.index % 3 == 0:
        zero = jax.jit(jax.grad(loss, argnums=2))(y0, p, jnp.asarray(w[:64 * K]))
        c.check('the path is a constant', not np.asarray(zero).any())


def part_exact(mon):
  """Gradients of flows known in closed form."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.sde.sdeint import sdeint
  for c in mon.cases('closed', 12, 100):
    with c:
      r = c.rng
      a, b, y0 = float(r.uniform(-.6, .6)), float(r.uniform(.1, .6)), float(r.uniform(.5, 1.5))
      kind = ['geometric', 'drift', 'vector', 'time'][c.index % 4]
      n = 4096
      w = r.normal(size=n) / np.sqrt(n)
      K = int(r.choice([1, 2, 4]))
      ts = np.linspace(0, 1, K + 1)
      cot = r.normal(size=K)
      W = w.reshape(K, -1).sum(1).cumsum()
      c.describe(kind=kind, a=a, b=b, y0=y0, outputs=K, W=W, cotangent=cot)
      if kind == 'geometric':
        f = lambda y, t, w, a, b: (a * y, b * y * w)
        sol = lambda y0, a, b: y0 * jnp.exp(a * ts[1:] + b * W)
      elif kind == 'drift':
        f = lambda y, t, w, a, b: (a * y + b, 0 * y)
        sol = lambda y0, a, b: (y0 + b / a) * jnp.exp(a * ts[1:]) - b / a
      elif kind == 'vector':
        f = lambda y, t, w, a, b: (0 * y, (a * jnp.array([[0., 1.], [-1., 0.]]) @ y + b * y) * w)
        sol = lambda y0, a, b: jnp.exp(b * W) * jnp.stack([jnp.cos(a * W), -jnp.sin(a * W)]) @ jnp.eye(K) * y0
      else:
        f = lambda y, t, w, a, b: (a * jnp.cos(b * 5 * t) * y, y * b * w)
        sol = lambda y0, a, b: y0 * jnp.exp(a * jnp.sin(5 * b * ts[1:]) / (5 * b) + b * W)

      def loss(y0, a, b):
        y = jnp.asarray([y0, 0.]) if kind == 'vector' else y0
        out = sdeint(f, y, jnp.asarray(ts), jnp.asarray(w), a, b)
        return jnp.sum(cot * (out.T if kind == 'vector' else out))
      def exact(y0, a, b):
        return jnp.sum(cot * sol(y0, a, b))
      got = jax.jit(jax.grad(loss, argnums=(0, 1, 2)))(y0, a, b)
      want = jax.grad(exact, argnums=(0, 1, 2))(y0, a, b)
      size = 1 + max(abs(float(x)) for x in want)
      for k, x, y in zip(('y0', 'a', 'b'), got, want):
        c.close(f'gradient of the closed form', x, y, rtol=.05, scale=size, msg=k)
      c.event('gradients', 3)

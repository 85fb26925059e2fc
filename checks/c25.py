import numpy as np

PARTS = [dict(name=f'scheme{i}', fn='scheme', budget={'quick': 20.}) for i in range(4)] + [
    dict(name='strong', budget={'quick': 20.}), dict(name='single', x64=False, budget={'quick': 20.})]
RULE = ('A case is a random system (state tree, drift, diffusion, noise shape), Brownian path and output times; '
        'non-trivial when every output state was compared with a sequential reference recursion.')
ASSUMPTIONS = ['Output times are evenly spaced and the path has the same number of increments between them.']


def _run(c, dtype, rtol):
  import jax
  import jax.numpy as jnp
  from swirlmon.systems import System
  from swirl_fem.sde.sdeint import sdeint
  r = c.rng
  sys = System(c)
  ts = sys.times(r)
  n = int(r.choice([1, 2, 3, 5, 8, 17, 40]))
  dw = sys.path(r, n * (len(ts) - 1)) * float(10 ** r.uniform(-1, .3))
  c.describe(times=ts, steps=len(dw), dw=dw)
  cast = lambda t: jax.tree_util.tree_map(lambda x: jnp.asarray(x, dtype), t)
  field = sys.f(jnp)
  style = int(r.integers(4))
  params = cast(sys.params)
  if style == 0:
    f, args = field, (params,)
  elif style == 1:
    f, args = (lambda y, t, w: field(y, t, w, params)), ()
  elif style == 2:
    names = list(params)
    f, args = (lambda y, t, w, *a: field(y, t, w, dict(zip(names, a)))), tuple(params.values())
  else:
    def f(y, t, w, i, p):  # with an integer argument
      return jax.tree_util.tree_map(lambda x: x * i, field(y, t, w, p))
    args = (jnp.asarray(1), params)
  y0, tj, wj = cast(sys.y0), cast(ts), cast(dw)
  c.describe(arguments=['tree', 'closure', 'list', 'integer'][style])
  call = lambda y0, ts, dw, *a: sdeint(f, y0, ts, dw, *a)
  context = int(r.integers(3))
  if context == 1:
    call = jax.jit(call)
  if context == 2:
    # mapped over initial states and paths
    rev = jax.tree_util.tree_map(lambda x: jnp.stack([x, 2 * x, -x]), y0)
    paths = jnp.stack([wj, -wj, wj[::-1]])
    out = jax.vmap(lambda y, w: call(y, tj, w, *args))(rev, paths)
    runs = [(jax.tree_util.tree_map(lambda x: x[i], out), s, w) for i, (s, w) in enumerate(
        zip((1., 2., -1.), (dw, -dw, dw[::-1])))]
  else:
    runs = [(call(y0, tj, wj, *args), 1., dw)]
  c.describe(context=['eager', 'jit', 'vmap'][context])
  flat0 = sys.flat(sys.y0, np)
  for out, s, w in runs:
    c.check('tree of the states', jax.tree_util.tree_structure(out) == jax.tree_util.tree_structure(sys.y0))
    c.check('type', all(x.dtype == dtype for x in jax.tree_util.tree_leaves(out)))
    got = np.stack([np.concatenate([np.asarray(p)[i].reshape(-1) for p in sys.parts(out)]) for i in range(len(ts) - 1)])
    c.check('one state per output time', all(np.shape(x)[0] == len(ts) - 1 for x in jax.tree_util.tree_leaves(out)))
    want = sys.heun(s * flat0, ts, w, sys.params)
    c.close('states', got, want, rtol=rtol, scale=1 + np.abs(want).max() + np.abs(flat0).max())
    c.event('steps', len(w))
  c.event(sys.noise)
  # splitting the interval does not matter
  if len(ts) > 2 and context < 2:
    end = call(y0, jnp.asarray([tj[0], tj[-1]]), wj, *args)
    c.close('final state with fewer output times', sys.flat(jax.tree_util.tree_map(lambda x: np.asarray(x)[0], end), np),
            got[-1], rtol=rtol, scale=1 + np.abs(want).max())
  if context < 2 and r.random() < .3:
    # sequential integrations continue each other
    m = n
    one = call(y0, tj[:2], wj[:m], *args)
    c.close('first output alone', sys.flat(jax.tree_util.tree_map(lambda x: np.asarray(x)[0], one), np), got[0],
            rtol=rtol, scale=1 + np.abs(want).max())
  c.check('inputs unchanged', np.array_equal(np.asarray(wj), dw.astype(dtype)))


def part_scheme(mon):
  for c in mon.cases('systems', 20, 800):
    with c:
      _run(c, np.float64, 1e-11)


def part_single(mon):
  for c in mon.cases('systems', 20, 500):
    with c:
      _run(c, np.float32, 3e-5)


def part_strong(mon):
  """Strong convergence to Stratonovich solutions known in closed form."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.sde.sdeint import sdeint
  forms = {
      # Stratonovich solutions as functions of t and W(t)
      'geometric': (lambda y, t, w, a, b: (a * y, b * y * w), lambda y0, a, b, t, W: y0 * np.exp(a * t + b * W)),
      'sine': (lambda y, t, w, a, b: (0 * y, b * jnp.cos(y) * w),
               lambda y0, a, b, t, W: np.arcsin(np.tanh(b * W + np.arctanh(np.sin(y0))))),
      'square root': (lambda y, t, w, a, b: (a * jnp.sqrt(1 + y * y), b * jnp.sqrt(1 + y * y) * w),
                      lambda y0, a, b, t, W: np.sinh(a * t + b * W + np.arcsinh(y0))),
      'time': (lambda y, t, w, a, b: (jnp.cos(6 * t) + 0 * y, b * (1 + 0 * y) * w),
               lambda y0, a, b, t, W: y0 + np.sin(6 * t) / 6 + b * W),
  }
  for c in mon.cases('closed', 8, 100):
    with c:
      r = c.rng
      name = list(forms)[c.index % len(forms)]
      f, exact = forms[name]
      a, b, y0 = float(r.uniform(-1, 1)), float(r.uniform(.3, 1)), float(r.uniform(.1, 1))
      c.describe(equation=name, a=a, b=b, y0=y0)
      fine = 2048
      w = r.normal(size=(60, fine)) / np.sqrt(fine)
      ts = np.array([0., .5, 1.])
      errs = []
      for n in (fine, fine // 8, fine // 64):
        wn = w.reshape(60, n, -1).sum(-1)
        out = np.asarray(jax.jit(jax.vmap(lambda w: sdeint(f, jnp.asarray(y0), jnp.asarray(ts), w, a, b)))(jnp.asarray(wn)))
        W = np.stack([wn[:, :n // 2].sum(1), wn.sum(1)], 1)
        errs.append(np.sqrt(np.mean((out - exact(y0, a, b, ts[1:], W)) ** 2)))
        c.event('paths', 60)
      c.describe(errors=[float(e) for e in errs])
      c.check('converges to the Stratonovich solution', errs[0] < .02, f'{errs}')
      c.check('the error decreases with the step', errs[0] < .35 * errs[1] + 1e-10 and errs[1] < .35 * errs[2] + 1e-10, f'{errs}')

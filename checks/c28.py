import numpy as np

PARTS = [dict(name='moments0', fn='moments'), dict(name='moments1', fn='moments'), dict(name='single', fn='single', x64=False)]
RULE = ('A case is a number of increments, a type and many keys; non-trivial when the sampled increments were '
        'compared with the normal distribution of variance 1/n.')
ASSUMPTIONS = ['Statistical limits are six standard errors or wider, with keys fixed by the seed.']


def _cdf(x):
  from math import erf
  return .5 * (1 + np.vectorize(erf)(x / np.sqrt(2)))


def _run(c, dtype, default):
  import jax
  import jax.numpy as jnp
  from swirl_fem.sde.sdeint import brownian_path
  r = c.rng
  n = int(r.choice([1, 2, 3, 7, 16, 100, 1000]))
  total = 40000
  reps = max(8, total // n)
  seed = int(r.integers(1 << 31))
  style = int(r.integers(2))
  c.describe(n=n, dtype=str(np.dtype(dtype)), default=default, key=seed, repetitions=reps)
  kw = {} if default else {'dtype': dtype}
  keys = jax.random.split(jax.random.PRNGKey(seed) if style else jax.random.key(seed), reps)
  x = np.asarray(jax.jit(jax.vmap(lambda k: brownian_path(k, n, **kw)))(keys))
  one = brownian_path(keys[0], n, **kw)
  c.check('one increment per step', one.shape == (n,), one.shape)
  c.check('type', x.dtype == dtype and np.asarray(one).dtype == dtype, f'{x.dtype}')
  c.check('real and finite', np.isrealobj(x) and np.isfinite(x).all())
  c.close('deterministic', brownian_path(keys[0], n, **kw), x[0], rtol=1e-5)
  # a few short paths may agree by chance
  c.check('keys give different paths', len({v.tobytes() for v in x}) >= (.98 if n < 3 else 1) * reps)
  z = x.astype(float) * np.sqrt(n)
  N = z.size
  lim = 6.
  c.check('mean zero', abs(z.mean()) < lim / np.sqrt(N), z.mean())
  c.check('variance 1/n', abs(z.var() - 1) < lim * np.sqrt(2 / N), z.var())
  c.check('no skew', abs((z ** 3).mean()) < lim * np.sqrt(15 / N))
  c.check('fourth moment', abs((z ** 4).mean() - 3) < lim * np.sqrt(96 / N) + .02)
  srt = np.sort(z.reshape(-1))
  ks = np.abs(_cdf(srt) - (np.arange(N) + .5) / N).max()
  c.check('normal distribution', ks < 2.6 / np.sqrt(N) + 1e-3, ks)
  if n > 1:
    lag = (z[:, 1:] * z[:, :-1]).mean()
    c.check('successive increments are uncorrelated', abs(lag) < lim / np.sqrt(reps * (n - 1)), lag)
    mirror = (z * z[:, ::-1])[:, :n // 2].mean()
    c.check('mirrored increments are uncorrelated', abs(mirror) < lim / np.sqrt(reps * (n // 2)), mirror)
    # every position has unit variance
    v = z.var(axis=0)
    if reps > 100:
      c.check('variance at every step', np.abs(v - 1).max() < 7 * np.sqrt(2 / reps), np.abs(v - 1).max())
  end = x.astype(float).sum(axis=1)
  if reps >= 40:
    c.check('unit variance at the end', abs(end.var() - 1) < 6.5 * np.sqrt(2 / reps) + 1 / reps, end.var())
    c.check('mean zero at the end', abs(end.mean()) < lim / np.sqrt(reps), end.mean())
    # different keys are independent
    pair = (end[1:] * end[:-1]).mean()
    c.check('paths are uncorrelated', abs(pair) < lim / np.sqrt(reps - 1), pair)
  c.event('increments', N)
  c.event('paths', reps)


def _long(c, dtype):
  """Correlations of long paths at all distances, along and between paths."""
  import jax
  from swirl_fem.sde.sdeint import brownian_path
  r = c.rng
  n = int(2 ** r.uniform(11, 20)) if r.random() < .6 else int(2 ** r.integers(11, 21)) + int(r.choice([0, 0, 1]))
  seed = int(r.integers(1 << 31))
  c.describe(n=n, dtype=str(np.dtype(dtype)), key=seed)
  keys = jax.random.split(jax.random.PRNGKey(seed), 2)
  path = jax.jit(lambda k: brownian_path(k, n, dtype=dtype)) if r.random() < .5 else (
      lambda k: brownian_path(k, n, dtype=dtype))
  z = np.stack([np.asarray(path(k)).astype(float) for k in keys]) * np.sqrt(n)
  c.check('one increment per step', z.shape == (2, n), z.shape)
  c.check('real and finite', np.isfinite(z).all())
  c.check('mean zero', np.abs(z.mean(1)).max() < 6 / np.sqrt(n), z.mean(1))
  c.check('variance 1/n', np.abs(z.var(1) - 1).max() < 6 * np.sqrt(2 / n), z.var(1))
  half = z[:, :n // 2].var(1), z[:, n // 2:].var(1)
  c.check('variance of both halves', np.abs(np.array(half) - 1).max() < 7 * np.sqrt(4 / n), half)
  size = 1 << (2 * n).bit_length()
  F = np.fft.rfft(z, size)
  m = int(.9 * n)
  terms = np.sqrt(n - np.arange(1, m))
  lags = lambda f: np.fft.irfft(f, size)
  for name, f in (('along a path', F[0] * np.conj(F[0])), ('between paths', F[0] * np.conj(F[1])),
                  ('between paths', F[1] * np.conj(F[0]))):
    worst = np.abs(lags(f)[1:m] / terms)
    c.check('uncorrelated ' + name, worst.max() < 7, lambda: f'distance {worst.argmax() + 1}: {worst.max()} deviations')
  # z[i] z[k - i] counts twice, its diagonal once
  conv = lags(F[0] * F[0])[:2 * n - 1]
  k = np.arange(2 * n - 1)
  count = np.minimum(k, 2 * n - 2 - k) + 1
  keep = count > .1 * n
  worst = np.abs((conv - 1)[keep]) / np.sqrt(2 * count[keep])
  c.check('uncorrelated with the reversed path', worst.max() < 7, lambda: f'{worst.max()} deviations')
  c.event('increments', 2 * n)
  c.event('distances', 3 * (m - 1))


def part_moments(mon):
  for c in mon.cases('samples', 16, 300):
    with c:
      default = c.rng.random() < .2
      dtype = np.float32 if default else [np.float32, np.float64][int(c.rng.integers(2))]
      _run(c, dtype, default)
  for c in mon.cases('long', 6, 100):
    with c:
      _long(c, [np.float32, np.float64][int(c.rng.integers(2))])


def part_single(mon):
  for c in mon.cases('samples', 16, 300):
    with c:
      _run(c, np.float32, c.rng.random() < .5)

"""Random stochastic systems that evaluate with numpy or JAX."""
import numpy as np


class System:
  """dY = drift dt + diffusion o dW on a pytree state, with parameters."""

  def __init__(self, c, noise=None, strength=1., smooth=False, commutative=False):
    r = c.rng
    self.kind = ['array', 'scalar', 'dict', 'nested', 'matrix'][int(r.integers(5))]
    self.shapes = {'array': [(3,)], 'scalar': [()], 'dict': [(2,), ()], 'nested': [(2,), (1, 2), ()],
                   'matrix': [(2, 2)]}[self.kind]
    self.d = int(sum(np.prod(s) for s in self.shapes))
    self.noise = noise or ['scalar', 'vector', 'none', 'tree'][int(r.choice(4, p=[.4, .3, .15, .15]))]
    self.m = {'scalar': (), 'none': (), 'vector': (int(r.integers(1, 4)),), 'tree': (self.d,)}[self.noise]
    d = self.d
    s = strength
    self.params = dict(A=s * r.normal(size=(d, d)) / np.sqrt(d), b=s * r.normal(size=d),
                       w=s * r.normal(size=d), k=np.array(s * r.uniform(.5, 2)))
    if self.noise == 'vector':
      self.params['C'] = s * r.normal(size=(d, self.m[0])) / np.sqrt(d)
    elif self.noise != 'none':
      self.params['C'] = s * r.normal(size=d)
    self.g = int(r.integers(3))
    self.commutative = commutative
    self.y0 = self.tree(r.normal(size=d))
    c.describe(system=self.kind, noise=self.noise, noise_shape=self.m, diffusion=self.g,
               params=list(self.params.values()), y0=self.flat(self.y0, np))

  def tree(self, v):
    parts, i = [], 0
    for s in self.shapes:
      n = int(np.prod(s))
      parts.append(v[i:i + n].reshape(s))
      i += n
    return {'array': lambda: parts[0], 'scalar': lambda: parts[0], 'matrix': lambda: parts[0],
            'dict': lambda: {'p': parts[0], 'q': parts[1]} if len(parts) > 1 else parts[0],
            'nested': lambda: (parts[0], [parts[1], {'z': parts[2]}]) if len(parts) > 2 else parts[0]}[self.kind]()

  def parts(self, y):
    if self.kind == 'dict':
      return [y['p'], y['q']]
    if self.kind == 'nested':
      return [y[0], y[1][0], y[1][1]['z']]
    return [y]

  def flat(self, y, xp):
    return xp.concatenate([xp.reshape(p, (-1,)) for p in self.parts(y)])

  def flat_fields(self, y, t, dw, params, xp):
    """Drift and diffusion of the flat state."""
    drift = xp.tanh(params['A'] @ y) + params['b'] * xp.cos(params['k'] * t) - .3 * y
    if self.noise == 'none':
      return drift, xp.zeros_like(y)
    if self.noise == 'vector' and not self.commutative:
      diff = (params['C'] * (.5 + .5 * xp.sin(params['w'] * y + t))[:, None]) @ dw
    elif self.noise == 'vector':
      diff = params['C'] @ dw
    elif self.noise == 'tree':
      diff = (.5 * params['C'] * (xp.sin(y) + t)) * dw
    else:
      shape = [.6 * y, xp.sin(params['w'] * y), xp.cos(t + y)][self.g]
      diff = params['C'] * shape * dw
    return drift, diff

  def f(self, xp, split=None):
    """The vector field on the tree; `split` chooses how parameters are passed."""
    def fields(y, t, dw, params):
      a, b = self.flat_fields(self.flat(y, xp), t, dw, params, xp)
      return self.tree(a), self.tree(b)
    return fields

  def heun(self, y, ts, dw, params, xp=np):
    """Euler-Heun on the flat state; all output states."""
    n = len(dw) // (len(ts) - 1)
    out = []
    for i in range(len(ts) - 1):
      dt = (ts[i + 1] - ts[i]) / n
      for j in range(n):
        t = ts[i] + j * dt
        w = dw[i * n + j]
        drift, diff = self.flat_fields(y, t, w, params, xp)
        _, diffh = self.flat_fields(y + diff, t + dt, w, params, xp)
        y = y + drift * dt + .5 * (diff + diffh)
      out.append(y)
    return xp.stack(out)

  def times(self, r):
    k = int(r.integers(1, 5))
    t0 = float(r.choice([0., 0., r.uniform(0, .6)]))
    t1 = float(r.choice([1., r.uniform(t0 + .2, 1.)]))
    return np.linspace(t0, t1, k + 1)

  def path(self, r, n, dtype=np.float64):
    return (r.normal(size=(n,) + self.m) / np.sqrt(n)).astype(dtype)

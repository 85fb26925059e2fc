import numpy as np

PARTS = [dict(name='coeffs')]
RULE = ('A case is an order k and a random polynomial in time with random origin and step; '
        'non-trivial when the coefficients were applied to its samples.')


def part_coeffs(mon):
  from swirl_fem.navier_stokes.navier_stokes import bdfk_coeffs, extk_coeffs
  known_ext = {1: [-1, 2], 2: [1, -3, 3], 3: [-1, 4, -6, 4]}
  known_bdf = {1: [-1, 1], 2: [.5, -2, 1.5], 3: [-1 / 3, 1.5, -3, 11 / 6],
               4: [1 / 4, -4 / 3, 3, -4, 25 / 12]}
  for c in mon.cases('table', 8, 10):
    k = c.index + 1
    with c:
      c.describe(k=k)
      e, b = np.asarray(extk_coeffs(k)), np.asarray(bdfk_coeffs(k))
      c.check('size', e.shape == (k + 1,) and b.shape == (k + 1,))
      c.close('constants extrapolate', e.sum(), 1., atol=1e-8)
      c.close('constants have no rate', b.sum(), 0., atol=1e-8)
      if k in known_ext:
        c.close('extrapolation table', e, known_ext[k], atol=1e-10)
      if k in known_bdf:
        c.close('bdf table', b, known_bdf[k], atol=1e-10)
  for c in mon.cases('polynomial', 400, 4000):
    with c:
      k = int(c.rng.integers(1, 9))
      deg = int(c.rng.integers(0, k + 1))
      dt, t0 = c.rng.uniform(.01, 2), c.rng.uniform(-1, 1)
      p = np.polynomial.Polynomial(c.rng.normal(size=deg + 1))
      c.describe(k=k, degree=deg, dt=dt, t0=t0)
      t = t0 + dt * np.arange(-k, 1)
      e, b = np.asarray(extk_coeffs(k)), np.asarray(bdfk_coeffs(k))
      s = np.abs(p(t)).max() * 2 ** (k + 1) + 1e-3
      c.event('histories')
      c.close('extrapolation', e @ p(t), p(t0 + dt), rtol=1e-9, scale=s)
      c.close('derivative', b @ p(t), dt * p.deriv()(t0) if deg else 0., rtol=1e-9, scale=s)

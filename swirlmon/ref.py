"""Independent numerics: everything here avoids /repo and jax."""
import functools
import itertools

import numpy as np
from numpy.polynomial import legendre as L


@functools.lru_cache(None)
def gl(n):
  x = np.sort(np.real(L.Legendre.basis(n).roots())) if n > 0 else np.array([])
  for _ in range(3):
    c = np.zeros(n + 1)
    c[n] = 1
    x = x - L.legval(x, c) / L.legval(x, L.legder(c))
  c = np.zeros(n + 1)
  c[n] = 1
  w = 2 / ((1 - x ** 2) * L.legval(x, L.legder(c)) ** 2)
  return x, w


@functools.lru_cache(None)
def gll(n):
  c = np.zeros(n)
  c[n - 1] = 1
  d = L.legder(c)
  if n > 2:
    x = np.sort(np.real(L.Legendre(d).roots()))
    for _ in range(3):
      x = x - L.legval(x, d) / L.legval(x, L.legder(d))
    x = np.concatenate([[-1.], x, [1.]])
  else:
    x = np.array([-1., 1.])
  w = 2 / (n * (n - 1) * L.legval(x, c) ** 2)
  return x, w


def nc(n):
  x = -1 + 2 * np.arange(n) / (n - 1)
  w = np.full(n, 2. / (n - 1))
  w[[0, -1]] /= 2
  return x, w


def rule(kind, n):
  return {'gauss_legendre': gl, 'gauss_lobatto_legendre': gll, 'newton_cotes': nc}[kind](n)


def lagrange(nodes, x):
  """Values and derivatives [m, n] of the Lagrange basis, by product formulas."""
  nodes, x = np.asarray(nodes, float), np.asarray(x, float)
  n, m = len(nodes), len(x)
  val, der = np.ones((m, n)), np.zeros((m, n))
  for j in range(n):
    for k in range(n):
      if k != j:
        val[:, j] *= (x - nodes[k]) / (nodes[j] - nodes[k])
    for l in range(n):
      if l == j:
        continue
      t = np.full(m, 1 / (nodes[j] - nodes[l]))
      for k in range(n):
        if k not in (j, l):
          t *= (x - nodes[k]) / (nodes[j] - nodes[k])
      der[:, j] += t
  return val, der


def tensor(points, ndim):
  """Lexicographic tensor grid [n^ndim, ndim]."""
  return np.array(list(itertools.product(points, repeat=ndim)), dtype=float).reshape(
      (len(points) ** ndim, ndim))


def tensor_weights(w, ndim):
  return np.array([np.prod(t) for t in itertools.product(w, repeat=ndim)])


def kron(ms):
  return functools.reduce(np.kron, ms)


def basis_nd(nodes, x, ndim):
  """phi [q, n^d] and reference gradients [q, n^d, d]."""
  v, d = lagrange(nodes, x)
  phi = kron([v] * ndim)
  dphi = np.stack([kron([d if i == a else v for i in range(ndim)]) for a in range(ndim)], axis=-1)
  return phi, dphi


class Geometry:
  """Element maps at tensor quadrature points, from nodal coordinates [E, n^d, d]."""

  def __init__(self, coords, nodes1d, xq, wq):
    coords = np.asarray(coords, float)
    self.ndim = coords.shape[-1]
    self.phi, self.dphi = basis_nd(nodes1d, xq, self.ndim)
    self.w = tensor_weights(wq, self.ndim)
    self.x = np.einsum('qn,end->eqd', self.phi, coords)
    # J[e,q,i,j] = d x_j / d xi_i
    self.jac = np.einsum('qni,enj->eqij', self.dphi, coords)
    self.det = np.linalg.det(self.jac)
    self.inv = np.linalg.inv(self.jac)
    self.wdet = self.w[None] * self.det

  def physical_gradients(self, dphi=None):
    """d phi_n / d x_j as [E, q, n, d]; (dx_j/dxi_i) has inverse (dxi_i/dx_j)."""
    dphi = self.dphi if dphi is None else dphi
    return np.einsum('qni,eqji->eqnj', dphi, self.inv)

  def integrate(self, f):
    return float(np.sum(self.wdet * f(self.x)))


def assemble(elements, local, n):
  """Sums [E, k, l] blocks into a dense [n, n] matrix."""
  out = np.zeros((n, n))
  for e, blk in zip(np.asarray(elements), local):
    np.add.at(out, (e[:, None], e[None, :]), blk)
  return out


def random_poly(rng, ndim, degree, total=False):
  """A random polynomial with per-variable (or total) degree bound: (f, grads).

  Evaluates on [..., ndim] arrays of any precision.
  """
  shape = [degree + 1] * ndim
  c = rng.normal(size=shape)
  if total:
    s = np.indices(shape).sum(axis=0)
    c = np.where(s <= degree, c, 0)

  def ev(coef, x, xp=np):
    pows = [[xp.ones_like(x[..., a])] for a in range(ndim)]
    for a in range(ndim):
      for _ in range(max(coef.shape) - 1):
        pows[a].append(pows[a][-1] * x[..., a])
    out = 0. * x[..., 0]
    for idx in np.ndindex(*coef.shape):
      if coef[idx] != 0:
        t = coef[idx]
        for a in range(ndim):
          t = t * pows[a][idx[a]]
        out = out + t
    return out

  def deriv(coef, a):
    k = np.arange(coef.shape[a])
    m = np.moveaxis(coef, a, 0) * k.reshape([-1] + [1] * (ndim - 1))
    m = np.concatenate([m[1:], np.zeros_like(m[:1])])
    return np.moveaxis(m, 0, a)

  grads = [deriv(c, a) for a in range(ndim)]
  f = lambda x, xp=np: ev(c, x, xp)
  df = [lambda x, xp=np, g=g: ev(g, x, xp) for g in grads]
  return f, df

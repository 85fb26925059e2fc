"""Random finite element spaces together with their independent reference."""
import numpy as np

from swirlmon import gen, ref


class Space:
  pass


def quadrature(rng, lo, hi, kinds=None):
  from swirl_fem.core.interpolation import NodeType, Quadrature1D
  kind = str(rng.choice(kinds or ['gauss_legendre', 'gauss_legendre', 'gauss_lobatto_legendre',
                                  'newton_cotes']))
  n = int(rng.integers(max(lo, 1 if kind == 'gauss_legendre' else 2), hi + 1))
  return kind, n, Quadrature1D.create(num_points=n, quadrature_type=NodeType(kind))


def nodes(rng, ndim, lo=2, hi=None, kinds=None):
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  kind = str(rng.choice(kinds or ['gauss_lobatto_legendre'] * 3 + ['newton_cotes', 'gauss_legendre']))
  n = int(rng.integers(lo, (hi or {1: 8, 2: 6, 3: 4}[ndim]) + 1))
  return kind, n, Nodes1D.create(num_points=n, node_type=NodeType(kind))


def bend(rng, x, eps=.05):
  """A smooth map with positive Jacobian applied to node coordinates."""
  span = np.ptp(x, axis=0).max()
  k = rng.uniform(-2, 2, (x.shape[1], x.shape[1])) / span
  ph = rng.uniform(0, 6, x.shape[1])
  amp = eps * span * rng.uniform(-1, 1, (x.shape[1], x.shape[1]))
  return x + np.sin(x @ k.T + ph) @ amp.T


def shear(rng, x):
  """Slides layers over each other: preserves volumes, is not affine, and is exact for elements of degree two."""
  k = rng.normal(size=x.shape[1])
  k /= np.linalg.norm(k)
  if rng.random() < .5:
    k = np.eye(x.shape[1])[int(rng.integers(x.shape[1]))]
  d = rng.normal(size=x.shape[1])
  d -= k * (d @ k)
  d /= np.linalg.norm(d)
  h = (x - x.mean(axis=0)) @ k
  return x + rng.uniform(.2, .8) * np.outer(h ** 2, d) / np.ptp(x, axis=0).max()


def random_space(c, ndim, orient='proper', geometry=None, kinds=None, qlo=2, qhi=None, qkinds=None,
                 lo=2, hi=None, size='small', raw=None, curve=None):
  """A mesh, refined and possibly curved, with a random quadrature."""
  from swirl_fem.core.mesh_refiner import refine_premesh
  s = Space()
  s.raw = raw or gen.random_mesh(c.rng, ndim, size, orient=orient, geometry=geometry)
  s.kind, s.n, g = nodes(c.rng, ndim, lo, hi, kinds)
  s.pm = gen.to_premesh(s.raw)
  if s.n > 2 or s.kind != 'newton_cotes':
    s.pm = refine_premesh(s.pm, gridpoints_1d=g)
  s.curved = bool(c.rng.random() < .4) if curve is None else curve
  if s.curved:
    bent = shear if ndim > 1 and c.rng.random() < .3 else bend
    flat = s.pm
    s.pm = flat.replace(node_coords=bent(c.rng, np.asarray(flat.node_coords)))
  s.qkind, s.nq, s.quad = quadrature(c.rng, qlo, qhi or {1: 9, 2: 7, 3: 5}[ndim], qkinds)
  if c.rng.random() < .3 and qlo <= s.n <= (qhi or {1: 9, 2: 7, 3: 5}[ndim]):
    # as many points as nodes, mostly of another family
    s.qkind, s.nq, s.quad = quadrature(c.rng, s.n, s.n, qkinds)
  s.nodes1d = ref.rule(s.kind, s.n)[0]
  s.xq, s.wq = ref.rule(s.qkind, s.nq)
  s.els = np.asarray(s.pm.elements)
  s.N = len(s.pm.node_coords)
  s.coords = np.asarray(s.pm.node_coords)
  s.geo = ref.Geometry(s.coords[s.els], s.nodes1d, s.xq, s.wq)
  lo, hi = s.geo.det.min(axis=1), s.geo.det.max(axis=1)
  if s.curved and bent is shear and not (np.minimum(lo / hi, hi / lo) > .1).all():
    # layers between the nodes of elements which are not parallel may cross
    s.pm = flat.replace(node_coords=bend(c.rng, np.asarray(flat.node_coords)))
    s.coords = np.asarray(s.pm.node_coords)
    s.geo = ref.Geometry(s.coords[s.els], s.nodes1d, s.xq, s.wq)
  s.ndim = ndim
  s.mesh = s.pm.finalize()
  c.describe(mesh=s.raw.kind, nodes=s.kind, points=s.n, curved=s.curved, quadrature=s.qkind,
             quadrature_points=s.nq, coords=s.coords, elements=s.els)
  c.event('elements', len(s.els))
  return s

"""Flow setups with independently assembled dense reference operators (numpy)."""
import functools

import numpy as np

from swirlmon import gen, ref


class Flow:
  pass


def random_flow(c, ndim, order=None, maxorder=None, periodic=None, raw=None, dirichlet=None, overint=None,
                geometry=True):
  """A random premesh with boundary conditions, and the code's operators on it."""
  from swirl_fem.navier_stokes.navier_stokes import StokesSEM, BCType
  r = c.rng
  fl = Flow()
  if raw is None:
    if periodic is None:
      periodic = r.random() < .5
    if periodic:
      raw = gen.random_periodic_box(r, ndim, maxcount=3 if ndim < 3 else 2, mincount=1,
                                    side_groups=True, geometry=geometry)
    else:
      raw = gen.random_mesh(r, ndim, 'tiny' if ndim == 3 else 'small',
                            geometry=None if geometry else 'plain')
      bd = raw.groups['boundary']
      cut = int(r.integers(1, len(bd) + 1))
      perm = r.permutation(len(bd))
      raw.groups = {'boundary': bd, 'part': bd[perm[:cut]]}
  fl.raw = raw
  groups = sorted(raw.groups)
  if dirichlet is None:
    dirichlet = [g for g in groups if r.random() < .6]
  fl.dirichlet = dirichlet
  fl.order = order or int(r.integers(2, (maxorder or {2: 6, 3: 3}[ndim]) + 1))
  fl.over = int(r.integers(0, 4)) if overint is None else overint
  bcs = {g: (BCType.DIRICHLET, 0.) for g in dirichlet}
  for g in groups:
    if g not in bcs and r.random() < .5:
      bcs[g] = (BCType.NEUMANN, 0.)
  c.describe(mesh=raw.kind, nodes=raw.nodes, elements=raw.elements, links=raw.links, order=fl.order,
             dirichlet=dirichlet, overintegration=fl.over)
  fl.premesh = gen.to_premesh(raw)
  fl.sem = StokesSEM.create(fl.premesh, bcs, order=fl.order, num_convection_overint_nodes=fl.over)
  reference(fl)
  c.event('elements', len(raw.elements))
  return fl


def reference(fl):
  """Dense operators from the finalized velocity and pressure meshes."""
  vm, pm = fl.sem.velocity.mesh, fl.sem.pressure.pspace.mesh
  ndim = fl.ndim = fl.raw.ndim
  fl.ve, fl.pe = np.asarray(vm.elements), np.asarray(pm.elements)
  fl.vx, fl.px = np.asarray(vm.node_coords), np.asarray(pm.node_coords)
  fl.N, fl.P = len(fl.vx), len(fl.px)
  n = fl.order + 1
  fl.xv, fl.wv = ref.gll(n)
  fl.xp, _ = ref.gl(fl.order - 1)
  lin = np.array([-1., 1.])
  corners = fl.raw.nodes[fl.raw.elements]
  geo = ref.Geometry(corners, lin, fl.xv, fl.wv)
  fl.geo = geo
  phi, dphi = ref.basis_nd(fl.xv, fl.xv, ndim)
  G = geo.physical_gradients(dphi)
  fl.G = G
  psi, _ = ref.basis_nd(fl.xp, fl.xv, ndim)
  mask = np.ones(fl.N)
  for g in fl.dirichlet:
    mask[_group_nodes(fl, g)] = 0.
  fl.mask = mask
  fl.cls = np.unique(_classes(fl), return_inverse=True)[1]
  fl.mass = np.zeros(fl.N)
  np.add.at(fl.mass, fl.ve, geo.wdet)
  fl.A = ref.assemble(fl.ve, np.einsum('eq,eqnj,eqmj->enm', geo.wdet, G, G), fl.N)
  # D[p, (n, k)]: integral of psi_p d_k phi_n
  loc = np.einsum('eq,qp,eqnk->epnk', geo.wdet, psi, G)
  fl.D = np.zeros((fl.P, fl.N, ndim))
  for e in range(len(fl.ve)):
    for k in range(ndim):
      np.add.at(fl.D[:, :, k], (fl.pe[e][:, None], fl.ve[e][None, :]), loc[e, :, :, k])
  fl.Bp = ref.assemble(fl.pe, np.einsum('eq,qp,qr->epr', geo.wdet, psi, psi), fl.P)
  fl.mult = np.zeros(fl.N)
  np.add.at(fl.mult, fl.ve, 1.)
  # the filter: interpolate to one node fewer and back
  low = ref.gll(n - 1)[0] if n > 2 else np.zeros(1)
  down = ref.kron([ref.lagrange(fl.xv, low)[0]] * ndim)
  up = ref.kron([ref.lagrange(low, fl.xv)[0]] * ndim)
  fl.proj = up @ down


def _group_nodes(fl, g):
  """Velocity nodes on the facets of a group, or identified with such a node."""
  v = _refined(fl)
  facets = np.unique(np.asarray(v.physical_groups[g]))
  cls = _classes(fl)
  return np.isin(cls, np.unique(cls[facets]))


def _refined(fl):
  if not hasattr(fl, '_vpm'):
    from swirl_fem.core.interpolation import Nodes1D, NodeType
    from swirl_fem.core.mesh_refiner import refine_premesh
    fl._vpm = refine_premesh(fl.premesh, gridpoints_1d=Nodes1D.create(
        num_points=fl.order + 1, node_type=NodeType.GAUSS_LOBATTO_LEGENDRE))
  return fl._vpm


def _classes(fl):
  return gen.link_classes(len(_refined(fl).node_coords), _refined(fl).periodic_links)


def exchange(fl, u):
  out = np.zeros((fl.cls.max() + 1,) + u.shape[1:])
  np.add.at(out, fl.cls, u)
  return out[fl.cls]


def average(fl, ul):
  """Averages element-wise values over all copies of a node."""
  out = np.zeros((fl.N,) + ul.shape[2:])
  np.add.at(out, fl.ve, ul)
  m = exchange(fl, fl.mult).reshape((-1,) + (1,) * (out.ndim - 1))
  return exchange(fl, out) / m


def convection(fl, u):
  """Integral of v . (u . grad u) with overintegration, rows of Dirichlet nodes zeroed."""
  x, w = ref.gll(fl.order + 1 + fl.over)
  phi, dphi = ref.basis_nd(fl.xv, x, fl.ndim)
  geo = ref.Geometry(fl.raw.nodes[fl.raw.elements], np.array([-1., 1.]), x, w)
  G = geo.physical_gradients(dphi)
  uq = np.einsum('qn,enk->eqk', phi, u[fl.ve])
  du = np.einsum('eqnj,enk->eqjk', G, u[fl.ve])
  loc = np.einsum('eq,eqj,eqjk,qn->enk', geo.wdet, uq, du, phi)
  out = np.zeros_like(u)
  np.add.at(out, fl.ve, loc)
  return out * fl.mask[:, None]


def continuous(fl, rng, field=None):
  """A random field equal at identified nodes and zero on Dirichlet nodes."""
  vals = rng.normal(size=(fl.cls.max() + 1, fl.ndim))
  return vals[fl.cls] * fl.mask[:, None]


def filtered(fl, u, alpha):
  return (1 - alpha) * u + alpha * average(fl, np.einsum('qn,enk->eqk', fl.proj, u[fl.ve]))


def Bi(fl, u):
  return exchange(fl, u) / exchange(fl, fl.mass)[:, None]


def E(fl, dt, beta):
  """The dense pressure operator D Q Dt."""
  Dt = np.transpose(fl.D, (1, 2, 0)) * fl.mask[:, None, None]
  Q = Bi(fl, Dt.reshape(fl.N, -1)).reshape(Dt.shape) * (dt / beta)
  return np.einsum('pnk,nkq->pq', fl.D, Q)


def closed(fl):
  """Whether every boundary facet that is not periodic belongs to a Dirichlet group."""
  raw = fl.raw
  bd = {tuple(sorted(f)) for f in gen.boundary_facets(raw.elements, raw.ndim).tolist()}
  if raw.links is not None:
    bd -= {tuple(sorted(f)) for pair in raw.links.tolist() for f in pair}
  for g in fl.dirichlet:
    bd -= {tuple(sorted(f)) for f in np.asarray(raw.groups[g]).tolist()}
  return not bd


def bdf(k):
  """Backward difference coefficients, oldest first, from Taylor conditions."""
  t = np.arange(-k, 1.)
  V = np.vander(t, k + 1, increasing=True).T
  rhs = np.zeros(k + 1)
  rhs[1] = 1.
  return np.linalg.solve(V, rhs)


def one_step(fl, us, ps, f, mu, dt, k, alpha, ub=None):
  """The documented fractional step, by dense solves in the space of continuous fields."""
  m = fl.mask[:, None]
  beta = bdf(k)
  pext = 2 * ps[-1] - ps[-2]
  DtM = np.transpose(fl.D, (1, 2, 0)) * fl.mask[:, None, None]
  b = f + DtM @ pext - m * fl.mass[:, None] * sum(c * u for c, u in zip(beta[:-1], us)) / dt
  H = m * (beta[-1] / dt * np.diag(fl.mass) + mu * fl.A)
  if ub is not None:
    b = b - H @ ub
  nc = fl.cls.max() + 1
  R = np.zeros((fl.N, nc))
  R[np.arange(fl.N), fl.cls] = 1.
  free = (R.T @ (1 - fl.mask)) == 0
  Hc = (R.T @ H @ R)[np.ix_(free, free)]
  x = np.zeros((nc, fl.ndim))
  if free.any():
    x[free] = np.linalg.solve(Hc, (R.T @ b)[free])
  ustar = R @ x
  if ub is not None:
    ustar = ustar + ub
  ustar = filtered(fl, ustar, alpha)
  Em = E(fl, dt, beta[-1])
  w, V = np.linalg.eigh((Em + Em.T) / 2)
  rhs = -np.einsum('pnk,nk->p', fl.D, ustar)
  keep = w > 1e-9 * w[-1]
  dp = V[:, keep] @ ((V[:, keep].T @ rhs) / w[keep])
  u = ustar + dt / beta[-1] * Bi(fl, DtM @ dp)
  lost = np.linalg.norm(V[:, ~keep].T @ rhs)
  return u, pext + dp, dict(ustar=ustar, dp=dp, lost=lost, null=V[:, ~keep], cond=w[-1] / w[keep].min() if keep.any() else 1.,
                            rhs=rhs, b=b)

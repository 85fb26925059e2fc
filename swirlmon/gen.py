"""Workload generators: meshes as plain numpy data, independent of /repo."""
import dataclasses
import itertools

import numpy as np


@dataclasses.dataclass
class Raw:
  """A first order mesh: elements and facets list corners lexicographically."""
  nodes: np.ndarray
  elements: np.ndarray
  groups: dict = dataclasses.field(default_factory=dict)
  links: np.ndarray | None = None
  partitions: np.ndarray | None = None
  kind: str = ''

  @property
  def ndim(self):
    return self.nodes.shape[1]

  def copy(self, **kw):
    return dataclasses.replace(self, **kw)


def symmetries(ndim, proper=False):
  """Corner permutations of the cube [(perm)], all or orientation preserving."""
  e = np.arange(2 ** ndim).reshape([2] * ndim)
  out = []
  for perm in itertools.permutations(range(ndim)):
    sign = np.linalg.det(np.eye(ndim)[list(perm)]) if ndim else 1.
    for flips in itertools.product((0, 1), repeat=ndim):
      if proper and sign * (-1) ** sum(flips) < 0:
        continue
      ax = tuple(i for i in range(ndim) if flips[i])
      out.append(np.flip(e.transpose(perm), ax).flatten())
  return out


def local_facets(ndim):
  """Corner index lists (lexicographic) of the 2*ndim faces of a cube element."""
  e = np.arange(2 ** ndim).reshape([2] * ndim)
  return [e.take(s, axis=a).flatten() for a in range(ndim) for s in (0, 1)]


def boundary_facets(elements, ndim):
  """Facets belonging to just one element, as corner lists."""
  seen = {}
  for e in elements:
    for lf in local_facets(ndim):
      f = e[lf]
      seen.setdefault(tuple(sorted(f.tolist())), []).append(f)
  return np.array([v[0] for v in seen.values() if len(v) == 1], dtype=np.int64).reshape(
      (-1, 2 ** (ndim - 1)))


def all_facets(elements, ndim):
  seen = {}
  for e in elements:
    for lf in local_facets(ndim):
      f = e[lf]
      seen.setdefault(tuple(sorted(f.tolist())), f)
  return np.array(list(seen.values()), dtype=np.int64).reshape((-1, 2 ** (ndim - 1)))


def box(counts, periodic=(), lengths=None, origin=None, side_groups=False):
  """A structured box with `counts` elements per dimension."""
  ndim = len(counts)
  lengths = np.ones(ndim) if lengths is None else np.asarray(lengths, float)
  origin = np.zeros(ndim) if origin is None else np.asarray(origin, float)
  npts = [c + 1 for c in counts]
  grid = np.indices(npts).reshape(ndim, -1).T
  nodes = origin + grid * lengths / np.asarray(counts)
  idx = np.arange(len(grid)).reshape(npts)
  elements = []
  for cell in itertools.product(*[range(c) for c in counts]):
    elements.append([idx[tuple(np.add(cell, off))]
                     for off in itertools.product((0, 1), repeat=ndim)])
  groups, links = {}, []
  boundary = []
  for a in range(ndim):
    others = [b for b in range(ndim) if b != a]
    sides = []
    for s in (0, counts[a]):
      facets = []
      for cell in itertools.product(*[range(counts[b]) for b in others]):
        f = []
        for off in itertools.product((0, 1), repeat=ndim - 1):
          m = np.zeros(ndim, int)
          m[a] = s
          m[others] = np.add(cell, off)
          f.append(idx[tuple(m)])
        facets.append(f)
      sides.append(np.array(facets, dtype=np.int64).reshape(-1, 2 ** (ndim - 1)))
    if a in periodic:
      links.append(np.stack(sides, axis=1))
    else:
      boundary += sides
      if side_groups:
        groups[f'lo{a}'], groups[f'hi{a}'] = sides
  if boundary:
    groups['boundary'] = np.concatenate(boundary)
  return Raw(nodes, np.array(elements, dtype=np.int64), groups,
             np.concatenate(links) if links else None,
             kind=f'box{tuple(counts)}' + (f'p{tuple(periodic)}' if periodic else ''))


def _orient(nodes, elements):
  """Flips elements with negative corner jacobians so that all are positive."""
  ndim = nodes.shape[1]
  out = []
  for e in elements:
    x = nodes[e].reshape([2] * ndim + [ndim])
    o = tuple([0] * ndim)
    jac = np.array([x[tuple(1 if i == a else 0 for i in range(ndim))] - x[o]
                    for a in range(ndim)])
    if np.linalg.det(jac) < 0:
      e = np.flip(e.reshape([2] * ndim), -1).flatten()
    out.append(e)
  return np.array(out)


def _index(points):
  table = {}
  def get(p):
    key = tuple(np.round(p, 10) + 0.)
    if key not in table:
      table[key] = len(points)
      points.append(np.asarray(p, float))
    return table[key]
  return get


def simplex_mesh(rng, ndim, npts):
  """Unstructured mesh: each simplex of a Delaunay mesh cut into ndim+1 cubes."""
  import scipy.spatial
  side = max(2, int(round(npts ** (1 / ndim))))
  grid = np.indices([side] * ndim).reshape(ndim, -1).T / (side - 1.)
  inner = np.all((grid > 0) & (grid < 1), axis=1)
  jit = grid + (rng.uniform(-.25, .25, grid.shape) / (side - 1.)) * inner[:, None]
  # keep points of a side on that side so that hull slivers cannot appear
  on = (grid == 0) | (grid == 1)
  jit = np.where(on, grid, jit + rng.uniform(-.2, .2, grid.shape) / (side - 1.) * ~on)
  tri = scipy.spatial.Delaunay(jit)
  simplices = []
  for s in tri.simplices:
    vol = abs(np.linalg.det(jit[s[1:]] - jit[s[0]]))
    if vol > 1e-3 / side ** ndim:
      simplices.append(s)
  pts = []
  get = _index(pts)
  elements = []
  for s in simplices:
    c = jit[s]
    for v in range(ndim + 1):
      others = [i for i in range(ndim + 1) if i != v]
      e = []
      for off in itertools.product((0, 1), repeat=ndim):
        use = [v] + [others[i] for i in range(ndim) if off[i]]
        e.append(get(c[use].mean(axis=0)))
      elements.append(e)
  nodes = np.array(pts)
  elements = _orient(nodes, np.array(elements, dtype=np.int64))
  raw = Raw(nodes, elements, kind=f'simplex{ndim}d{len(elements)}')
  raw.groups = {'boundary': boundary_facets(elements, ndim)}
  return raw


def annulus(sectors, layers, r0=.5, r1=1.):
  nodes, idx = [], {}
  for i in range(sectors):
    for j in range(layers + 1):
      t = 2 * np.pi * i / sectors
      r = r0 + (r1 - r0) * j / layers
      idx[i, j] = len(nodes)
      nodes.append([r * np.cos(t), r * np.sin(t)])
  elements = [[idx[i, j], idx[(i + 1) % sectors, j], idx[i, j + 1], idx[(i + 1) % sectors, j + 1]]
              for i in range(sectors) for j in range(layers)]
  nodes = np.array(nodes)
  elements = _orient(nodes, np.array(elements, dtype=np.int64))
  raw = Raw(nodes, elements, kind=f'annulus{sectors}x{layers}')
  raw.groups = {'boundary': boundary_facets(elements, 2)}
  return raw


def extrude(raw2, layers, height=1., twist=0.):
  n2 = len(raw2.nodes)
  nodes, elements = [], []
  for k in range(layers + 1):
    t = twist * k / layers
    rot = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
    for p in raw2.nodes:
      nodes.append([*(rot @ p), height * k / layers])
  for k in range(layers):
    for e in raw2.elements:
      elements.append([v + n2 * (k + s) for v in e for s in (0, 1)])
  nodes = np.array(nodes)
  elements = _orient(nodes, np.array(elements, dtype=np.int64))
  raw = Raw(nodes, elements, kind=f'extruded({raw2.kind})')
  raw.groups = {'boundary': boundary_facets(elements, 3)}
  return raw


def drop_elements(rng, raw, keep):
  """A random sub-mesh (holes, re-entrant corners, pinched vertices)."""
  k = np.sort(rng.choice(len(raw.elements), size=keep, replace=False))
  elements = raw.elements[k]
  used = np.unique(elements)
  new = -np.ones(len(raw.nodes), dtype=np.int64)
  new[used] = np.arange(len(used))
  elements = new[elements]
  out = Raw(raw.nodes[used], elements, kind=f'sub({raw.kind})')
  out.groups = {'boundary': boundary_facets(elements, raw.ndim)}
  return out


def linear_map(rng, ndim, shear=.4):
  """A random matrix with positive determinant, well conditioned."""
  q, _ = np.linalg.qr(rng.normal(size=(ndim, ndim)))
  if np.linalg.det(q) < 0:
    q[:, 0] *= -1
  return q @ (np.eye(ndim) + np.triu(rng.uniform(-shear, shear, (ndim, ndim)), 1)) @ np.diag(
      rng.uniform(.6, 1.5, ndim))


def affine(rng, raw):
  a = linear_map(rng, raw.ndim)
  return raw.copy(nodes=raw.nodes @ a.T + rng.uniform(-2, 2, raw.ndim))


def curved(rng, raw, eps=.06):
  """A smooth non-affine map of the vertices (keeps elements valid)."""
  x = raw.nodes
  span = np.ptp(x, axis=0).max()
  y = x.copy()
  for a in range(raw.ndim):
    k = rng.uniform(1, 2.5, raw.ndim)
    ph = rng.uniform(0, 2 * np.pi)
    y[:, a] += eps * span * np.sin(x / span @ k * 2 + ph)
  return raw.copy(nodes=y)


def scramble(rng, raw, orient='proper', permute=True):
  """Renumbers nodes and elements; turns elements, facets and link pairs."""
  ndim = raw.ndim
  sym = symmetries(ndim, proper=orient == 'proper')
  fsym = symmetries(ndim - 1)
  elements = np.stack([e[sym[rng.integers(len(sym))]] for e in raw.elements])
  p = rng.permutation(len(raw.nodes)) if permute else np.arange(len(raw.nodes))
  nodes = np.empty_like(raw.nodes)
  nodes[p] = raw.nodes
  eperm = rng.permutation(len(elements)) if permute else np.arange(len(elements))
  elements = p[elements][eperm]
  groups = {}
  for k, v in raw.groups.items():
    if ndim == 1:
      groups[k] = p[v][rng.permutation(len(v))]
    else:
      groups[k] = np.stack([p[f[fsym[rng.integers(len(fsym))]]] for f in v])[
          rng.permutation(len(v))]
  links = None
  if raw.links is not None:
    links = []
    for a, b in raw.links:
      s = fsym[rng.integers(len(fsym))]
      pair = [p[a[s]], p[b[s]]]
      if rng.random() < .5:
        pair.reverse()
      links.append(pair)
    links = np.array(links)[rng.permutation(len(links))]
  parts = raw.partitions[eperm] if raw.partitions is not None else None
  return Raw(nodes, elements, groups, links, parts, kind='scrambled ' + raw.kind), p, eperm


def random_partitions(rng, n, parts, style=None):
  style = style or rng.choice(['random', 'blocks', 'skewed'])
  if style == 'blocks':
    out = np.sort(rng.integers(0, parts, n))
  elif style == 'skewed':
    out = np.minimum(rng.geometric(.6, n) - 1, parts - 1)
  else:
    out = rng.integers(0, parts, n)
  # each partition must own at least one element
  perm = rng.permutation(n)[:parts]
  out[perm] = np.arange(parts)
  return out.astype(np.int64)


def random_mesh(rng, ndim, size='small', orient='proper', geometry=None, scrambled=True):
  """A random conforming mesh of one of the families."""
  big = {'tiny': 0, 'small': 1, 'medium': 2}[size]
  if ndim == 1:
    n = int(rng.integers(2, 4 + 4 * big))
    raw = box((n,), lengths=[rng.uniform(.5, 3)])
    x = np.sort(rng.uniform(0, 1, n - 1)) * .0 + np.linspace(0, 1, n + 1)[1:-1]
    raw.nodes[1:-1, 0] = raw.nodes[-1, 0] * (x + rng.uniform(-.3, .3, n - 1) / n)
    fam = 'chain'
  elif ndim == 2:
    fam = rng.choice(['box', 'simplex', 'annulus', 'sub'])
    if fam == 'box':
      raw = box(tuple(rng.integers(1, 3 + big, 2)), lengths=rng.uniform(.5, 2, 2))
    elif fam == 'simplex':
      raw = simplex_mesh(rng, 2, 4 + 3 * big)
    elif fam == 'annulus':
      raw = annulus(int(rng.integers(4, 6 + 2 * big)), int(rng.integers(1, 2 + big)))
    else:
      raw = box((3, 3))
      raw = drop_elements(rng, raw, int(rng.integers(3, 8)))
  else:
    fam = rng.choice(['box', 'simplex', 'extrude', 'sub'], p=[.3, .3, .25, .15])
    if fam == 'box':
      raw = box(tuple(rng.integers(1, 3, 3)), lengths=rng.uniform(.5, 2, 3))
    elif fam == 'simplex':
      raw = simplex_mesh(rng, 3, 8)
      if big < 2:
        # a star of cells around a vertex keeps irregular edges but few elements
        counts = np.bincount(raw.elements.flatten(), minlength=len(raw.nodes))
        hub = int(np.argmax(counts))
        star = [i for i, e in enumerate(raw.elements) if hub in e]
        raw = _submesh(raw, star[:8 + 4 * big])
    elif fam == 'extrude':
      flat = simplex_mesh(rng, 2, 4) if rng.random() < .5 else annulus(4, 1)
      raw = extrude(flat, 1, twist=rng.uniform(-.4, .4))
    else:
      raw = drop_elements(rng, box((2, 2, 2)), int(rng.integers(3, 7)))
  geometry = geometry or rng.choice(['plain', 'affine', 'curved'])
  if geometry == 'affine':
    raw = affine(rng, raw)
  elif geometry == 'curved':
    raw = curved(rng, raw)
  kind = f'{fam}:{raw.kind}:{geometry}'
  if scrambled:
    raw, _, _ = scramble(rng, raw, orient)
  raw.kind = kind
  return raw


def _submesh(raw, which):
  elements = raw.elements[np.asarray(which)]
  used = np.unique(elements)
  new = -np.ones(len(raw.nodes), dtype=np.int64)
  new[used] = np.arange(len(used))
  out = Raw(raw.nodes[used], new[elements], kind=f'star({raw.kind})')
  out.groups = {'boundary': boundary_facets(out.elements, raw.ndim)}
  return out


def random_periodic_box(rng, ndim, orient='proper', maxcount=3, mincount=1, geometry=True,
                        side_groups=False, scrambled=True):
  """A box periodic in some directions (kept periodic under a periodic map)."""
  counts = tuple(int(c) for c in rng.integers(mincount, maxcount + 1, ndim))
  nper = int(rng.integers(1, ndim + 1))
  periodic = tuple(sorted(int(a) for a in rng.choice(ndim, nper, replace=False)))
  raw = box(counts, periodic, lengths=rng.uniform(.7, 1.6, ndim), side_groups=side_groups)
  if geometry and rng.random() < .7:
    # displacement periodic in every direction, so that images stay translates
    span = np.ptp(raw.nodes, axis=0)
    y = raw.nodes.copy()
    for a in range(ndim):
      k = rng.integers(0, 2, ndim)
      if not k.any():
        k[rng.integers(ndim)] = 1
      y[:, a] += .05 * span.min() * np.sin(2 * np.pi * (raw.nodes / span) @ k + rng.uniform(0, 6))
    a = linear_map(rng, ndim, .3)
    raw = raw.copy(nodes=y @ a.T)
  kind = raw.kind
  if scrambled:
    raw, _, _ = scramble(rng, raw, orient)
  raw.kind = 'periodic:' + kind
  return raw


def to_premesh(raw):
  from swirl_fem.core.premesh import Premesh
  as32 = lambda a: None if a is None else np.asarray(a, dtype=np.int32)
  return Premesh.create(
      node_coords=np.asarray(raw.nodes, dtype=np.float64), elements=as32(raw.elements),
      physical_groups={k: as32(v) for k, v in raw.groups.items()},
      periodic_links=as32(raw.links), partitions=as32(raw.partitions))


class UnionFind:

  def __init__(self):
    self.parent = {}

  def find(self, x):
    self.parent.setdefault(x, x)
    root = x
    while self.parent[root] != root:
      root = self.parent[root]
    while self.parent[x] != root:
      self.parent[x], x = root, self.parent[x]
    return root

  def union(self, a, b):
    a, b = self.find(a), self.find(b)
    if a != b:
      self.parent[a] = b


def link_classes(num_nodes, links):
  """Representative of each node under the periodic links."""
  uf = UnionFind()
  if links is not None:
    for a, b in np.asarray(links):
      for x, y in zip(np.ravel(a).tolist(), np.ravel(b).tolist()):
        uf.union(x, y)
  return np.array([uf.find(i) for i in range(num_nodes)])


def lattice(n, ndim):
  return np.array(list(itertools.product(range(n), repeat=ndim)), dtype=np.int64).reshape(
      (n ** ndim, ndim))


def facet_keys(corners, n, ndim):
  """Canonical keys of the n^ndim lattice points of a cube with given corners.

  A point is named by its integer multilinear weights on the corners with
  nonzero weight: two points of different cubes get the same name exactly when
  they are the same point of a shared vertex, edge or face.
  """
  offs = list(itertools.product((0, 1), repeat=ndim))
  keys = []
  for idx in lattice(n, ndim):
    w = {}
    for v, off in zip(corners, offs):
      p = 1
      for i, o in zip(idx.tolist(), off):
        p *= i if o else n - 1 - i
      if p:
        # normalise, as a point of an edge has a common factor (n-1)^(ndim-1)
        w[int(v)] = w.get(int(v), 0) + p
    g = np.gcd.reduce(list(w.values()))
    keys.append(frozenset((v, p // g) for v, p in w.items()))
  return keys


def large_box(rng, ndim, periodic=None, parts=None):
  """A box of unit cells with more nodes than fit in 16 bits, its counts and periodic axes."""
  if periodic is None:
    periodic = tuple(a for a in range(ndim) if rng.random() < .4)
  if parts == 4:
    periodic = periodic[:2]
  # a bar: many nodes, but few elements
  counts = [2 if a in periodic else 1 for a in range(ndim)]
  long = int(rng.integers(ndim))
  counts[long] = int(rng.uniform(1., 1.1) * 66000 / np.prod([k + 1 for i, k in enumerate(counts) if i != long]))
  counts = tuple(counts)
  if parts:  # cut in two along every periodic axis at least
    blocks = [1] * ndim
    for a in periodic:
      blocks[a] = 2
    blocks[long] *= parts // int(np.prod(blocks))
  raw = box(counts, periodic, lengths=counts, side_groups=True)
  if parts:
    cell = np.floor(raw.nodes[raw.elements].mean(1)).astype(int)
    which = cell * np.array(blocks) // np.array(counts)
    raw.partitions = rng.permutation(int(np.prod(blocks)))[np.ravel_multi_index(tuple(which.T), blocks)]
  kind = raw.kind
  if rng.random() < .5:
    raw = scramble(rng, raw, 'proper')[0]
    kind += ' scrambled'
  raw.kind = f'large {kind}'
  return raw, counts, periodic


def large_premesh(raw):
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  return refine_premesh(to_premesh(raw), gridpoints_1d=Nodes1D.create(
      num_points=3, node_type=NodeType.GAUSS_LOBATTO_LEGENDRE))


def lattice_of(coords):
  """Positions of the nodes of a large box with three points per cell, in half cells."""
  return np.rint(2 * np.asarray(coords)).astype(np.int64)


def flat_index(lat, counts, periodic=()):
  """One number per point of the half cell lattice, the same for identified points."""
  lat = np.array(lat)
  for a in periodic:
    lat[..., a] %= 2 * counts[a]
  return np.ravel_multi_index(tuple(np.moveaxis(lat, -1, 0)), [2 * k + 1 for k in counts])

"""Workloads and bookkeeping for meshes partitioned over devices."""
import numpy as np

from swirlmon import gen


def partitioned_raw(rng, ndim, P, periodic=None, geometry=True):
  """A raw mesh with partitions 0..P-1, without intra-partition periodicity."""
  if periodic is None:
    periodic = P > 1 and rng.random() < .5
  if not periodic or P == 1:
    for _ in range(20):
      raw = gen.random_mesh(rng, ndim, str(rng.choice(['small', 'medium'])), scrambled=False)
      if len(raw.elements) >= P:
        break
    else:
      raw = gen.box(tuple([P] + [1] * (ndim - 1)))
    raw.partitions = gen.random_partitions(rng, len(raw.elements), P)
    return gen.scramble(rng, raw, 'proper')[0]
  # periodic: cut every periodic direction at least once, merging blocks at random
  for _ in range(100):
    dims = [a for a in range(ndim)]
    nper = int(rng.integers(1, ndim + 1))
    per = tuple(sorted(int(a) for a in rng.choice(ndim, nper, replace=False)))
    if 2 ** len(per) > P:
      continue
    blocks = [2 if a in per else 1 for a in dims]
    while np.prod(blocks) < P:
      a = int(rng.integers(ndim))
      blocks[a] += 1
    if np.prod(blocks) != P:
      continue
    cuts = [int(b + rng.integers(0, 2 if ndim == 3 else 3)) for b in blocks]
    raw = gen.box(tuple(cuts), per, lengths=rng.uniform(.7, 1.5, ndim),
                  side_groups=rng.random() < .5)
    owner = []
    edges = [np.sort(np.concatenate([np.arange(b), rng.integers(0, b, c - b)]))
             for b, c in zip(blocks, cuts)]
    ids = rng.permutation(P).reshape(blocks)
    for cell in np.ndindex(*cuts):
      owner.append(ids[tuple(edges[a][cell[a]] for a in dims)])
    raw.partitions = np.array(owner)
    if conflict(raw):
      continue
    if geometry:
      span = np.ptp(raw.nodes, axis=0)
      y = raw.nodes.copy()
      for a in dims:
        k = np.zeros(ndim, int)
        k[rng.integers(ndim)] = 1
        y[:, a] += .04 * span.min() * np.sin(2 * np.pi * (raw.nodes / span) @ k + rng.uniform(0, 6))
      raw.nodes = y @ gen.linear_map(rng, ndim, .3).T
    kind = raw.kind
    raw = gen.scramble(rng, raw, 'proper')[0]
    raw.kind = f'partitioned {kind} blocks{tuple(blocks)}'
    return raw
  return partitioned_raw(rng, ndim, P, periodic=False)


def conflict(raw):
  """Whether two identified nodes lie in the same partition."""
  cls = gen.link_classes(len(raw.nodes), raw.links)
  for p in range(raw.partitions.max() + 1):
    used = np.unique(raw.elements[raw.partitions == p])
    if len(np.unique(cls[used])) != len(used):
      return True
  return False


def match(c, mesh, serial_elements, serial_coords, partitions):
  """Local to global node map [P, L] (-1: padding); records oracle checks.

  Elements are matched by the coordinates of their nodes, in order.
  """
  els, xyz = np.asarray(mesh.elements), np.asarray(mesh.node_coords)
  P = len(els)
  out = -np.ones(xyz.shape[:2], dtype=np.int64)
  want = np.asarray(serial_coords)[np.asarray(serial_elements)]
  scale = np.abs(want).max() + 1
  ok = c.check('partition count', P == partitions.max() + 1, (P, partitions.max()))
  if not ok:
    return None
  for p in range(P):
    mine = np.flatnonzero(partitions == p)
    rows = np.flatnonzero(els[p][:, 0] != -1)
    if not c.check('element count of partition', len(rows) == len(mine), f'{len(rows)} {len(mine)}'):
      return None
    if not c.check('padding rows are padding', np.all(np.delete(els[p], rows, axis=0) == -1)
                   and np.all(els[p][rows] >= 0) and np.all(els[p][rows] < xyz.shape[1])):
      return None
    if not len(rows):
      c.event('padding_nodes', out.shape[1])
      continue
    a = xyz[p][els[p][rows]].reshape(len(rows), -1)
    b = want[mine].reshape(len(mine), -1)
    d = np.abs(a[:, None] - b[None]).max(axis=-1)
    j = np.argmin(d, axis=1)
    if not c.check('elements keep their coordinates',
                   np.all(d[np.arange(len(rows)), j] <= 1e-12 * scale) and
                   len(set(j.tolist())) == len(rows),
                   f'partition {p}: worst {d[np.arange(len(rows)), j].max():.2e}'):
      return None
    loc, glob = els[p][rows].ravel(), np.asarray(serial_elements)[mine[j]].ravel()
    out[p, loc] = glob
    if not c.check('one global node per local node', np.array_equal(out[p, loc], glob)):
      return None
    real = out[p][out[p] >= 0]
    if not c.check('each global node at most once', len(np.unique(real)) == len(real)):
      return None
    c.event('local_elements', len(rows))
    c.event('padding_elements', len(els[p]) - len(rows))
    c.event('padding_nodes', np.sum(out[p] < 0))
  return out


def leave_gaps(rng, raw, P, limit, chance=.25):
  """Renames the partitions so that some own no element; returns the number of partitions."""
  if P >= limit or rng.random() > chance:
    return P
  Q = int(rng.integers(P + 1, limit + 1))
  names = np.append(np.sort(rng.choice(Q - 1, P - 1, replace=False)), Q - 1).astype(np.int64)
  raw.partitions = names[raw.partitions]
  return Q

import itertools
import os
import shutil
import tempfile

import numpy as np

PARTS = [dict(name='generated'), dict(name='periodic'), dict(name='several'), dict(name='testdata'), dict(name='large', budget={'quick': 60.})]
RULE = ('A case is one Gmsh file (written by the harness in format 2.2 or 4.1, ascii or binary, with '
        'shuffled numbering, several entities and cell types, any periodic directions; or shipped with '
        'the repository); non-trivial when the mesh read was compared with what the file describes.')
ASSUMPTIONS = ['In files with periodic entities the node tags are 1..n in file order, as Gmsh writes '
               'them: meshio does not translate the tags of the periodic section otherwise.']

# Gmsh's own numbering of cube corners in terms of (x, y, z) offsets.
GMSH = {0: [()], 1: [(0,), (1,)], 2: [(0, 0), (1, 0), (1, 1), (0, 1)],
        3: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}
ETYPE = {0: 15, 1: 1, 2: 3, 3: 5}
NAME = {0: 'vertex', 1: 'line', 2: 'quad', 3: 'hexahedron'}


def _to_gmsh(cells, d):
  """Corner lists in lexicographic order to Gmsh order."""
  lex = list(itertools.product((0, 1), repeat=d))
  return np.asarray(cells).reshape(-1, 2 ** d)[:, [lex.index(o) for o in GMSH[d]]]


class File:
  """Blocks of cells (dim, entity tag, cells in Gmsh order), nodes and periodic entities."""

  def __init__(self, nodes, tags, blocks, periodic):
    self.nodes, self.tags, self.blocks, self.periodic = nodes, tags, blocks, periodic

  def write41(self, path, rng):
    xyz = np.zeros((len(self.nodes), 3))
    xyz[:, :self.nodes.shape[1]] = self.nodes
    cuts = np.sort(rng.integers(0, len(xyz) + 1, rng.integers(0, 3)))
    groups = [g for g in np.split(np.arange(len(xyz)), cuts)]
    used = sorted({(b[0], b[1]) for b in self.blocks} |
                  {(p[0], t) for p in self.periodic for t in p[1]} |
                  {(0, 90 + i) for i in range(len(groups))})
    out = ['$MeshFormat', '4.1 0 8', '$EndMeshFormat', '$Comments', 'some text', '$EndComments']
    out += ['$Entities', ' '.join(str(sum(u[0] == d for u in used)) for d in range(4))]
    for d, t in used:
      out.append(f'{t} 0 0 0 0' if d == 0 else f'{t} 0 0 0 1 1 1 0 0')
    out += ['$EndEntities', '$Nodes',
            f'{len(groups)} {len(xyz)} {self.tags.min()} {self.tags.max()}']
    for i, g in enumerate(groups):
      out.append(f'0 {90 + i} 0 {len(g)}')
      out += [str(self.tags[j]) for j in g]
      out += [' '.join(repr(float(v)) for v in xyz[j]) for j in g]
    total = sum(len(b[2]) for b in self.blocks)
    out += ['$EndNodes', '$Elements', f'{len(self.blocks)} {total} 1 {total}']
    tag = 1
    for d, t, cells in self.blocks:
      out.append(f'{d} {t} {ETYPE[d]} {len(cells)}')
      for c in cells:
        out.append(' '.join(str(v) for v in [tag, *self.tags[c]]))
        tag += 1
    out.append('$EndElements')
    if self.periodic:
      out += ['$Periodic', str(len(self.periodic))]
      for d, (s, m), pairs in self.periodic:
        out += [f'{d} {s} {m}', '0', str(len(pairs))]
        out += [f'{self.tags[a]} {self.tags[b]}' for a, b in pairs]
      out.append('$EndPeriodic')
    with open(path, 'w') as f:
      f.write('\n'.join(out) + '\n')

  def write22(self, path, rng):
    xyz = np.zeros((len(self.nodes), 3))
    xyz[:, :self.nodes.shape[1]] = self.nodes
    out = ['$MeshFormat', '2.2 0 8', '$EndMeshFormat', '$Nodes', str(len(xyz))]
    out += [' '.join([str(self.tags[i])] + [repr(float(v)) for v in x]) for i, x in enumerate(xyz)]
    out += ['$EndNodes', '$Elements', str(sum(len(b[2]) for b in self.blocks))]
    tag = 1
    for d, t, cells in self.blocks:
      for c in cells:
        out.append(' '.join(str(v) for v in [tag, ETYPE[d], 2, 1, t, *self.tags[c]]))
        tag += 1
    out.append('$EndElements')
    if self.periodic:
      out += ['$Periodic', str(len(self.periodic))]
      for d, (s, m), pairs in self.periodic:
        out += [f'{d} {s} {m}', str(len(pairs))]
        out += [f'{self.tags[a]} {self.tags[b]}' for a, b in pairs]
      out.append('$EndPeriodic')
    with open(path, 'w') as f:
      f.write('\n'.join(out) + '\n')

  def write_meshio(self, path, rng):
    import meshio
    xyz = np.zeros((len(self.nodes), 3))
    xyz[:, :self.nodes.shape[1]] = self.nodes
    m = meshio.Mesh(
        points=xyz, cells=[(NAME[d], np.asarray(c)) for d, _, c in self.blocks],
        cell_data={'gmsh:physical': [np.full(len(c), 1) for _, _, c in self.blocks],
                   'gmsh:geometrical': [np.full(len(c), t) for _, t, c in self.blocks]},
        gmsh_periodic=[[d, st, None, np.array(p)] for d, st, p in self.periodic] or None)
    meshio.write(path, m, file_format='gmsh22', binary=True)


def _scratch():
  return tempfile.mkdtemp(prefix='c10_')


def _blocks(rng, cells, d, first, pieces):
  """Splits the cells (lexicographic) over entities, each in Gmsh order."""
  g = _to_gmsh(cells, d)
  which = rng.integers(0, pieces, len(g))
  return [(d, first + i, g[which == i]) for i in range(pieces) if np.any(which == i)]


def _links(c, got, want, ndim):
  """Compares links as sets of node pairs; corner order must be that of a facet."""
  want = [frozenset(zip(s.tolist(), t.tolist())) for s, t in want]
  if not want:
    c.check('no link without periodic entity', got is None or len(got) == 0)
    return
  if not c.check('links are found', got is not None and np.asarray(got).shape ==
                 (len(want), 2, 2 ** (ndim - 1)), None if got is None else np.asarray(got).shape):
    return
  left = {}
  for w in want:
    left[w] = left.get(w, 0) + 1
  for s, t in np.asarray(got).tolist():
    key = frozenset(zip(s, t))
    if key not in left:
      key = frozenset(zip(t, s))
    if c.check('link is in the file', left.get(key, 0) > 0, f'{s} -> {t}'):
      left[key] -= 1
    c.event('links')
  c.check('each periodic facet has a link', not any(left.values()))


def _facet_order(c, links, facets, ndim):
  """In 3D the second and third corner of a facet must be neighbours of the first."""
  if ndim < 3 or links is None:
    return
  edges = set()
  for f in facets:
    for i, j in ((0, 1), (0, 2), (3, 1), (3, 2)):
      edges.add(frozenset((int(f[i]), int(f[j]))))
  for link in np.asarray(links):
    for f in link:
      c.check('facet corners are in lexicographic order',
              all(frozenset((int(f[i]), int(f[j]))) in edges for i, j in ((0, 1), (0, 2), (3, 1), (3, 2))), f)


def part_generated(mon):
  from swirlmon import gen
  from swirl_fem.common import mesh_reader
  tmp = _scratch()
  try:
    for c in mon.cases('mesh', 120, 3000):
      with c:
        ndim = 1 + int(c.rng.integers(3))
        raw = gen.random_mesh(c.rng, ndim, str(c.rng.choice(['small', 'medium'])), orient='all')
        n = len(raw.nodes)
        fmt = str(c.rng.choice(['41', '22', 'meshio']))
        numbering = str(c.rng.choice(['plain', 'shuffled', 'sparse']))
        tags = np.arange(1, n + 1)
        if fmt != 'meshio' and numbering != 'plain':
          tags = c.rng.permutation(n) + 1 if numbering == 'shuffled' else (
              c.rng.choice(5 * n, n, replace=False) + 1)
        blocks = _blocks(c.rng, raw.elements, ndim, 1, int(c.rng.integers(1, 4)))
        order = np.concatenate([b[2] for b in blocks])
        extra = []
        if c.rng.random() < .7:
          extra += _blocks(c.rng, raw.groups['boundary'], ndim - 1, 20, 2)
        if c.rng.random() < .4:
          extra += _blocks(c.rng, c.rng.integers(0, n, (3, 1)), 0, 40, 1)
        at = int(c.rng.integers(0, len(extra) + 1))
        f = File(raw.nodes, tags, extra[:at] + blocks + extra[at:], [])
        if ndim == 1 and fmt == 'meshio':
          f.blocks = blocks
        c.describe(format=fmt, numbering=numbering, ndim=ndim, mesh=raw.kind, nodes=raw.nodes,
                   elements=raw.elements)
        path = os.path.join(tmp, f'{c.index}.msh')
        getattr(f, {'41': 'write41', '22': 'write22', 'meshio': 'write_meshio'}[fmt])(path, c.rng)
        pm = mesh_reader.read(path, ndim)
        xyz = np.asarray(pm.node_coords)
        c.check('node array', xyz.shape == raw.nodes.shape, xyz.shape)
        c.equal('nodes at their coordinates', xyz, raw.nodes)
        els = np.asarray(pm.elements)
        if c.check('element array', els.shape == raw.elements.shape, els.shape):
          # the corner order must be the lexicographic one of the file's element
          inv = [GMSH[ndim].index(o) for o in itertools.product((0, 1), repeat=ndim)]
          c.equal('elements with lexicographic corners', els, order[:, inv])
        c.event('elements', len(order))
        c.check('no links', pm.periodic_links is None)
        c.check('first order', pm.order == 1)
        other = [d for d in (1, 2, 3) if d != ndim and not any(b[0] == d for b in f.blocks)]
        if other:
          c.raises('missing element type is rejected', ValueError,
                   lambda: mesh_reader.read(path, int(c.rng.choice(other))))
        bad = int(c.rng.choice([0, 4, -1, 7]))
        c.raises('invalid dimension is rejected', ValueError, lambda: mesh_reader.read(path, bad))
        os.remove(path)
  finally:
    shutil.rmtree(tmp)


def part_periodic(mon):
  import jax.numpy as jnp
  from swirlmon import gen
  from swirl_fem.common import mesh_reader
  tmp = _scratch()
  try:
    for c in mon.cases('mesh', 80, 2000):
      with c:
        ndim = 2 + int(c.rng.integers(2))
        counts = tuple(int(v) for v in c.rng.integers(1, 5 if ndim == 2 else 4, ndim))
        per = sorted(c.rng.choice(ndim, int(c.rng.integers(1, ndim + 1)), replace=False).tolist())
        raw = gen.box(counts, tuple(per), lengths=c.rng.uniform(.5, 2, ndim))
        nodes, perm = raw.nodes, c.rng.permutation(len(raw.nodes))
        inv = np.argsort(perm)
        nodes = nodes[inv]
        lat = np.indices([v + 1 for v in counts]).reshape(ndim, -1).T[inv]
        elements = perm[raw.elements]
        where = {tuple(x): i for i, x in enumerate(lat.tolist())}
        fsym = gen.symmetries(ndim - 1)
        facets, periodic, want = [], [], []
        tag = 100
        for a in range(ndim):
          lo_hi = [[], []]
          for f in gen.all_facets(elements, ndim):
            for s, v in enumerate((0, counts[a])):
              if np.all(lat[f][:, a] == v):
                lo_hi[s].append(f[fsym[c.rng.integers(len(fsym))]])
          if a not in per:
            if c.rng.random() < .7:
              facets += _blocks(c.rng, lo_hi[0] + lo_hi[1], ndim - 1, tag, 2)
            tag += 4
            continue
          slave = int(c.rng.integers(2))
          # a side may consist of several entities, each with its own image
          side = lo_hi[slave]
          cut = 1 if len(side) < 2 or c.rng.random() < .6 else 2
          axis = [b for b in range(ndim) if b != a][0]
          mid = int(c.rng.integers(1, counts[axis])) if counts[axis] > 1 else None
          if mid is None:
            cut = 1
          for i in range(cut):
            part = side if cut == 1 else [
                f for f in side if (lat[f][:, axis].max() <= mid) == (i == 0)]
            if not len(part):
              continue
            img = []
            for f in part:
              t = lat[f].copy()
              t[:, a] = counts[a] - lat[f][:, a]
              img.append([where[tuple(x)] for x in t.tolist()])
              want.append((f, np.array(img[-1])))
            pairs = sorted({(int(x), int(y)) for f, g in zip(part, img) for x, y in zip(f, g)})
            pairs = [pairs[j] for j in c.rng.permutation(len(pairs))]
            facets += [(ndim - 1, tag, _to_gmsh(part, ndim - 1))]
            facets += [(ndim - 1, tag + 1, _to_gmsh(
                [g[fsym[c.rng.integers(len(fsym))]] for g in np.array(img)], ndim - 1))]
            periodic.append((ndim - 1, (tag, tag + 1), pairs))
            if c.rng.random() < .7:
              # entities of lower dimension, as Gmsh adds them, must add no links
              low = int(c.rng.integers(0, ndim - 1))
              periodic.append((low, (tag + 40, tag + 41), pairs[:2]))
            tag += 2
        blocks = _blocks(c.rng, elements, ndim, 1, int(c.rng.integers(1, 3)))
        order = np.concatenate([b[2] for b in blocks])
        bl = facets + blocks
        bl = [bl[i] for i in c.rng.permutation(len(bl))]
        order = np.concatenate([b[2] for b in bl if b[0] == ndim])
        periodic = [periodic[i] for i in c.rng.permutation(len(periodic))]
        fmt = str(c.rng.choice(['41', '22', 'meshio']))
        c.describe(format=fmt, counts=counts, periodic=per, elements=elements, links=len(want))
        f = File(nodes, np.arange(1, len(nodes) + 1), bl, periodic)
        path = os.path.join(tmp, f'{c.index}.msh')
        getattr(f, {'41': 'write41', '22': 'write22', 'meshio': 'write_meshio'}[fmt])(path, c.rng)
        pm = mesh_reader.read(path, ndim)
        c.equal('nodes at their coordinates', np.asarray(pm.node_coords), nodes)
        lexinv = [GMSH[ndim].index(o) for o in itertools.product((0, 1), repeat=ndim)]
        c.equal('elements with lexicographic corners', np.asarray(pm.elements), order[:, lexinv])
        _links(c, pm.periodic_links, want, ndim)
        _facet_order(c, pm.periodic_links, gen.all_facets(elements, ndim), ndim)
        # what the links are for: nodes identified after finalization are lattice images
        mesh = pm.finalize()
        ones = np.zeros((len(nodes),))
        seed = int(c.rng.integers(len(nodes)))
        ones[seed] = 1.
        mod = np.where(np.isin(np.arange(ndim), per), np.array(counts), 10 ** 6)
        same = np.all((lat - lat[seed]) % mod == 0, axis=1)
        c.equal('identified nodes', np.asarray(mesh.exchange(jnp.asarray(ones))) > .5, same)
        os.remove(path)
  finally:
    shutil.rmtree(tmp)


def part_several(mon):
  """Several sides that are images of the same one, or of each other in a chain."""
  import jax.numpy as jnp
  from swirlmon import gen
  from swirl_fem.common import mesh_reader
  tmp = _scratch()
  try:
    for c in mon.cases('mesh', 30, 800):
      with c:
        ndim = 2 + int(c.rng.integers(2))
        counts = tuple(int(v) for v in c.rng.integers(1, 4, ndim))
        raw = gen.box(counts)
        copies = int(c.rng.integers(2, 5))
        size = len(raw.nodes)
        # bodies apart from each other, in any numbering
        perm = c.rng.permutation(copies * size)
        nodes = np.concatenate([raw.nodes + 3 * i for i in range(copies)])[np.argsort(perm)]
        elements = np.concatenate([perm[raw.elements + i * size] for i in range(copies)])
        lat = np.indices([v + 1 for v in counts]).reshape(ndim, -1).T
        a = int(c.rng.integers(ndim))
        fsym = gen.symmetries(ndim - 1)
        facets, sides = [], []
        for i in range(copies):
          for v in (0, counts[a]):
            loc = [f for f in gen.boundary_facets(raw.elements, ndim) if np.all(lat[f][:, a] == v)]
            loc.sort(key=lambda f: tuple(map(tuple, np.delete(lat[f], a, axis=1).tolist())))
            sides.append([perm[f + i * size] for f in loc])
        # every side but the first is an image of an earlier one
        chosen = c.rng.permutation(len(sides))[:int(c.rng.integers(3, len(sides) + 1))]
        star = c.rng.random() < .6
        periodic, want, links = [], [], []
        for j, s in enumerate(chosen):
          if j == 0:
            continue
          t = chosen[0] if star else chosen[int(c.rng.integers(j))]
          links.append((int(s), int(t)))
          part = []
          for f, g in zip(sides[s], sides[t]):
            w = fsym[c.rng.integers(len(fsym))]
            part.append(f[w])
            want.append((f[w], g[w]))
          facets.append((ndim - 1, 100 + int(s), _to_gmsh(part, ndim - 1)))
          pairs = sorted({(int(x), int(y)) for f, g in zip(sides[s], sides[t]) for x, y in zip(f, g)})
          periodic.append((ndim - 1, (100 + int(s), 100 + int(t)), [pairs[q] for q in c.rng.permutation(len(pairs))]))
        facets.append((ndim - 1, 100 + int(chosen[0]), _to_gmsh(sides[chosen[0]], ndim - 1)))
        blocks = _blocks(c.rng, elements, ndim, 1, int(c.rng.integers(1, 3)))
        bl = facets + blocks
        bl = [bl[i] for i in c.rng.permutation(len(bl))]
        periodic = [periodic[i] for i in c.rng.permutation(len(periodic))]
        fmt = str(c.rng.choice(['41', '22', 'meshio']))
        c.describe(format=fmt, counts=counts, copies=copies, axis=a, images=links)
        f = File(nodes, np.arange(1, len(nodes) + 1), bl, periodic)
        path = os.path.join(tmp, f'{c.index}.msh')
        getattr(f, {'41': 'write41', '22': 'write22', 'meshio': 'write_meshio'}[fmt])(path, c.rng)
        pm = mesh_reader.read(path, ndim)
        c.equal('nodes at their coordinates', np.asarray(pm.node_coords), nodes)
        _links(c, pm.periodic_links, want, ndim)
        _facet_order(c, pm.periodic_links, gen.all_facets(elements, ndim), ndim)
        ids = np.arange(len(nodes))
        for _ in range(len(sides)):
          for x, y in ((x, y) for s, t in want for x, y in zip(s, t)):
            ids[x] = ids[y] = min(ids[x], ids[y])
        seed = int(want[0][0][0])
        ones = np.zeros(len(nodes))
        ones[seed] = 1.
        mesh = pm.finalize()
        c.equal('identified nodes', np.asarray(mesh.exchange(jnp.asarray(ones))) > .5, ids == ids[seed])
        c.event('sides', len(chosen))
        os.remove(path)
  finally:
    shutil.rmtree(tmp)


def _parse41(path):
  """A minimal independent reader of ascii 4.1 files."""
  lines = [l.strip() for l in open(path)]
  sec = {}
  i = 0
  while i < len(lines):
    if lines[i].startswith('$') and not lines[i].startswith('$End'):
      j = lines.index('$End' + lines[i][1:], i)
      sec[lines[i][1:]] = ' '.join(lines[i + 1:j]).split()
      i = j
    i += 1
  assert sec['MeshFormat'][0] == '4.1' and sec['MeshFormat'][1] == '0'
  tok = iter(sec['Nodes'])
  nb, nn = int(next(tok)), int(next(tok))
  next(tok), next(tok)
  xyz, index = [], {}
  for _ in range(nb):
    next(tok), next(tok), next(tok)
    k = int(next(tok))
    for _ in range(k):
      index[int(next(tok))] = len(index)
    for _ in range(k):
      xyz.append([float(next(tok)) for _ in range(3)])
  assert len(xyz) == nn
  tok = iter(sec['Elements'])
  cells = {}
  nb = int(next(tok))
  for _ in range(3):
    next(tok)
  size = {15: 1, 1: 2, 2: 3, 3: 4, 5: 8}
  for _ in range(nb):
    d, _, et, k = (int(next(tok)) for _ in range(4))
    for _ in range(k):
      next(tok)
      cells.setdefault(d, []).append([index[int(next(tok))] for _ in range(size[et])])
  per = []
  if 'Periodic' in sec:
    tok = iter(sec['Periodic'])
    for _ in range(int(next(tok))):
      d = int(next(tok))
      next(tok), next(tok)
      for _ in range(int(next(tok))):
        next(tok)
      per.append((d, [(index[int(next(tok))], index[int(next(tok))]) for _ in range(int(next(tok)))]))
  return np.array(xyz), cells, per


def part_testdata(mon):
  import swirl_fem
  from swirl_fem.common import mesh_reader
  root = os.path.join(list(swirl_fem.__path__)[0], 'testdata')
  names = sorted(f for f in os.listdir(root) if f.endswith('.msh'))
  for c in mon.cases('file', len(names), len(names)):
    with c:
      path = os.path.join(root, names[c.index])
      c.describe(file=names[c.index])
      with open(path, 'rb') as f:
        if not f.read(40).startswith(b'$MeshFormat\n4.1 0'):
          c.trivial = True
          continue
      xyz, cells, per = _parse41(path)
      ndim = max(cells)
      pm = mesh_reader.read(path, ndim)
      c.equal('nodes at their coordinates', np.asarray(pm.node_coords), xyz[:, :ndim])
      inv = [GMSH[ndim].index(o) for o in itertools.product((0, 1), repeat=ndim)]
      c.equal('elements with lexicographic corners', np.asarray(pm.elements),
              np.array(cells[ndim])[:, inv])
      want = []
      for d, pairs in per:
        m = dict(pairs)
        for f in (cells.get(ndim - 1, []) if d == ndim - 1 and ndim > 1 else []):
          if all(v in m for v in f):
            want.append((np.array(f), np.array([m[v] for v in f])))
      _links(c, pm.periodic_links, want, ndim)
      for d, pairs in per:
        if d == ndim - 1 and ndim > 1:
          delta = np.array([xyz[b] - xyz[a] for a, b in pairs])
          c.check('images are translates', np.ptp(delta, axis=0).max() < 1e-9)
      c.event('elements', len(cells[ndim]))


def part_large(mon):
  """Files with more nodes than fit in 16 bits, read without a loss."""
  from swirlmon import gen
  from swirl_fem.common import mesh_reader
  for c in mon.cases('file', 2, 12):
    with c:
      ndim = 2 + c.index % 2
      raw, counts, periodic = gen.large_box(c.rng, ndim, (int(c.rng.integers(ndim)),) if c.rng.random() < .6 else None)
      raw = gen.box(counts, periodic, lengths=counts, side_groups=True)
      c.describe(mesh=raw.kind)
      blocks, entities = _blocks(c.rng, raw.elements, ndim, 1, 2), []
      if raw.links is not None:
        jump = raw.nodes[raw.links[:, 1, 0]] - raw.nodes[raw.links[:, 0, 0]]
        for i, a in enumerate(periodic):
          mine = raw.links[np.abs(jump).argmax(1) == a]
          blocks += [(ndim - 1, 2 * i + j + 1, _to_gmsh(mine[:, j], ndim - 1)) for j in (0, 1)]
          entities.append((ndim - 1, (2 * i + 2, 2 * i + 1), sorted(set(zip(
              mine[:, 1].ravel().tolist(), mine[:, 0].ravel().tolist())))))
      f = File(raw.nodes, np.arange(1, len(raw.nodes) + 1), blocks, entities)
      d = _scratch()
      try:
        how = str(c.rng.choice(['write22', 'write41']))
        c.describe(written=how)
        getattr(f, how)(os.path.join(d, 'm.msh'), c.rng)
        pm = mesh_reader.read(os.path.join(d, 'm.msh'), ndim)
      finally:
        shutil.rmtree(d)
      lat = np.rint(np.asarray(pm.node_coords)).astype(int)
      c.check('number of nodes', len(lat) == len(raw.nodes), len(lat))
      key = lambda p: (p * (max(counts) + 1) ** np.arange(ndim)).sum(-1)
      want = key(np.rint(raw.nodes).astype(int))
      c.equal('same points', np.sort(key(lat)), np.sort(want))
      els = np.asarray(pm.elements)
      if c.check('elements', els.shape == raw.elements.shape and els.min() >= 0 and els.max() < len(lat), els.shape):
        rows = lambda k, e: np.unique(k[e], axis=0)
        c.equal('corners of the elements', rows(key(lat), els), rows(want, raw.elements))
      links = pm.periodic_links
      if c.check('links', (links is None or not len(links)) == (raw.links is None)) and raw.links is not None:
        got = key(lat)[np.asarray(links)]
        sides = lambda v: np.unique(np.stack([v[:, 0].min(-1), v[:, 1].min(-1)], -1).min(-1) * 10 ** 8 +
                                    np.stack([v[:, 0].min(-1), v[:, 1].min(-1)], -1).max(-1))
        c.equal('linked sides', sides(got), sides(want[raw.links]))
        shift = np.abs(lat[np.asarray(links)[:, 1]] - lat[np.asarray(links)[:, 0]])
        c.check('links join translates', (shift == shift[:, :1]).all() and (np.count_nonzero(shift[:, 0], axis=1) == 1).all())
      c.event('nodes', len(lat))

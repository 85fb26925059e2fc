"""C43: how arguments are stored does not matter. Uses the calls of C41."""
import os
import pathlib
import shutil
import tempfile
import zlib

import numpy as np

PARTS = [dict(name='meshes', fn='stored', group=('core_interpolation', 'core_refine', 'core_partition', 'core_forms'),
              devices=9,               budget={'quick': 40.}),
         dict(name='loose', budget={'quick': 30.}),
         dict(name='flow', fn='stored', group=('flow_operators', 'flow_step'), budget={'quick': 40.}),
         dict(name='solvers', fn='stored', group=('flow_poisson', 'flow_cg', 'flow_training'), budget={'quick': 40.}),
         dict(name='sde', fn='stored', group=('sde_integrate', 'sde_layer'), budget={'quick': 30.}),
         dict(name='models', fn='stored', group=('models_schedules', 'models_transformer'), x64=False,
              budget={'quick': 30.}),
         dict(name='distributed', fn='stored', group=('distributed_scan', 'distributed_router', 'distributed_mesh'),
              devices=4, budget={'quick': 40.}),
         dict(name='files', budget={'quick': 20.}), dict(name='copies', devices=4, budget={'quick': 30.})]
RULE = ('A case is a call with its arguments as contiguous arrays of numpy and again in other storage: column order, '
        'strided or reversed views, read-only, byte-swapped, wider or narrower integers, arrays of jax, other kinds of '
        'paths, copied, pickled and rebuilt meshes. Non-trivial when all results of both calls were compared.')
ASSUMPTIONS = ['Integers are signed and wide enough for the values.',
               'Meshes before finalization hold arrays of numpy; fields and partitioned meshes arrays in the byte order of the machine.']


def _readonly(a):
  a = a.copy()
  a.setflags(write=False)
  return a


def _strided(a):
  b = np.full(tuple(2 * s for s in a.shape), 77, a.dtype)
  v = b[tuple(slice(1, None, 2) for _ in a.shape)]
  v[...] = a
  return v


def _reversed(a):
  flip = (slice(None, None, -1),) * a.ndim
  return a[flip].copy()[flip]


def _offset(a):
  """At an address that is not aligned."""
  raw = np.zeros(a.nbytes + 1, np.uint8)
  v = raw[1:].view(a.dtype).reshape(a.shape)
  v[...] = a
  return v


def _inner(a):
  """The middle of a larger array."""
  b = np.full(tuple(s + 3 for s in a.shape), 55, a.dtype)
  v = b[tuple(slice(1, 1 + s) for s in a.shape)]
  v[...] = a
  return v


FORMS = dict(columns=np.asfortranarray, readonly=_readonly, strided=_strided, reversed=_reversed, inner=_inner,
             offset=_offset, transposed=lambda a: np.ascontiguousarray(a.T).T,
             swapped=lambda a: a.astype(a.dtype.newbyteorder('S')))


def _widths(a, r, kinds):
  if a.dtype.kind != 'i' or not a.size:
    return a
  fits = [k for k in kinds if np.iinfo(k).min <= a.min() and a.max() <= np.iinfo(k).max]
  return a.astype(fits[int(r.integers(len(fits)))])


class Stored:
  """Stands for `keep` of the calls of C41: hands on every array in another storage."""

  def __init__(self, r, forms, widths=(), share=False):
    self.r, self.forms, self.widths, self.count = r, forms, widths, {}

  def __call__(self, x):
    if isinstance(x, dict):
      return {k: self(v) for k, v in x.items()}
    if isinstance(x, list):
      return [self(v) for v in x]
    if isinstance(x, tuple):
      return tuple(self(v) for v in x)
    if not isinstance(x, np.ndarray) or not x.ndim or not x.size:
      return x
    if self.widths:
      x = _widths(x, self.r, self.widths)
    # values on nodes in the byte order of the machine
    name = str(self.r.choice([k for k in self.forms if k != 'swapped' or x.ndim > 1]))
    self.count[name] = self.count.get(name, 0) + 1
    if name == 'jax':
      import jax.numpy as jnp
      return jnp.asarray(x)
    return FORMS[name](x)


def _same(c, what, v, ref, solver):
  from checks import c41
  v, ref = np.asarray(v), np.asarray(ref)
  if v.dtype.kind in 'biu' and ref.dtype.kind in 'biu':
    c.check('same result', v.shape == ref.shape and np.array_equal(v, ref), f'{what}: {v.ravel()[:8]} and {ref.ravel()[:8]}')
    return
  if v.dtype.kind == 'f':
    v, ref = (a.astype(a.dtype.newbyteorder('=')) for a in (v, ref))
  c41._same(c, what, v, ref, solver)


def part_stored(mon):
  from checks import c41
  names = mon.extra['group']
  total = {n: 0 for n in names}
  for c in mon.cases('calls', 14 if not any(n in names for n in ('flow_step', 'models_transformer', 'flow_training')) else 8, 300):
    with c:
      r = c.rng
      name = names[c.index % len(names)]
      job = getattr(c41, name)
      seed = int(r.integers(2 ** 31))
      core = name in ('core_refine', 'core_partition')
      forms = [k for k in FORMS if core or k != 'swapped'] + ([] if core else ['jax', 'jax'])
      if name in ('core_partition',):
        forms = [k for k in forms if k not in ('jax', 'swapped')]
      c.describe(call=name, seed=seed)
      ref = {k: np.array(v) for k, v in job(np.random.default_rng([seed]), lambda x: x).items()}
      for trial in range(2):
        keep = Stored(r, forms, (np.int16, np.int32, np.int64) if core else ())
        got = job(np.random.default_rng([seed]), keep)
        c.describe(stored=keep.count)
        c.check('same results are present', set(got) == set(ref), f'{name}: {set(got) ^ set(ref)}')
        for k in ref:
          if k in got and ref[k].dtype != object:
            _same(c, f'{name} {k}', got[k], ref[k], k.startswith('solve:'))
        c.event('arrays', sum(keep.count.values()))
        total[name] += 1


def part_loose(mon):
  """Plain functions on node indices, facets and solver vectors."""
  import jax
  import jax.numpy as jnp
  from swirlmon import gen
  from swirl_fem.core import gather_scatter
  from swirl_fem.core.premesh import Premesh
  from swirl_fem.core.mesh import Mesh
  for c in mon.cases('loose', 25, 600):
    with c:
      from checks import c40
      r = c.rng
      ndim = int(r.integers(1, 4))
      raw = c40.random_raw(r, ndim)
      c.describe(mesh=raw.kind, nodes=raw.nodes, elements=raw.elements, groups=raw.groups, links=raw.links)
      host = Stored(r, list(FORMS), (np.int16, np.int32, np.int64))
      dev = Stored(r, [k for k in FORMS if k != 'swapped'] + ['jax'])
      idx = gather_scatter.unique_node_indices(
          raw.links, num_nodes=len(raw.nodes)) if hasattr(gather_scatter, 'unique_node_indices') else None
      # finalized without refinement
      def finalized(keep):
        pm = gen.to_premesh(raw)
        return Premesh.create(
            node_coords=keep(pm.node_coords), elements=keep(pm.elements),
            physical_groups={k: keep(v) for k, v in pm.physical_groups.items()},
            periodic_links=None if pm.periodic_links is None else keep(pm.periodic_links)).finalize()
      wide = Stored(r, [k for k in FORMS if k != 'swapped'], (np.int32, np.int64))
      a, b = finalized(lambda x: x), finalized(wide)
      pa, pb = (jax.tree_util.tree_leaves_with_path(m) for m in (a, b))
      if c.check('same fields', [jax.tree_util.keystr(k) for k, _ in pa] == [jax.tree_util.keystr(k) for k, _ in pb]):
        for (k, x), (_, y) in zip(pa, pb):
          _same(c, f'mesh {jax.tree_util.keystr(k)}', y, x, False)
      N = len(raw.nodes)
      u = r.normal(size=N)
      for f in ('gather', 'exchange'):
        _same(c, f, getattr(b, f)(dev(u)), getattr(a, f)(jnp.asarray(u)), False)
      lo = np.asarray(a.gather(jnp.asarray(u)))
      _same(c, 'scatter', b.scatter(dev(lo)), a.scatter(jnp.asarray(lo)), False)
      # a mesh of the same arrays
      m = Mesh.create(node_coords=dev(np.asarray(a.node_coords)), elements=dev(np.asarray(a.elements)))
      _same(c, 'gather of a plain mesh', m.gather(dev(u)), lo, False)
      ids = r.integers(0, 4, int(r.integers(1, 30)))
      ids[r.integers(len(ids))] = 3
      _same(c, 'groups of partitions', gather_scatter.group_by_partitions(host(ids)),
            gather_scatter.group_by_partitions(ids), False)
      P, n = int(r.integers(2, 5)), int(r.integers(1, 8))
      tab = np.stack([r.permutation(9)[:n] for _ in range(P)])
      for x, y in zip(gather_scatter.get_exchange_indices(host(tab)), gather_scatter.get_exchange_indices(tab)):
        if c.check('both or none', (x is None) == (y is None)) and x is not None:
          _same(c, 'exchange indices', x, y, False)
      els = np.stack([r.integers(0, 12, (3, 4)) for _ in range(P)])
      for x, y in zip(gather_scatter.get_local_elements(host(els)), gather_scatter.get_local_elements(els)):
        _same(c, 'local elements', x, y, False)
      c.event('arrays', sum(host.count.values()) + sum(dev.count.values()) + sum(wide.count.values()))


def part_files(mon):
  from checks import c10, c41
  from etils import epath
  from swirlmon import gen
  from swirl_fem.common import mesh_reader
  tmp = tempfile.mkdtemp(prefix='swirl c43 ü')
  back = os.getcwd()
  try:
    for c in mon.cases('paths', 15, 200):
      with c:
        r = c.rng
        ndim = int(r.integers(2, 4))
        raw = gen.box(tuple(int(x) for x in r.integers(1, 4, ndim)), (), lengths=r.uniform(.5, 2, ndim))
        raw = gen.scramble(r, raw, 'proper')[0]
        blocks = c10._blocks(r, raw.elements, ndim, 1, int(r.integers(1, 3)))
        name = str(r.choice(['mesh.msh', 'a mesh.msh', 'größe.msh', 'm.0.msh', '-m.msh']))
        os.makedirs(os.path.join(tmp, 'sub dir'), exist_ok=True)
        path = os.path.join(tmp, 'sub dir', name)
        c.describe(name=name)
        f = c10.File(raw.nodes, np.arange(1, len(raw.nodes) + 1), blocks, [])
        getattr(f, str(r.choice(['write22', 'write41'])))(path, np.random.default_rng(1))
        ref = c41._pm_out(mesh_reader.read(path, ndim))
        c.equal('points', np.asarray(ref['points']), raw.nodes)
        os.chdir(os.path.join(tmp, 'sub dir'))
        others = [pathlib.Path(path), epath.Path(path), name, './' + name, pathlib.Path(name),
                  os.path.join(tmp, 'sub dir', '..', 'sub dir', name)]
        for p in others:
          for n in (ndim, np.int64(ndim)):
            got = c41._pm_out(mesh_reader.read(p, n))
            c.check('same results are present', set(got) == set(ref))
            for k in ref:
              c.equal('same mesh', np.asarray(got[k]), np.asarray(ref[k]), f'{k} by {type(p).__name__} {p}')
        c.event('paths', 2 * len(others))
        os.chdir(back)
        os.remove(path)
  finally:
    os.chdir(back)
    shutil.rmtree(tmp)


def part_copies(mon):
  """Meshes which were copied, pickled, flattened or moved between the steps of a computation."""
  import copy
  import pickle
  import jax
  import jax.numpy as jnp
  from checks import c40, c41
  from swirlmon import dist, gen
  from swirl_fem.communication.jit_distributed import jit_distributed
  from swirl_fem.core.fespace import FiniteElementSpace, grad
  from swirl_fem.core.interpolation import BarycentricInterpolator, Nodes1D, NodeType, Quadrature1D
  from swirl_fem.core.mesh_refiner import refine_premesh
  host = dict(deepcopy=copy.deepcopy, copy=copy.copy, pickle=lambda x: pickle.loads(pickle.dumps(x)),
              replace=lambda x: x.replace())
  tree = dict(flatten=lambda x: jax.tree.unflatten(jax.tree.structure(x), jax.tree.leaves(x)),
              map=lambda x: jax.tree.map(lambda v: v, x))
  move = dict(tree, put=lambda x: jax.device_put(x, jax.devices()[0]), numpy=lambda x: jax.tree.map(np.asarray, x),
              get=jax.device_get, jit=jax.jit(lambda x: x))
  for c in mon.cases('copies', 16, 300):
    with c:
      r = c.rng
      ndim = int(r.integers(1, 4))
      parted = c.index % 3 == 2
      raw = dist.partitioned_raw(r, ndim, int(r.integers(2, 5))) if parted else c40.random_raw(r, ndim)
      c.describe(mesh=raw.kind, nodes=raw.nodes, elements=raw.elements, groups=raw.groups, links=raw.links)
      g = Nodes1D.create(num_points=int(r.integers(3, {1: 6, 2: 5, 3: 4}[ndim] + 1)),
                         node_type=NodeType(str(r.choice(['gauss_lobatto_legendre', 'newton_cotes']))))
      pm = gen.to_premesh(raw)
      kw = dict(axis_name='i') if parted else {}
      fine = refine_premesh(pm, gridpoints_1d=g)
      mesh = fine.finalize(**kw)
      names = sorted(host) + sorted(tree)
      pick = lambda d, k=None: d[k or str(r.choice(sorted(d)))]
      for name in names:
        f = host.get(name) or tree[name]
        g2 = pick(host)(g)
        c.check('copied nodes are equal', bool(g2 == g) and bool(g == g2), name)
        other = refine_premesh(f(pm), gridpoints_1d=g2)
        a, b = c41._pm_out(fine), c41._pm_out(f(other))
        c.check('same results are present', set(a) == set(b), name)
        for k in a:
          _same(c, f'{k} by {name}', b.get(k), a[k], False)
        m2 = pick(dict(host, **tree))(f(other)).finalize(**kw)
        for (k, x), (_, y) in zip(*(jax.tree_util.tree_leaves_with_path(m) for m in (mesh, m2))):
          _same(c, f'mesh {jax.tree_util.keystr(k)} by {name}', y, x, False)
      N = mesh.num_nodes
      if parted:
        P = raw.partitions.max() + 1
        jm = jax.sharding.Mesh(np.array(jax.devices()[:P]), ('i',))
        u = r.normal(size=(P, N))
        run = jit_distributed(lambda m, u: (m.exchange(u), m.scatter(m.gather(u)), m.element_coords()), jm, 'i')
        ref = run(mesh, jnp.asarray(u))
        for name in ('deepcopy', 'copy', 'replace', 'flatten', 'map'):
          for x, y in zip(ref, run((host.get(name) or tree[name])(mesh), jnp.asarray(u))):
            _same(c, f'operation on a mesh by {name}', y, x, False)
        c.event('copies', len(names) + 5)
        continue
      u = jnp.asarray(r.normal(size=N))
      q = Quadrature1D.create(num_points=int(r.integers(2, 6)), quadrature_type=NodeType.GAUSS_LEGENDRE)

      def results(m, q):
        fs = FiniteElementSpace.create(m, q)
        uf = fs.scalar_function(m.gather(u))
        return (m.exchange(u), m.scatter(m.gather(u)), m.element_coords(), fs.integrate(lambda x: uf(x) ** 2),
                fs.local_covector(lambda t: lambda x: jnp.dot(grad(uf)(x), grad(t)(x)), (fs.scalar_function(None),)))
      ref = results(mesh, q)
      both = jax.jit(lambda m: results(m, q))
      for name in ['deepcopy', 'copy', 'replace', 'pickle'] + [str(k) for k in r.permutation(sorted(move))[:3]]:
        m2 = (host.get(name) or move[name])(mesh)
        for x, y, z in zip(ref, results(m2, pick(host)(q)), both(m2)):
          _same(c, f'operation on a mesh by {name}', y, x, False)
          _same(c, f'compiled operation on a mesh by {name}', z, x, False)
      it = BarycentricInterpolator(ndim=ndim, gridpoints_1d=g, evalpoints_1d=q.nodes)
      for name in ('deepcopy', 'copy', 'pickle'):
        it2 = host[name](it)
        _same(c, f'interpolation by {name}', it2.interpolation_matrix(), it.interpolation_matrix(), False)
      c.event('copies', len(names) + 10)

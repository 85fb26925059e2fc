"""C42: calls outside the documented domain are refused, the neighbouring ones are answered."""
import os
import shutil
import tempfile
import types

import numpy as np

PARTS = [dict(name='meshes', budget={'quick': 30.}), dict(name='forms1', fn='forms', budget={'quick': 30.}),
         dict(name='forms2', fn='forms', budget={'quick': 30.}), dict(name='files', budget={'quick': 20.}),
         dict(name='flows', budget={'quick': 30.}), dict(name='parted', devices=4, budget={'quick': 30.}),
         dict(name='models', x64=False, budget={'quick': 30.})]
RULE = ('A case is a random mesh, space, file, flow or model, a set of calls outside the documented domain of an operation and '
        'the neighbouring calls inside. Non-trivial when both kinds were made: a refusal is any exception, before a '
        'result is returned.')
ASSUMPTIONS = ['Only domains which documentation, a message or an explicit test in the code defines are probed.']


class Border:
  """Records calls on both sides of the border of a domain."""

  def __init__(self, c):
    self.c = c

  def refuse(self, what, fn):
    self.c.event('outside')
    self.c.raises(f'refused: {what}', Exception, fn)

  def answer(self, what, fn):
    """Exceptions of a call inside of the domain end the case as a violation."""
    self.c.event('inside')
    out = fn()
    self.c.check(f'answered: {what}', out is not None)
    return out


def wrong_shapes(r, shape, n=4):
  """Shapes close to a given one: an entry off by one, an axis more, less or exchanged."""
  out = set()
  for a in range(len(shape)):
    for d in (-1, 1):
      if shape[a] + d >= 0:
        out.add(shape[:a] + (shape[a] + d,) + shape[a + 1:])
    out.add(shape[:a] + (2 * shape[a],) + shape[a + 1:])
    out.add(shape[:a] + shape[a + 1:])
    out.add(shape[:a] + (1,) + shape[a:])
  out.add(shape + (1,))
  out.add(shape[::-1])
  if len(shape) > 1:
    out.add((int(np.prod(shape)),))
  out = sorted(s for s in out if s != shape and s)
  return [out[i] for i in r.permutation(len(out))[:n]]


def _nodes(kind, n):
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  return Nodes1D.create(num_points=int(n), node_type=NodeType(kind))


def part_meshes(mon):
  import jax.numpy as jnp
  from swirlmon import gen
  from swirl_fem.core import gather_scatter
  from swirl_fem.core.interpolation import Nodes1D, NodeType, Quadrature1D
  from swirl_fem.core.mesh import Mesh
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.core.premesh import Premesh
  from swirl_fem.common.premesh_commons import unit_cube_mesh
  for c in mon.cases('meshes', 25, 600):
    with c:
      r, b = c.rng, Border(c)
      ndim = int(r.integers(1, 4))
      raw = (gen.random_periodic_box(r, ndim, maxcount=3 if ndim < 3 else 2) if r.random() < .4
             else gen.random_mesh(r, ndim, 'small'))
      kind = str(r.choice(['gauss_lobatto_legendre', 'newton_cotes']))
      n = int(r.integers(3, {1: 8, 2: 6, 3: 4}[ndim] + 1))
      c.describe(mesh=raw.kind, nodes=raw.nodes, elements=raw.elements, kind=kind, points=n)
      pm = gen.to_premesh(raw)
      fine = b.answer('first order', lambda: refine_premesh(pm, gridpoints_1d=_nodes(kind, n)))
      for m in (2, n - 1, n, n + 1):
        b.refuse('refinement of a mesh of higher order',
                 lambda: refine_premesh(fine, gridpoints_1d=_nodes(str(r.choice(
                     ['gauss_lobatto_legendre', 'newton_cotes', 'gauss_legendre'])), m)))
      groups = dict(raw.groups)
      if groups:
        name = str(r.choice(sorted(groups)))
        groups[name] = np.zeros((0,) + np.shape(groups[name])[1:], np.int64)
        empty = raw.copy(groups=groups)
        b.refuse('refinement of an empty group', lambda: refine_premesh(gen.to_premesh(empty), gridpoints_1d=_nodes(kind, n)))
      # node counts of the elements
      els, x = np.asarray(fine.elements), np.asarray(fine.node_coords)
      for cls in (Premesh, Mesh):
        mk = lambda e, **kw: cls.create(node_coords=x if cls is Premesh else jnp.asarray(x),
                                        elements=e if cls is Premesh else jnp.asarray(e), **kw)
        b.answer('elements and nodes fit', lambda: mk(els, gridpoints_1d=fine.gridpoints_1d))
        for m in (n - 1, n + 1, n ** ndim, n ** (ndim - 1) if ndim > 1 else n + 2):
          if m >= 2 and m != n:
            b.refuse('nodes of an element', lambda: mk(els, gridpoints_1d=_nodes(kind, m)))
        for w in (els.shape[1] - 1, els.shape[1] + 1):
          e = els[:, :w] if w < els.shape[1] else np.concatenate([els, els[:, :1]], 1)
          b.refuse('nodes of an element', lambda: mk(e, gridpoints_1d=fine.gridpoints_1d))
          if ndim > 1:
            b.refuse('number of nodes is no power', lambda: mk(e))
      # values on the nodes
      if r.random() < .5 or raw.links is not None:
        mesh = fine.finalize()
        N = mesh.num_nodes
        u = jnp.asarray(r.normal(size=N))
        lo = b.answer('values at all nodes', lambda: mesh.gather(u))
        for s in wrong_shapes(r, (N,)) + [(N, ndim), (1, N)]:
          b.refuse('gather of another shape', lambda: mesh.gather(jnp.zeros(s)))
        b.answer('values in all elements', lambda: mesh.scatter(lo))
        for s in wrong_shapes(r, tuple(lo.shape)):
          b.refuse('scatter of another shape', lambda: mesh.scatter(jnp.zeros(s)))
      idx = jnp.asarray(r.integers(0, 5, (3, 2)))
      b.answer('vector', lambda: gather_scatter.gather(jnp.zeros(5), idx))
      for s in ((5, 1), (1, 5), (5, 2), ()):
        b.refuse('gather of a matrix', lambda: gather_scatter.gather(jnp.zeros(s), idx))
      b.answer('same shape', lambda: gather_scatter.scatter(jnp.ones((3, 2)), idx, 5))
      for s in ((3, 1), (1, 2), (3,), (2, 3), (6,), ()):
        b.refuse('scatter of another shape', lambda: gather_scatter.scatter(jnp.ones(s), idx, 5))
      ids = np.sort(r.integers(0, 3, 6))
      ids[:3] = (0, 1, 2)
      b.answer('partition of each', lambda: gather_scatter.group_by_partitions(ids))
      for s in ((2, 3), (6, 1), (1, 6)):
        b.refuse('partitions as a matrix', lambda: gather_scatter.group_by_partitions(ids.reshape(s)))
      b.refuse('node indices of rank three', lambda: gather_scatter.get_exchange_indices(np.arange(8).reshape(2, 2, 2)))
      # the rules
      P = int(r.integers(2, 9))
      for bad in ('nope', None, 0, 'gauss_legendre ', NodeType.SINGLE):
        b.refuse('unknown nodes', lambda: Nodes1D.create(num_points=P, node_type=bad))
      point = Nodes1D.create_single_point(np.array(r.uniform(-1, 1)))
      b.refuse('rule of one point', lambda: Quadrature1D.create_from_nodes_1d(point))
      for t in ('newton_cotes', 'gauss_legendre', 'gauss_lobatto_legendre'):
        b.answer('known nodes', lambda: Quadrature1D.create_from_nodes_1d(_nodes(t, P)))
      # partitions of the cube
      per = int(r.integers(1, 3))
      k = per * int(r.integers(1, 3))
      d = int(r.integers(1, 4))
      parts = np.arange(per ** d).reshape((per,) * d)
      b.answer('blocks fit', lambda: unit_cube_mesh(k, ndim=d, partitions=parts))
      a = int(r.integers(d))
      shape = [per] * d
      shape[a] = k + 1 if r.random() < .5 or k < 3 else 2
      if k % shape[a]:
        b.refuse('blocks which do not fit', lambda: unit_cube_mesh(
            k, ndim=d, partitions=np.arange(int(np.prod(shape))).reshape(shape)))


def part_forms(mon):
  import jax
  import jax.numpy as jnp
  from swirlmon import gen
  from swirl_fem.core.fespace import FiniteElementSpace
  from swirl_fem.core.interpolation import BarycentricInterpolator, Quadrature1D
  from swirl_fem.core.mesh_refiner import refine_premesh
  for c in mon.cases('forms', 12, 300):
    with c:
      r, b = c.rng, Border(c)
      ndim = int(r.integers(1, 4))
      raw = gen.random_mesh(r, ndim, 'tiny')
      kind = str(r.choice(['gauss_lobatto_legendre', 'newton_cotes']))
      n = int(r.integers(2, {1: 6, 2: 5, 3: 3}[ndim] + 1))
      q = int(r.integers(2, n + 2))
      c.describe(mesh=raw.kind, nodes=raw.nodes, elements=raw.elements, kind=kind, points=n, quadrature=q)
      pm = gen.to_premesh(raw)
      if n > 2:
        pm = refine_premesh(pm, gridpoints_1d=_nodes(kind, n))
      mesh = pm.finalize()
      quad = Quadrature1D.create_from_nodes_1d(_nodes('gauss_legendre', q))
      fs = FiniteElementSpace.create(mesh, quad)
      E, K = mesh.elements.shape
      u0, v0 = jnp.asarray(r.normal(size=(E, K))), jnp.asarray(r.normal(size=(E, K, ndim)))
      u, v = fs.scalar_function(u0), fs.vector_function(v0)
      ph, pv = fs.scalar_function(None), fs.vector_function(None)
      for s in wrong_shapes(r, (E, K), 3) + [(E, K, ndim)]:
        b.refuse('scalar values of another shape', lambda: fs.scalar_function(jnp.zeros(s)))
      for s in wrong_shapes(r, (E, K, ndim), 3) + [(E, K)]:
        b.refuse('vector values of another shape', lambda: fs.vector_function(jnp.zeros(s)))
      b.answer('scalar integrand', lambda: fs.integrate(u))
      b.answer('scalar integrand', lambda: fs.integrate(lambda x: jnp.dot(v(x), x)))
      b.refuse('vector integrand', lambda: fs.integrate(v))
      b.refuse('vector integrand', lambda: fs.integrate(lambda x: x * u(x)))
      b.refuse('matrix integrand', lambda: fs.integrate(lambda x: jnp.outer(x, v(x))))
      mass = lambda f, g: lambda x: f(x) * g(x)
      flux = lambda f, g: lambda x: jnp.dot(f(x), g(x))
      for args in ((ph, u), (u, ph)):
        b.answer('one placeholder', lambda: fs.local_covector(mass, args))
      b.answer('one placeholder', lambda: fs.local_covector(flux, (pv, v)))
      for form, args in ((mass, (ph, ph)), (mass, (u, u)), (flux, (pv, pv)), (flux, (v, v)),
                         (lambda f, g, h: lambda x: f(x) * g(x) * h(x), (ph, u, ph)),
                         (lambda f, g: lambda x: f(x) * g(x)[0], (ph, pv)), (lambda f, g: lambda x: f(x) + g(x), (ph, ph)),
                         (lambda f, g: lambda x: jnp.sum(f(x) - 2 * g(x)), (pv, pv)),
                         (lambda f, g: lambda x: f(x) * x[0] - g(x)[0], (ph, pv)),
                         (mass, (u, lambda x: x[0]))):
        b.refuse('placeholders other than one', lambda: fs.local_covector(form, args))
      b.refuse('placeholder in an integral', lambda: fs.integrate(ph))
      # a function of another space, whose points are others
      other = FiniteElementSpace.create(mesh, Quadrature1D.create_from_nodes_1d(_nodes('gauss_legendre', q + 1)))
      b.refuse('function of another space', lambda: fs.integrate(other.scalar_function(u0)))
      # one element
      p = int(r.integers(1, 7))
      for fam in ('gauss_legendre', 'gauss_lobatto_legendre', 'newton_cotes'):
        ip = BarycentricInterpolator(ndim=ndim, gridpoints_1d=_nodes(fam, n), evalpoints_1d=(
            _nodes('gauss_legendre', p) if r.random() < .7 else _nodes(fam, n)))
        full = jnp.asarray(r.normal(size=n ** ndim))
        b.answer('values at all nodes', lambda: ip.interpolate(full))
        b.answer('values at all nodes', lambda: ip.interpolate_grad(full))
        for s in wrong_shapes(r, (n ** ndim,), 3) + ([(n,) * ndim] if ndim > 1 else []):
          b.refuse('values of another shape', lambda: ip.interpolate(jnp.zeros(s)))
          b.refuse('values of another shape', lambda: ip.interpolate_grad(jnp.zeros(s)))
        for form in (lambda: jax.jit(ip.interpolate)(jnp.zeros(n ** ndim + 1)),):
          b.refuse('values of another shape, traced', form)


def part_files(mon):
  from swirlmon import gen
  from swirl_fem.common import mesh_reader
  import meshio
  names = {1: 'line', 2: 'quad', 3: 'hexahedron'}
  tmp = tempfile.mkdtemp(prefix='swirl-c42-')
  try:
    for c in mon.cases('files', 20, 400):
      with c:
        r, b = c.rng, Border(c)
        ndim = int(r.integers(1, 4))
        raw = gen.random_mesh(r, ndim, 'tiny')
        c.describe(mesh=raw.kind, nodes=raw.nodes, elements=raw.elements)
        pts = np.zeros((len(raw.nodes), 3))
        pts[:, :ndim] = raw.nodes
        perm = {1: [0, 1], 2: [0, 2, 3, 1], 3: [0, 4, 6, 2, 1, 5, 7, 3]}[ndim]
        good = (names[ndim], raw.elements[:, perm])
        # among others types with the same number of nodes
        others = {1: [('triangle', 3), ('vertex', 1), ('line3', 3)], 2: [('tetra', 4), ('triangle', 3), ('quad9', 9)],
                  3: [('quad8', 8), ('tetra', 4), ('hexahedron20', 20)]}[ndim]
        extras = [(k, np.asarray(r.integers(0, len(pts), (2, w)))) for k, w in others]
        path = os.path.join(tmp, 'm.msh')

        def write(cells):
          cells = [(k, np.asarray(e)) for k, e in cells]
          data = {key: [np.ones(len(e), int) for _, e in cells] for key in ('gmsh:physical', 'gmsh:geometrical')}
          meshio.Mesh(pts, cells, cell_data=data).write(path, file_format='gmsh22', binary=False)
        write([good])
        pm = b.answer('cells of the type', lambda: mesh_reader.read(path, ndim))
        c.check('all cells', np.shape(pm.elements) == np.shape(raw.elements))
        for bad in (0, -1, 4, 7, 2.5, None):
          b.refuse('number of dimensions', lambda: mesh_reader.read(path, bad))
        for d in (1, 2, 3):
          if d != ndim:
            b.refuse('no cells of the type', lambda: mesh_reader.read(path, d))
        b.answer('cells of several types', lambda: (write([extras[1], good]), mesh_reader.read(path, ndim))[1])
        for extra in extras:
          write([extra])
          c.check('file is readable', meshio.read(path).cells_dict.keys() == {extra[0]})
          b.refuse('no cells of the type', lambda: mesh_reader.read(path, ndim))
        b.refuse('no such file', lambda: mesh_reader.read(os.path.join(tmp, 'absent.msh'), ndim))
        with open(path, 'w') as f:
          f.write('$MeshFormat\n2.2 0 8\n')
        b.refuse('no mesh', lambda: mesh_reader.read(path, ndim))
  finally:
    shutil.rmtree(tmp)


def part_flows(mon):
  from swirlmon import gen
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.navier_stokes.navier_stokes import BCType, StokesSEM
  for c in mon.cases('flows', 5, 100):
    with c:
      r, b = c.rng, Border(c)
      ndim = int(r.integers(2, 4))
      raw = gen.box((2,) * ndim if ndim == 2 else (2, 1, 1), lengths=r.uniform(.5, 2, ndim))
      c.describe(mesh=raw.kind, lengths=np.ptp(raw.nodes, axis=0))
      pm = gen.to_premesh(raw)
      n = int(r.integers(2, 4))
      bcs = {'boundary': (BCType.DIRICHLET, 0.)} if r.random() < .7 else {}
      b.answer('first order', lambda: StokesSEM.create(pm, bcs, order=n))
      for k in ('gauss_lobatto_legendre', 'newton_cotes'):
        for m in (3, 4):
          fine = refine_premesh(pm, gridpoints_1d=_nodes(k, m))
          for order in {n, m - 1}:
            b.refuse('flow on a mesh of higher order', lambda: StokesSEM.create(fine, bcs, order=order))
      if bcs:
        b.refuse('condition on a group which is not there', lambda: StokesSEM.create(
            pm, {'nowhere': (BCType.DIRICHLET, 0.)}, order=n))


def part_parted(mon):
  from swirlmon import gen
  from swirl_fem.core import gather_scatter
  from swirl_fem.core.mesh_refiner import refine_premesh
  for c in mon.cases('parted', 20, 400):
    with c:
      r, b = c.rng, Border(c)
      ndim = int(r.integers(1, 4))
      counts = tuple(int(v) for v in r.integers(2, 4, ndim))
      raw = gen.box(counts, (0,), lengths=r.uniform(.5, 2, ndim))
      # a layer of elements per partition: with the first axis periodic, partitions of one or more layers
      layer = np.argsort(np.argsort(raw.nodes[raw.elements].mean(1)[:, 0].round(9), kind='stable'), kind='stable')
      layer = layer * counts[0] // len(raw.elements)
      whole = raw.copy(partitions=np.zeros(len(raw.elements), np.int64))
      split = raw.copy(partitions=layer)
      raw, _, _ = None, None, None
      kind, n = 'gauss_lobatto_legendre', int(r.integers(2, {1: 5, 2: 4, 3: 3}[ndim] + 1))
      c.describe(counts=counts, points=n)
      make = lambda x: gen.to_premesh(x) if n == 2 else refine_premesh(gen.to_premesh(x), gridpoints_1d=_nodes(kind, n))
      b.answer('layers', lambda: make(split).finalize(axis_name='p'))
      b.refuse('periodic within a partition', lambda: make(whole).finalize(axis_name='p'))
      if counts[0] > 2:
        joined = split.copy(partitions=np.where(layer == counts[0] - 1, 0, layer))
        b.answer('neighbours within a partition', lambda: gather_scatter.group_by_partitions(joined.partitions))
        if len(np.unique(joined.partitions)) == counts[0] - 1:
          # the first and the last layer in one partition hold both images
          b.refuse('periodic within a partition', lambda: make(joined).finalize(axis_name='p'))
      for name in (None, ''):
        b.refuse('no name of an axis', lambda: make(split).finalize(axis_name=name))
      b.refuse('no name of an axis', lambda: make(split).finalize())
      idx = np.array([[0, 1, 2, -1], [2, 3, 4, 5]])
      b.answer('each node once', lambda: gather_scatter.get_exchange_indices(idx))
      idx[1, 1] = 2
      b.refuse('a shared node twice', lambda: gather_scatter.get_exchange_indices(idx))


def part_models(mon):
  import jax
  import jax.numpy as jnp
  from absl import flags
  from swirl_fem.niles import train, transformer
  if not flags.FLAGS.is_parsed():
    flags.FLAGS(['check'])
  from checks import c31
  for c in mon.cases('models', 2, 40):
    with c:
      r, b = c.rng, Border(c)
      key = jax.random.PRNGKey(int(r.integers(2 ** 31)))
      cfg, stride = c31._configuration(r, int(r.integers(0, 2)))
      cfg['depth'] = 0
      c.describe(width=cfg['width'])
      ns = types.SimpleNamespace(**cfg)
      model = b.answer('model', lambda: train.create_model('multiscale_transformer', ns))
      for name in ('', 'transformer', 'multiscale', 'Multiscale_transformer', None):
        b.refuse('unknown model', lambda: train.create_model(name, ns))
      B, L, C = 2, stride * 2, int(r.integers(2, 5))
      p = train.initialized(key, L, C, model)
      x = jnp.asarray(r.normal(size=(B, L, C)).astype(np.float32))
      b.answer('batch', lambda: model.apply({'params': p}, x, key))
      for s in ((L, C), (B, L), (B, L, C, 1), (B, 1, L, C)):
        b.refuse('inputs of another rank', lambda: model.apply({'params': p}, jnp.zeros(s, jnp.float32), key))
      for s in ((B, L, C + 1), (B, L + stride, C)):
        b.refuse('inputs of another size', lambda: model.apply({'params': p}, jnp.zeros(s, jnp.float32), key))
      for t in (jnp.float16, jnp.bfloat16, jnp.int32):
        b.refuse('inputs of another type', lambda: model.apply({'params': p}, x.astype(t), key))
      # drift and diffusion of one sample
      z = int(r.integers(1, 4))
      ctx = int(r.integers(1, 4))
      drift = transformer.Drift(features=(4, z))
      pd = drift.init(key, jnp.zeros(z), jnp.zeros(ctx))
      b.answer('a sample', lambda: drift.apply(pd, jnp.zeros(z), jnp.zeros(ctx)))
      for s in ((z + 1,), (2, z), (1, z)):
        b.refuse('state of another shape', lambda: drift.apply(pd, jnp.zeros(s), jnp.zeros(ctx)))
      b.refuse('context of another shape', lambda: drift.apply(pd, jnp.zeros(z), jnp.zeros((1, ctx))))
      diff = transformer.Diffusion(features=(4, 1), ndim=z)
      pf = diff.init(key, jnp.zeros(z))
      b.answer('a sample', lambda: diff.apply(pf, jnp.zeros(z)))
      for s in ((z + 1,), (z, 1), (1, z), (2, z)):
        b.refuse('state of another shape', lambda: diff.apply(pf, jnp.zeros(s)))
      both = transformer.VariationalDriftDiffusion(
          prior_drift_features=(4, z), post_drift_features=(4, z), diffusion_features=(4, 1))
      args = (jnp.zeros(z + 1), jnp.zeros(()), jnp.zeros(z), jnp.zeros(ctx))
      pb = both.init(key, *args)
      b.answer('a sample', lambda: both.apply(pb, *args))
      b.refuse('state without its divergence', lambda: both.apply(pb, jnp.zeros(z), *args[1:]))
      b.refuse('noise of another size', lambda: both.apply(pb, args[0], args[1], jnp.zeros(z + 1), args[3]))
      for bad in (dict(diffusion_features=(4, 2)), dict(post_drift_features=(4, z + 1))):
        kw = dict(prior_drift_features=(4, z), post_drift_features=(4, z), diffusion_features=(4, 1))
        b.refuse('sizes which do not fit', lambda: transformer.VariationalDriftDiffusion(**dict(kw, **bad)).init(key, *args))

"""C35: the same operation executed in many compilation and batching contexts."""

import numpy as np

PARTS = [dict(name='space1', fn='space', budget={'quick': 40.}), dict(name='space2', fn='space', budget={'quick': 40.}),
         dict(name='meshes'), dict(name='flow1', fn='flow', budget={'quick': 40.}),
         dict(name='flow2', fn='flow', budget={'quick': 40.}),
         dict(name='single1', fn='single', x64=False), dict(name='singleflow', x64=False),
         dict(name='shared', budget={'quick': 40.})]
RULE = ('A case is an operation on a random mesh or flow with random fields. Non-trivial when its results in at least '
        'five contexts were compared with one eager call per field.')
ASSUMPTIONS = ['Flow setups are closed over.', 'Solver results are compared at the tolerance of the solver.']


def contexts(c, name, f, args, mesh=None, remake=None, rtol=1e-11, eager=True, batch=3, scale=None):
  """Runs f(mesh, *args) in all contexts; args have a leading batch axis. Returns the reference results."""
  import jax
  import jax.numpy as jnp
  args = [jnp.asarray(a) for a in args]
  g = (lambda *a: f(mesh, *a)) if mesh is not None else f
  one = lambda i: [a[i] for a in args]
  run = g if eager else jax.jit(g)
  want = [jax.tree.map(np.asarray, run(*one(i))) for i in range(batch)]
  leaves = lambda t: [np.asarray(x) for x in jax.tree.leaves(t)]
  stacked = [np.stack(x) for x in zip(*[leaves(w) for w in want])]
  scales = scale or [np.abs(s).max() + 1e-300 for s in stacked]

  def same(context, got):
    got = leaves(got)
    c.check('number of results', len(got) == len(stacked), f'{name}, {context}')
    for x, w, s in zip(got, stacked, scales):
      c.check('shape', x.shape == w.shape, f'{name}, {context}: {x.shape} instead of {w.shape}')
      c.close('same result', x, w, rtol=rtol, scale=s, msg=f'{name}, {context}')
    c.event('context')
  stack = lambda outs: jax.tree.map(lambda *x: jnp.stack(x), *outs)
  jg = jax.jit(g)
  same('jit', stack([jg(*one(i)) for i in range(batch)]))
  if mesh is not None:
    jm = jax.jit(f)
    same('jit with the mesh as argument', stack([jm(mesh, *one(i)) for i in range(batch)]))
    same('vmap with the mesh as argument', jax.jit(jax.vmap(f, in_axes=(None,) + (0,) * len(args)))(mesh, *args))
  if eager:
    same('vmap', jax.vmap(g)(*args))
  same('vmap of jit', jax.vmap(jg)(*args))
  same('jit of vmap', jax.jit(jax.vmap(g))(*args))
  same('map', jax.jit(lambda *a: jax.lax.map(lambda s: g(*s), a))(*args))
  # a batch along the last axis, in and out
  moved = [jnp.moveaxis(a, 0, -1) for a in args]
  out = jax.jit(jax.vmap(g, in_axes=-1, out_axes=-1))(*moved)
  same('vmap over the last axis', jax.tree.map(lambda x: jnp.moveaxis(x, -1, 0), out))
  # two batch axes, and one argument held fixed
  two = jax.jit(jax.vmap(jax.vmap(g)))(*[jnp.stack([a, a[::-1]]) for a in args])
  same('vmap of vmap', jax.tree.map(lambda x: x[0], two))
  same('vmap of vmap, reversed', jax.tree.map(lambda x: x[1][::-1], two))
  if len(args) > 1:
    part = jax.jit(jax.vmap(g, in_axes=(0,) + (None,) * (len(args) - 1)))(args[0], *[a[0] for a in args[1:]])
    ref = [run(args[0][i], *[a[0] for a in args[1:]]) for i in range(batch)]
    for x, w in zip(leaves(part), leaves(stack(ref))):
      c.close('same result', x, w, rtol=rtol, scale=np.abs(w).max() + 1e-300, msg=f'{name}, one argument mapped')
    c.event('context')
  return want


def forms(quad, ndim):
  import jax.numpy as jnp
  from swirl_fem.core.fespace import FiniteElementSpace, div, grad

  def space(m):
    return FiniteElementSpace.create(m, quad)

  def integral(m, u, v, a):
    fs = space(m)
    uf, vf = fs.scalar_function(m.gather(u)), fs.vector_function(v[m.elements])
    return (fs.integrate(lambda x: a * uf(x) ** 2 + jnp.sin(x[0])), fs.integrate(lambda x: vf(x) @ grad(uf)(x)),
            fs.integrate(lambda x: a * div(vf)(x) * uf(x)))

  def stiffness(m, u, v, a):
    fs = space(m)
    uf = fs.scalar_function(m.gather(u))
    out = fs.local_covector(lambda uf, w: lambda x: a * grad(uf)(x) @ grad(w)(x), (uf, fs.scalar_function(None)))
    return m.exchange(m.scatter(out))

  def convection(m, u, v, a):
    fs = space(m)
    uf, vf = fs.scalar_function(m.gather(u)), fs.vector_function(v[m.elements])
    return (fs.local_covector(lambda vf, w: lambda x: (vf(x) @ grad(vf)(x)) @ w(x), (vf, fs.vector_function(None))),
            fs.local_covector(lambda w: lambda x: uf(x) * div(w)(x) * a, (fs.vector_function(None),)),
            fs.local_covector(lambda w: lambda x: jnp.exp(.1 * a * uf(x)) * w(x), (fs.scalar_function(None),)))

  def geometry(m, u, v, a):
    fs = space(m)
    return a * fs.jacdets, fs.invjacs * a, fs.quad_coords + a * m.element_coords().sum()
  return dict(integral=integral, stiffness=stiffness, convection=convection, geometry=geometry)


def part_space(mon):
  from swirlmon import space
  for c in mon.cases('forms', 4, 150):
    with c:
      r = c.rng
      ndim = int(r.integers(1, 4))
      s = space.random_space(c, ndim, hi={1: 6, 2: 4, 3: 3}[ndim], qhi={1: 7, 2: 5, 3: 3}[ndim])
      table = forms(s.quad, ndim)
      name = str(r.choice(sorted(table)))
      c.describe(form=name)
      args = [r.normal(size=(3, s.N)), r.normal(size=(3, s.N, ndim)), r.uniform(.5, 2, 3)]
      contexts(c, name, table[name], args, mesh=s.mesh)


def part_meshes(mon):
  """Mesh operations, and several meshes through one compiled function."""
  import jax
  import jax.numpy as jnp
  from swirlmon import gen, space
  for c in mon.cases('operations', 8, 300):
    with c:
      r = c.rng
      ndim = int(r.integers(1, 4))
      raw = gen.random_periodic_box(r, ndim) if r.random() < .5 else None
      s = space.random_space(c, ndim, hi={1: 6, 2: 4, 3: 3}[ndim], raw=raw, curve=False,
                             kinds=['gauss_lobatto_legendre'])
      u = r.normal(size=(3, s.N))
      table = {'gather': (lambda m, u: m.gather(u), u),
               'scatter': (lambda m, u: m.scatter(u), r.normal(size=(3,) + s.els.shape)),
               'exchange': (lambda m, u: m.exchange(u), u),
               'round trip': (lambda m, u: m.exchange(m.scatter(m.gather(u) ** 2)), u)}
      for name in [str(n) for n in r.choice(sorted(table), 2 if mon.quick else 4, replace=False)]:
        contexts(c, name, table[name][0], [table[name][1]], mesh=s.mesh)
  for c in mon.cases('several meshes', 4, 200):
    with c:
      r = c.rng
      ndim = int(r.integers(1, 4))
      a = space.random_space(c, ndim, hi={1: 6, 2: 4, 3: 3}[ndim], kinds=['gauss_lobatto_legendre'])
      raw = gen.scramble(r, gen.affine(r, a.raw))[0]
      from swirl_fem.core.mesh_refiner import refine_premesh
      from swirl_fem.core.interpolation import Nodes1D, NodeType
      refine = lambda p: refine_premesh(p, gridpoints_1d=Nodes1D.create(
          num_points=a.n, node_type=NodeType.GAUSS_LOBATTO_LEGENDRE)) if a.n > 2 else p
      second = refine(gen.to_premesh(raw))
      third = refine(gen.to_premesh(gen.random_mesh(r, ndim, 'tiny')))
      fn = forms(a.quad, ndim)['stiffness']
      shared = jax.jit(lambda m, u: fn(m, u, None, 1.5))
      for pm, mesh in ((a.pm, a.mesh), (second, second.finalize()), (third, third.finalize()), (a.pm, a.mesh)):
        u = jnp.asarray(r.normal(size=len(np.asarray(pm.node_coords))))
        want = np.asarray(jax.jit(lambda m, u: fn(m, u, None, 1.5))(mesh, u))
        c.close('same result', shared(mesh, u), want, rtol=1e-12, scale=np.abs(want).max(), msg='shared function')
        sol = np.asarray(fn(mesh, u, None, 1.5))
        c.close('same result', shared(mesh, u), sol, rtol=1e-11, scale=np.abs(sol).max(), msg='eager')
        c.event('context')
      leaves, tree = jax.tree.flatten(a.mesh)
      back = jax.tree.unflatten(tree, leaves)
      u = jnp.asarray(r.normal(size=a.N))
      c.close('same result', fn(back, u, None, 1.), fn(a.mesh, u, None, 1.), rtol=1e-12, msg='flattened mesh')
      moved = jax.device_put(a.mesh)
      c.close('same result', fn(moved, u, None, 1.), fn(a.mesh, u, None, 1.), rtol=1e-12, msg='mesh put on a device')
      xs = np.stack([np.asarray(a.coords), 1.3 * np.asarray(a.coords), space.bend(r, a.coords, .05)])
      got = jax.jit(jax.vmap(lambda x: fn(a.mesh.replace(node_coords=x), u, None, 1.)))(jnp.asarray(xs))
      for i in range(3):
        w = np.asarray(fn(a.mesh.replace(node_coords=jnp.asarray(xs[i])), u, None, 1.))
        c.close('same result', got[i], w, rtol=1e-11, scale=np.abs(w).max(), msg='batch of node coordinates')
      c.event('context', 3)


def part_flow(mon):
  import jax.numpy as jnp
  from swirlmon import flow
  for c in mon.cases('operators', 2, 60, minimum=1):
    with c:
      r = c.rng
      fl = flow.random_flow(c, 2 if r.random() < .8 else 3, maxorder=4)
      sem = fl.sem
      u, p = np.stack([flow.continuous(fl, r) for _ in range(3)]), r.normal(size=(3, fl.P))
      table = {'B': (sem.B, u), 'Bi': (sem.Bi, u), 'A': (sem.A, u), 'C': (sem.C, u), 'D': (sem.D, u), 'Dt': (sem.Dt, p),
               'E': (lambda p: sem.E(p, .1, 2), p), 'Q': (lambda u: sem.Q(u, .1, 2), u), 'pressure mass': (
                   sem.pressure.B, p), 'filter': (lambda u: sem.filter(u, alpha=.3), u)}
      if fl.ndim == 2:
        table['vorticity'] = (sem.vorticity, u)
      names = sorted(table)
      for name in [str(n) for n in r.choice(names, 2 if mon.quick else len(names), replace=False)]:
        f, x = table[name]
        contexts(c, name, f, [x], rtol=1e-10)
  for c in mon.cases('steps', 1, 40, minimum=1):
    with c:
      r = c.rng
      fl = flow.random_flow(c, 2, maxorder=4)
      sem = fl.sem
      E = flow.E(fl, .1, 1.)
      null = np.linalg.eigvalsh((E + E.T) / 2)
      closed = flow.closed(fl)
      if not fl.mask.any() or null.max() < 1e-12 or np.sum(null < 1e-9 * null.max()) != int(closed):
        c.trivial = True
        continue
      tol = 1e-11
      us = [np.stack([flow.continuous(fl, r) * s for s in (1., 1e-3, 30.)]) for _ in range(2)]
      ps = [r.normal(size=(3, fl.P)) for _ in range(2)]

      def step(u0, u1, p0, p1, mu):
        f = sem.B(u1) - sem.C(u1)
        return sem.stokes_one_step((u0, u1), (p0, p1), f, mu=mu, dt=.02, time_order=2, tol=tol,
                                   project_out_nullspace=closed)[:2]
      contexts(c, 'step', step, us + ps + [r.uniform(.01, 1, 3)], rtol=1e-7, eager=False)


def part_single(mon):
  """Single precision agrees with an evaluation in double precision by numpy."""
  import jax
  import jax.numpy as jnp
  from swirlmon import space
  from swirl_fem.core.fespace import FiniteElementSpace, grad
  for c in mon.cases('spaces', 15, 500):
    with c:
      r = c.rng
      ndim = int(r.integers(1, 4))
      s = space.random_space(c, ndim, hi={1: 6, 2: 5, 3: 3}[ndim], qhi={1: 7, 2: 6, 3: 4}[ndim])
      u, w = r.normal(size=(2, s.N))

      def f(m, u, w):
        fs = FiniteElementSpace.create(m, s.quad)
        uf = fs.scalar_function(m.gather(u))
        k = fs.local_covector(lambda t: lambda x: grad(uf)(x) @ grad(t)(x), (fs.scalar_function(None),))
        return fs.jacdets, fs.integrate(lambda x: uf(x) ** 2), m.scatter(k), m.exchange(w)
      det, mass, stiff, exch = jax.jit(f)(s.mesh, jnp.asarray(u, jnp.float32), jnp.asarray(w, jnp.float32))
      c.check('precision', all(np.asarray(x).dtype == np.float32 for x in (det, mass, stiff, exch)),
              'results are not in single precision')
      c.close('single precision', det, s.geo.det, rtol=1e-4, scale=np.abs(s.geo.det).max())
      uq = np.einsum('qn,en->eq', s.geo.phi, u[s.els])
      c.close('single precision', mass, (s.geo.wdet * uq ** 2).sum(), rtol=1e-4, scale=(
          np.abs(s.geo.wdet) * uq ** 2).sum(), msg='mass')
      _, dphi = _basis(s)
      G = s.geo.physical_gradients(dphi)
      A = np.einsum('eq,eqnj,eqmj,em->en', s.geo.wdet, G, G, u[s.els])
      want = np.zeros(s.N)
      np.add.at(want, s.els, A)
      size = np.zeros(s.N)
      np.add.at(size, s.els, np.einsum('eq,eqnj,eqmj,em->en', np.abs(s.geo.wdet), np.abs(G), np.abs(G),
                                       np.abs(u[s.els])))
      c.close('single precision', stiff, want, rtol=1e-4, scale=size.max(), msg='stiffness')
      from swirlmon import gen
      cls = gen.link_classes(s.N, s.pm.periodic_links)
      tot = np.zeros(cls.max() + 1)
      np.add.at(tot, cls, w)
      c.close('single precision', exch, tot[cls], rtol=1e-5, scale=3, msg='exchange')
      c.event('context')


def _contexts_of_shared(r, f, args):
  """(name, thunk) of uses of f in both precisions, in random order."""
  import jax
  import jax.numpy as jnp
  out = []
  for kind in ('float32', 'float64'):
    a = [jnp.asarray(x, kind) for x in args]
    out += [(f'{kind}, eager', kind, lambda a=a: f(*a)), (f'{kind}, jit', kind, lambda a=a: jax.jit(lambda *x: f(*x))(*a)),
            (f'{kind}, vmap', kind, lambda a=a: jax.tree.map(lambda x: x[1], jax.jit(jax.vmap(lambda *x: f(*x)))(
                *[jnp.stack([0 * x, x]) for x in a]))),
            (f'{kind}, gradient', kind, lambda a=a: jax.jit(jax.grad(lambda x: sum(
                jnp.sum(y.astype(x.dtype) ** 2) for y in jax.tree.leaves(f(x, *a[1:])))))(a[0]))]
  return [out[i] for i in r.permutation(len(out))]


def part_shared(mon):
  """One object serves calls of both precisions, eager and compiled, in any order."""
  import jax
  import jax.numpy as jnp
  from swirlmon import flow, space
  from swirl_fem.core.fespace import FiniteElementSpace, div, grad
  from swirl_fem.core.interpolation import BarycentricInterpolator, Nodes1D, NodeType
  from swirl_fem.navier_stokes.navier_stokes import StokesSEM

  def space_case(c):
    r = c.rng
    ndim = int(r.integers(1, 4))
    s = space.random_space(c, ndim, hi={1: 6, 2: 4, 3: 3}[ndim], qhi={1: 7, 2: 5, 3: 3}[ndim])

    def f(fs, u, v):
      uf, vf = fs.scalar_function(fs.mesh.gather(u)), fs.vector_function(v[s.els])
      return (fs.integrate(lambda x: uf(x) * div(vf)(x)),
              fs.local_covector(lambda t: lambda x: grad(uf)(x) @ grad(t)(x) + uf(x) * t(x), (fs.scalar_function(None),)),
              fs.local_covector(lambda t: lambda x: uf(x) * div(t)(x) + vf(x) @ t(x), (fs.vector_function(None),)))
    return lambda: FiniteElementSpace.create(s.mesh, s.quad), f, [r.normal(size=s.N), r.normal(size=(s.N, ndim))]

  def interpolator_case(c):
    r = c.rng
    ndim = int(r.integers(1, 4))
    kinds = [k for k in NodeType if k != NodeType.SINGLE]
    a, b = [Nodes1D.create(int(r.integers(2, 6 - (ndim > 2))), kinds[int(r.integers(len(kinds)))]) for _ in range(2)]
    c.describe(ndim=ndim, nodes=[(n.num_points, n.node_type.value) for n in (a, b)])
    return (lambda: BarycentricInterpolator(ndim=ndim, gridpoints_1d=a, evalpoints_1d=b),
            lambda o, x: (o.interpolate(x), o.interpolate_grad(x)), [r.normal(size=a.num_points ** ndim)])

  def flow_case(c):
    r = c.rng
    fl = flow.random_flow(c, 2, maxorder=4)

    def f(sem, u, p):
      return sem.A(u), sem.C(u), sem.D(u), sem.Dt(p), sem.filter(u, alpha=.3), sem.Bi(u), sem.vorticity(u)
    import copy
    # a copy of each part made before any of them was used
    make = lambda: StokesSEM(velocity=copy.deepcopy(fl.sem.velocity), pressure=copy.deepcopy(fl.sem.pressure),
                             velocity_mass_diag=fl.sem.velocity_mass_diag)
    return make, f, [flow.continuous(fl, r), r.normal(size=fl.P)]

  for c in mon.cases('shared', 9, 200):
    with c:
      make, f, args = (space_case, interpolator_case, flow_case)[c.index % 3](c)
      shared = make()
      uses = _contexts_of_shared(c.rng, lambda *a: f(shared, *a), args)
      got = [(name, kind, jax.tree.leaves(use())) for name, kind, use in uses]
      fresh = {}
      for name, kind, _ in got:
        one = make()
        fresh[name] = jax.tree.leaves(dict((n, t) for n, _, t in _contexts_of_shared(
            np.random.default_rng(0), lambda *a: f(one, *a), args))[name]())
      order = [n for n, _, _ in got]
      for name, kind, out in got:
        for x, w in zip(out, fresh[name]):
          c.check('same precision', x.dtype == w.dtype, f'{name}: {x.dtype} instead of {w.dtype}, order {order}')
          single = np.asarray(w).dtype == np.float32
          c.close('same result', x, w, rtol=1e-4 if single else 1e-6 if kind == 'float32' and 'gradient' in name else 1e-12,
                  scale=np.abs(np.asarray(w)).max() + 1e-30, msg=f'{name}, order {order}')
        c.event('context')


def _basis(s):
  from swirlmon import ref
  return ref.basis_nd(s.nodes1d, s.xq, s.ndim)


def part_singleflow(mon):
  import jax
  import jax.numpy as jnp
  from swirlmon import flow
  for c in mon.cases('flows', 3, 80, minimum=1):
    with c:
      r = c.rng
      fl = flow.random_flow(c, 2, order=int(r.integers(3, 5)))
      sem = fl.sem
      u, p = flow.continuous(fl, r), r.normal(size=fl.P)
      cast = lambda x: jnp.asarray(x, jnp.float32)
      A = np.einsum('nm,mk->nk', fl.A, u) * fl.mask[:, None]
      size = (np.abs(fl.A) @ np.abs(u)).max()
      c.close('single precision', jax.jit(sem.A)(cast(u)), A, rtol=1e-4, scale=size, msg='A')
      c.close('single precision', jax.jit(sem.C)(cast(u)), flow.convection(fl, u), rtol=1e-3,
              scale=np.abs(flow.convection(fl, u)).max() + np.abs(u).max(), msg='C')
      c.close('single precision', jax.jit(sem.D)(cast(u)), np.einsum('pnk,nk->p', fl.D, u), rtol=1e-4,
              scale=(np.abs(fl.D).sum((1, 2)) * np.abs(u).max()).max(), msg='D')
      c.close('single precision', jax.jit(sem.Dt)(cast(p)),
              np.einsum('pnk,p->nk', fl.D, p) * fl.mask[:, None], rtol=1e-4,
              scale=(np.einsum('pnk->n', np.abs(fl.D)) * np.abs(p).max()).max(), msg='Dt')
      E = flow.E(fl, .1, 1.)
      null = np.linalg.eigvalsh((E + E.T) / 2)
      closed = flow.closed(fl)
      c.event('context')
      if not fl.mask.any() or null.max() < 1e-12 or np.sum(null < 1e-9 * null.max()) != int(closed):
        continue
      ev = null[null > 1e-9 * null.max()]
      if ev.max() / ev.min() > 1e4:
        continue
      us = [flow.continuous(fl, r) for _ in range(2)]
      ps = [.1 * r.normal(size=fl.P) for _ in range(2)]
      f = fl.mass[:, None] * flow.continuous(fl, r)
      ug, pg, _ = jax.jit(lambda us, ps, f: sem.stokes_one_step(us, ps, f, mu=.1, dt=.05, time_order=2, tol=1e-5,
                                                                project_out_nullspace=closed))(
          [cast(x) for x in us], [cast(x) for x in ps], cast(f))
      want = flow.one_step(fl, us, ps, f, .1, .05, 2, .05)
      c.check('precision', np.asarray(ug).dtype == np.float32, 'not in single precision')
      c.close('single precision', ug, want[0], rtol=5e-3, scale=np.abs(want[0]).max() + 1, msg='velocity of a step')
      c.event('context')

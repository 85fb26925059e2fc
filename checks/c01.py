import numpy as np

PARTS = [dict(name='rules'), dict(name='random')]
RULE = ('A case is one rule (family, size) or one random polynomial/rule/dimension; it is '
        'non-trivial when the recorded nodes and weights were judged by a moment oracle.')


def _types():
  from swirl_fem.core.interpolation import NodeType
  return {t.value: t for t in NodeType if t.value != 'single_point'}


def _make(kind, n):
  from swirl_fem.core.interpolation import Nodes1D, Quadrature1D
  t = _types()[kind]
  return Nodes1D.create(num_points=n, node_type=t), Quadrature1D.create(
      num_points=n, quadrature_type=t)


def part_rules(mon):
  from swirlmon import ref
  from swirl_fem.core.interpolation import Nodes1D, Quadrature1D
  top = 26 if mon.quick else 60
  todo = [(k, n) for k in sorted(_types()) for n in range(1, top + 1)
          if not (k != 'gauss_legendre' and n < 2)]
  for c in mon.cases('rule', len(todo), len(todo)):
    kind, n = todo[c.index]
    with c:
      c.describe(family=kind, n=n)
      nodes, quad = _make(kind, n)
      x, w = np.asarray(nodes.node_values), np.asarray(quad.weights)
      c.event('rules')
      c.check('count', x.shape == (n,) and w.shape == (n,) and nodes.num_points == n
              and quad.num_points == n)
      c.check('increasing', np.all(np.diff(x) > 0), x)
      c.close('symmetric', x, -x[::-1], atol=1e-13)
      c.check('inside', np.all(np.abs(x) <= 1))
      c.check('dtype', x.dtype == np.float64)
      if kind == 'gauss_legendre':
        c.check('interior', np.all(np.abs(x) < 1))
      else:
        c.check('end points', x[0] == -1. and x[-1] == 1.)
      c.check('continuity flag', bool(nodes.is_continuous()) == (kind != 'gauss_legendre'))
      xr, wr = ref.rule(kind, n)
      c.close('nodes', x, xr, atol=2e-12)
      c.close('weights', w, wr, atol=5e-12)
      c.check('positive', np.all(w > 0))
      c.close('weight sum', w.sum(), 2., atol=1e-12)
      c.equal('quadrature nodes', np.asarray(quad.nodes.node_values), x)
      q2 = Quadrature1D.create_from_nodes_1d(nodes)
      c.equal('from nodes', np.asarray(q2.weights), w)
      c.check('type kept', quad.quadrature_type == _types()[kind] == nodes.node_type
              == q2.quadrature_type)
      if kind == 'newton_cotes':
        # composite trapezoid: exact on each hat function of the grid
        for i in range(n):
          hat = np.zeros(n)
          hat[i] = 1
          c.close('trapezoid', w @ hat, np.sum((hat[1:] + hat[:-1]) / 2 * np.diff(x)), atol=1e-13)
      else:
        deg = 2 * n - 1 if kind == 'gauss_legendre' else 2 * n - 3
        v = np.polynomial.legendre.legvander(x, deg)
        c.close('moments', w @ v, [2.] + [0.] * deg, atol=5e-12)
        c.event('moments', deg + 1)
      for ndim in (1, 2, 3):
        if n ** ndim <= 4000:
          c.close('tensor weights', quad.weights_nd(ndim), ref.tensor_weights(w, ndim), atol=1e-14)
      # equality
      again, _ = _make(kind, n)
      c.check('equal to itself', bool(nodes == again))
      for k2 in sorted(_types()):
        for n2 in sorted({1, 2, 3, n - 1, n, n + 1}):
          if n2 < 1 or (k2 != 'gauss_legendre' and n2 < 2):
            continue
          other, _ = _make(k2, n2)
          same = n2 == n and np.allclose(other.node_values, x, atol=1e-12)
          c.check('equality implies same points', same or not bool(nodes == other),
                  f'{kind},{n} equals {k2},{n2}')
  for c in mon.cases('single', 20, 100):
    with c:
      v = c.rng.uniform(-3, 3)
      c.describe(value=v)
      a = Nodes1D.create_single_point(np.array(v))
      c.check('single point', a.num_points == 1 and np.asarray(a.node_values).shape == (1,)
              and float(a.node_values[0]) == v)
      c.check('single equal', bool(a == Nodes1D.create_single_point(np.array(v))))
      c.check('single different', not bool(a == Nodes1D.create_single_point(np.array(v + .01))))
      for gap in (1e-3, 1e-6, 1e-9, 1e-12):
        near = v + gap if v <= 0 else v - gap
        c.check('near but different', not bool(a == Nodes1D.create_single_point(np.array(near))), (v, gap))
      c.check('single is not continuous', not bool(a.is_continuous()))
  for c in mon.cases('reject', 1, 1):
    with c:
      c.describe(kind='invalid')
      c.raises('bad type', Exception, lambda: Nodes1D.create(num_points=3, node_type='nope'))


def part_random(mon):
  from swirlmon import ref
  for c in mon.cases('polynomial', 150, 3000):
    with c:
      kind = str(c.rng.choice(sorted(_types())))
      ndim = int(c.rng.integers(1, 4))
      n = int(c.rng.integers(2 if kind != 'gauss_legendre' else 1, {1: 14, 2: 8, 3: 5}[ndim]))
      deg = {'gauss_legendre': 2 * n - 1, 'gauss_lobatto_legendre': 2 * n - 3,
             'newton_cotes': 1}[kind]
      deg = int(c.rng.integers(0, deg + 1))
      c.describe(family=kind, n=n, ndim=ndim, degree=deg)
      _, q = _make(kind, n)
      f, _ = ref.random_poly(c.rng, ndim, deg)
      pts = ref.tensor(np.asarray(q.nodes.node_values), ndim)
      got = np.asarray(q.weights_nd(ndim)) @ f(pts)
      xr, wr = ref.gl(deg // 2 + 2)
      want = ref.tensor_weights(wr, ndim) @ f(ref.tensor(xr, ndim))
      c.event('integrals')
      c.close('exact integral', got, want, rtol=1e-10, scale=np.abs(f(pts)).max() * 2 ** ndim)

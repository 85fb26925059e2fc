import os
import tempfile

import numpy as np

PARTS = [dict(name=f'epochs{i}', fn='epochs', budget={'quick': 25.}) for i in range(4)] + [
    dict(name='counts'), dict(name='files')]
RULE = ('A case is a generated dataset and a pipeline configuration; every snapshot carries an id from which all '
        'its values follow. Non-trivial when all batches of two epochs were traced to windows of files.')
ASSUMPTIONS = ['Each file has at least one window.', 'A single process.']


def _pipeline(directory):
  os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
  from absl import flags
  from swirl_fem.niles import input_pipeline
  if not flags.FLAGS.is_parsed():
    flags.FLAGS(['check'])
  flags.FLAGS.dataset_dir = directory
  return input_pipeline


def _u(t, shape):
  k = np.arange(np.prod(shape)).reshape(shape)
  return np.sin(t * 1.37 + 2. * k) * 10 ** ((t % 7) - 3)


def _p(t, shape):
  k = np.arange(np.prod(shape)).reshape(shape)
  return np.cos(t * .61 - 3. * k) / 3


def _write(path, ids, ushape, pshape, dtype):
  import h5py
  with h5py.File(path, 'w') as f:
    f['u'] = np.stack([_u(t, ushape) for t in ids]).astype(dtype)
    f['p'] = np.stack([_p(t, pshape) for t in ids]).astype(dtype)
    f['t'] = np.asarray(ids, float)


def part_epochs(mon):
  import ml_collections
  with tempfile.TemporaryDirectory() as top:
    for c in mon.cases('epochs', 10, 200):
      with c:
        r = c.rng
        d = os.path.join(top, str(c.index))
        os.mkdir(d)
        pipe = _pipeline(d)
        ushape = [(3, 2), (2,), (1, 4, 2)][int(r.integers(3))]
        pshape = [(3,), (1,), ()][int(r.integers(3))]
        dtype = r.choice([np.float64, np.float32])
        ws = {s: int(r.integers(1, 8)) for s in ('train', 'eval')}
        st = {s: int(r.integers(1, 6)) for s in ('train', 'eval')}
        step = int(r.integers(1, 4))
        lengths = r.integers(max(ws.values()), max(ws.values()) + 14, 28)
        for i in range(28):
          _write(os.path.join(d, f'filtered_dns_shard_{i:02}.hdf5'), [1000. * i + j for j in range(lengths[i])],
                 ushape, pshape, dtype)
        train, debug = bool(r.random() < .6), bool(r.random() < .35)
        split = 'train' if train else 'eval'
        shards = list(range(24)) if train else list(range(24, 28))
        if debug:
          shards = shards[:1]
        windows = {}
        for i in shards:
          for a in range(0, lengths[i], st[split]):
            if a + ws[split] <= lengths[i]:
              windows[1000. * i + a] = [1000. * i + a + k for k in range(0, ws[split], step)]
        total = len(windows)
        batch = int(r.integers(1, min(total, 17) + 1)) if r.random() < .8 else max(1, total - int(r.integers(0, 3)))
        config = ml_collections.FrozenConfigDict(dict(
            train_window_size=ws['train'], train_window_stride=st['train'], eval_window_size=ws['eval'],
            eval_window_stride=st['eval'], window_step=step, debug=debug, cache=bool(r.random() < .5)))
        c.describe(split=split, debug=debug, windows=ws, strides=st, step=step, batch=batch, lengths=lengths,
                   dtype=str(np.dtype(dtype)), total=total, velocity=ushape, pressure=pshape)
        it = iter(pipe.create_split(batch, train, config).as_numpy_iterator())
        size = len(range(0, ws[split], step))
        order = []
        for epoch in range(2):
          seen = []
          order.append(seen)
          for _ in range(total // batch):
            b = next(it)
            c.check('keys', sorted(b) == ['p', 't', 'u'], sorted(b))
            c.check('shapes', b['t'].shape == (batch, size) and b['u'].shape == (batch, size) + ushape and
                    b['p'].shape == (batch, size) + pshape, {k: v.shape for k, v in b.items()})
            c.check('double precision', all(v.dtype == np.float64 for v in b.values()))
            for j in range(batch):
              t = b['t'][j]
              ok = c.check('windows of consecutive snapshots of one file',
                           windows.get(float(t[0])) == t.tolist(), t.tolist())
              if ok:
                seen.append(float(t[0]))
                c.check('velocity of the same snapshots, unchanged', np.array_equal(
                    b['u'][j], np.stack([_u(x, ushape) for x in t]).astype(dtype)), t.tolist())
                c.check('pressure of the same snapshots, unchanged', np.array_equal(
                    b['p'][j], np.stack([_p(x, pshape) for x in t]).astype(dtype)), t.tolist())
            c.event('batches')
          c.check('each window at most once per epoch', len(set(seen)) == len(seen), f'epoch {epoch}')
          c.check('only an incomplete batch is dropped', total - len(seen) < batch, f'{len(seen)} of {total}')
          c.event('windows', len(seen))
        if total >= 20 and batch >= 2 and batch * 2 <= total:
          # a fixed order has probability below 1e-9 in a buffer of at least 16 windows
          c.check('examples are shuffled', all(o != sorted(o) for o in order), 'in the order of the files')
          c.check('every epoch in another order', order[0] != order[1], 'same order twice')
          again = next(iter(pipe.create_split(batch, train, config).as_numpy_iterator()))
          c.equal('reproducible', again['t'][:, 0], order[0][:batch])
          c.event('shuffled')
        # the epochs are as long as stated: one more batch starts the third one
        c.event('files', len(shards))


def part_files(mon):
  """Files are read back unchanged in double precision."""
  import h5py
  with tempfile.TemporaryDirectory() as top:
    pipe = _pipeline(top)
    for c in mon.cases('read', 60, 1000):
      with c:
        r = c.rng
        path = os.path.join(top, f'{c.index}.hdf5')
        data = {}
        for k in r.choice(['u', 'p', 't', 'extra', 'w'], int(r.integers(1, 5)), replace=False):
          shape = tuple(int(x) for x in r.integers(1, 5, int(r.integers(0, 4))))
          kind = r.choice(['float64', 'float32', 'int32'])
          data[str(k)] = (r.normal(size=shape) * 10 ** r.uniform(-8, 8)).astype(kind) if kind != 'int32' else r.integers(
              -999, 999, shape).astype(kind)
        with h5py.File(path, 'w') as f:
          for k, v in data.items():
            f[k] = v
        c.describe(data={k: [v.shape, str(v.dtype)] for k, v in data.items()})
        got = pipe.read_snapshots_file(path)
        c.check('keys', sorted(got) == sorted(data))
        for k, v in data.items():
          c.check('values', got[k].dtype == np.float64 and got[k].shape == np.shape(v) and
                  np.array_equal(got[k], v.astype(np.float64)), k)
        os.remove(path)
        c.event('arrays', len(data))


def part_counts(mon):
  """The number of examples against enumerated windows."""
  with tempfile.TemporaryDirectory() as top:
    pipe = _pipeline(top)
    import tensorflow_datasets as tfds
    for c in mon.cases('counts', 200, 3000):
      with c:
        r = c.rng
        split = [tfds.Split.TRAIN, tfds.Split.VALIDATION][int(r.integers(2))]
        ws = int(r.integers(1, 40)) if r.random() < .8 else int(r.integers(1, 6000))
        st, debug = int(r.integers(1, 30)), bool(r.integers(2))
        c.describe(split=str(split), window=ws, stride=st, debug=debug)
        size = 6400 * ({True: 1}.get(debug) or (24 if split == tfds.Split.TRAIN else 4))
        got = pipe.get_num_examples(split, window_size=ws, window_stride=st, debug=debug)
        c.check('number of examples', got == len(range(0, size - ws + 1, st)), f'{got}')
        c.event('counts')

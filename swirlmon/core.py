"""Monitors: cases, oracles, event counters and verdicts.

A check is a module `checks/<id>.py` with PARTS, a list of dicts (name, and
optionally devices, x64, budget) and one function `part_<name>(mon)` per part,
which drives the code under test and records what it observes.
"""
import json
import os
import time
import traceback
import zlib

import numpy as np


class Inconclusive(Exception):
  """The harness could not decide (resources, missing monitor events)."""


def _crc(x):
  if isinstance(x, np.ndarray):
    return zlib.crc32(np.ascontiguousarray(x).tobytes())
  return zlib.crc32(repr(x).encode())


def _summary(x):
  if isinstance(x, (bool, int, float, str)) or x is None:
    return x
  if isinstance(x, (np.integer, np.floating, np.bool_)):
    return x.item()
  if hasattr(x, 'shape') and hasattr(x, 'dtype'):
    a = np.asarray(x)
    if a.size <= 24:
      return a.tolist() if a.dtype != object else str(a)
    return f'array{list(a.shape)} {a.dtype} crc={_crc(a):08x}'
  if isinstance(x, dict):
    return {str(k): _summary(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    if len(x) > 24:
      return f'{type(x).__name__}[{len(x)}] crc={zlib.crc32(json.dumps([_summary(v) for v in x], default=str).encode()):08x}'
    return [_summary(v) for v in x]
  return str(x)


def tojson(x):
  return json.dumps(x, default=str)


class Case:
  """One execution of the code under test, watched by oracles."""

  def __init__(self, mon, name, index):
    self.mon, self.name, self.index = mon, name, index
    self.id = f'{name}/{index}'
    self.rng = mon.rng(name, index)
    self.params = {}
    self.nchecks = 0
    self.trivial = False
    self.mechanism = None
    self.failed = []

  def describe(self, **params):
    for k, v in params.items():
      self.params[k] = _summary(v)

  def event(self, kind, n=1):
    ev = self.mon.events
    ev[kind] = ev.get(kind, 0) + int(n)

  def check(self, what, cond, msg=''):
    self.nchecks += 1
    self.mon.oracles[what] = self.mon.oracles.get(what, 0) + 1
    if not bool(cond):
      self.failed.append(dict(what=what, msg=str(msg() if callable(msg) else msg)[:600]))
    return bool(cond)

  def equal(self, what, got, want, msg=''):
    g, w = np.asarray(got), np.asarray(want)
    ok = g.shape == w.shape and bool(np.array_equal(g, w))
    return self.check(what, ok, msg or f'got {_summary(g)} want {_summary(w)}')

  def close(self, what, got, want, rtol=1e-9, atol=1e-11, scale=None, msg=''):
    """Compares with a tolerance relative to the overall magnitude of `want`."""
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
      return self.check(what, False, f'{msg} shape {g.shape} != {w.shape}')
    if g.size == 0:
      return self.check(what, True)
    wide = np.complex128 if (np.iscomplexobj(g) or np.iscomplexobj(w)) else np.float64
    g, w = g.astype(wide), w.astype(wide)
    if not np.all(np.isfinite(w)):
      raise Inconclusive(f'{what}: reference is not finite')
    mag = float(np.max(np.abs(w))) if scale is None else float(scale)
    tol = float(atol + rtol * mag)
    err = np.abs(g - w)
    ok = bool(np.all(np.isfinite(g))) and bool(np.all(err <= tol))
    if not ok:
      i = np.unravel_index(int(np.argmax(np.where(np.isfinite(err), err, np.inf))), err.shape)
      msg = (f'{msg} at {tuple(int(k) for k in i)}: got {g[i]!r} want {w[i]!r} '
             f'(max err {np.max(err):.3e}, tol {tol:.3e}, magnitude {mag:.3e})')
    elif np.isfinite(err).all():
      m = self.mon.margins
      m[what] = max(m.get(what, 0.), float(np.max(err)) / tol if tol else 0.)
    return self.check(what, ok, msg)

  def raises(self, what, exc, fn):
    try:
      fn()
    except exc:
      return self.check(what, True)
    except Exception as e:  # pylint: disable=broad-except
      return self.check(what, False, f'raised {type(e).__name__}: {e}')
    return self.check(what, False, 'nothing was raised')

  def __enter__(self):
    self.mon.current = self
    return self

  def __exit__(self, etype, e, tb):
    self.mon.current = None
    if etype is not None:
      if not issubclass(etype, Exception):
        return False
      text = ''.join(traceback.format_exception_only(etype, e)).strip()
      if (issubclass(etype, (Inconclusive, MemoryError)) or
          'RESOURCE_EXHAUSTED' in text or 'No space left' in text):
        self.mon.inconclusive.append(f'{self.id}: {text[:500]}')
        return True
      frames = traceback.extract_tb(tb)
      where = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in frames
               if '/repo/' in f.filename or '/verif/' in f.filename or 'checks' in f.filename]
      self.nchecks += 1
      self.failed.append(dict(what='raised', msg=f'{text[:500]} at {where[-4:]}'))
    self.mon.finish(self)
    return True


class Monitor:

  def __init__(self, prop, part, seed, tier, only=None, budget=None):
    self.prop, self.part, self.seed, self.tier = prop, part, seed, tier
    self.only = only
    self.quick = tier == 'quick'
    self.t0 = time.time()
    self.budget = budget or (30. if self.quick else 420.)
    self.events, self.oracles, self.margins = {}, {}, {}
    self.keys, self.samples, self.violations, self.inconclusive = set(), [], [], []
    self.evaluations = 0
    self.current = None
    self.progress_file = None
    self.truncated = {}

  def rng(self, *key):
    words = [int(self.seed) & 0xffffffff, _crc(self.prop), _crc(self.part)]
    words += [_crc(k) for k in key]
    return np.random.default_rng(words)

  def elapsed(self):
    return time.time() - self.t0

  def cases(self, name, quick, thorough=None, minimum=1, frac=1.):
    """Yields cases until the count or the time budget is used up."""
    n = quick if self.quick else (thorough if thorough is not None else 6 * quick)
    for i in range(n):
      if self.only is not None:
        if self.only != f'{name}/{i}':
          continue
      elif i >= minimum and self.elapsed() > self.budget * frac:
        self.truncated[name] = i
        break
      c = Case(self, name, i)
      if self.progress_file:
        with open(self.progress_file, 'w') as f:
          f.write(tojson(dict(case=c.id, t=time.time())))
      yield c

  def finish(self, c):
    self.evaluations += 1
    key = (c.name, tojson(c.params))
    if c.nchecks and not c.trivial:
      self.keys.add(f'{zlib.crc32(key[0].encode()):08x}{zlib.crc32(key[1].encode()):08x}')
      if sum(s['case'].split('/')[0] == c.name for s in self.samples) < 2:
        self.samples.append(dict(part=self.part, case=c.id, params=c.params,
                                 oracle_checks=c.nchecks))
    for f in c.failed[:8]:
      self.violations.append(dict(part=self.part, case=c.id, params=c.params,
                                  mechanism=c.mechanism, **f))

  def result(self):
    return dict(part=self.part, evaluations=self.evaluations,
                keys=sorted(self.keys), samples=self.samples, events=self.events,
                oracles=self.oracles, margins=self.margins,
                violations=self.violations, inconclusive=self.inconclusive,
                truncated=self.truncated, wall_s=self.elapsed())

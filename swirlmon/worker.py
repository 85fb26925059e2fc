"""Runs one part of a check in its own process."""
import argparse
import importlib
import json
import os
import sys
import traceback


def main():
  ap = argparse.ArgumentParser()
  for a in ('prop', 'part', 'tier', 'out', 'only', 'progress'):
    ap.add_argument('--' + a)
  ap.add_argument('--seed', type=int)
  ap.add_argument('--devices', type=int, default=1)
  ap.add_argument('--x64', type=int, default=1)
  ap.add_argument('--budget', type=float, default=0)
  ap.add_argument('--extra', default='{}')
  a = ap.parse_args()
  # XLA 0.6.2 folds slices of transposed constants wrongly on CPU (see DESIGN.md:
  # the same jaxpr evaluated operation by operation is right), which would be
  # blamed on the code under test.
  flags = ['--xla_cpu_multi_thread_eigen=false', '--xla_disable_hlo_passes=constant_folding']
  if a.devices > 1:
    flags.append(f'--xla_force_host_platform_device_count={a.devices}')
  flags += json.loads(a.extra).get('xla_flags', [])
  os.environ['XLA_FLAGS'] = ' '.join(flags)
  from swirlmon.core import Monitor
  mon = Monitor(a.prop, a.part, a.seed, a.tier, only=a.only or None,
                budget=a.budget or None)
  mon.progress_file = a.progress
  mon.extra = json.loads(a.extra)
  mon.devices = a.devices
  try:
    import jax
    jax.config.update('jax_enable_x64', bool(a.x64))
    import swirl_fem
    paths = [os.path.abspath(p) for p in swirl_fem.__path__]
    if not any(p.startswith('/repo/') for p in paths):
      mon.inconclusive.append(f'swirl_fem imported from {paths}')
    module = importlib.import_module('checks.' + a.prop.lower())
    getattr(module, 'part_' + mon.extra.get('fn', a.part))(mon)
  except Exception:  # pylint: disable=broad-except
    mon.inconclusive.append('harness: ' + traceback.format_exc()[-1500:])
  with open(a.out, 'w') as f:
    json.dump(mon.result(), f, default=str)
  sys.stdout.flush()
  os._exit(0)


if __name__ == '__main__':
  main()

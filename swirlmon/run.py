"""Decides one property: runs its parts, merges verdicts, writes evidence."""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_PARALLEL = int(os.environ.get('SWIRLMON_PARALLEL', '8'))


def known_findings():
  """Committed findings: {(property, mechanism): text} (fixed ones suppress nothing)."""
  out = {}
  path = os.path.join(ROOT, 'known_findings.txt')
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith('finding:'):
        fields = dict(w.split('=', 1) for w in line.split()[1:3])
        out[(fields['property'], fields['mechanism'])] = line.split(None, 3)[3]
  return out


def run_parts(prop, parts, tier, seed, only, tmp, limit):
  pending, running, results = list(parts), [], []
  while pending or running:
    while pending and len(running) < MAX_PARALLEL:
      p = pending.pop(0)
      out = os.path.join(tmp, p['name'] + '.json')
      prog = os.path.join(tmp, p['name'] + '.progress')
      cmd = [sys.executable, '-W', 'ignore', '-m', 'swirlmon.worker', '--prop', prop,
             '--part', p['name'], '--tier', tier, '--seed', str(seed), '--out', out,
             '--progress', prog, '--devices', str(p.get('devices', 1)),
             '--x64', str(int(p.get('x64', True))),
             '--budget', str(p.get('budget', {}).get(tier, 0)),
             '--extra', json.dumps(p)]
      if only:
        cmd += ['--only', only]
      log = open(os.path.join(tmp, p['name'] + '.log'), 'w')
      running.append((p, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT,
                                          cwd=ROOT), out, prog, time.time(), log.name))
    time.sleep(0.05)
    for r in list(running):
      p, proc, out, prog, t0, log = r
      if proc.poll() is None:
        if time.time() - t0 > limit:
          proc.kill()
          proc.wait()
          last = {}
          if os.path.exists(prog):
            try:
              last = json.load(open(prog))
            except ValueError:
              pass
          stuck = time.time() - last.get('t', time.time())
          res = dict(part=p['name'], dead=True, evaluations=0, keys=[], samples=[],
                     events={}, oracles={}, margins={}, violations=[], truncated={},
                     inconclusive=[f'part timed out in case {last}'])
          # Termination is itself specified for some parts: a case which takes
          # orders of magnitude longer than any on the intended behaviour has hung.
          if p.get('hang_is_violation') and stuck > 0.6 * limit and last:
            res['inconclusive'] = []
            res['violations'] = [dict(part=p['name'], case=last['case'], params={},
                                      mechanism=None, what='terminates',
                                      msg=f'no result after {stuck:.0f} s')]
          results.append(res)
          running.remove(r)
        continue
      running.remove(r)
      if os.path.exists(out):
        try:
          results.append(json.load(open(out)))
          continue
        except ValueError:
          pass
      tail = open(log).read()[-1500:]
      results.append(dict(part=p['name'], dead=True, evaluations=0, keys=[], samples=[],
                          events={}, oracles={}, margins={}, violations=[], truncated={},
                          inconclusive=[f'worker died rc={proc.returncode}: {tail}']))
  return results


def selftest():
  import swirl_fem  # noqa: F401
  names = sorted(f[:-3] for f in os.listdir(os.path.join(ROOT, 'checks')) if f[0] == 'c')
  for n in names:
    compile(open(os.path.join(ROOT, 'checks', n + '.py')).read(), n, 'exec')
  print('setup ok,', len(names), 'checks')


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop', nargs='?')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
  ap.add_argument('--replay')
  ap.add_argument('--part')
  ap.add_argument('--selftest', action='store_true')
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args()
  if a.selftest:
    return selftest()
  tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
  seed, only, part = a.seed, None, a.part
  if a.replay:
    r = json.load(open(a.replay))
    a.prop, seed, tier, only, part = r['property'], r['seed'], r['tier'], r['case'], r['part']
  t0 = time.time()
  src = importlib.import_module('checks.' + a.prop.lower() + '_meta') if False else None
  meta = {}
  exec(_header(os.path.join(ROOT, 'checks', a.prop.lower() + '.py')), meta)
  parts = [p for p in meta['PARTS'] if part in (None, p['name'])
           and tier in p.get('tiers', ('quick', 'thorough'))]
  limit = 420 if tier == 'quick' else 840
  with tempfile.TemporaryDirectory(prefix='swirlmon') as tmp:
    results = run_parts(a.prop, parts, tier, seed, only, tmp, limit)

  findings = known_findings()
  violations, known, inconclusive = [], {}, []
  keys, events, oracles, margins, samples = set(), {}, {}, {}, []
  for r in results:
    keys |= {r['part'] + k for k in r['keys']}
    for d, s in ((events, r['events']), (oracles, r['oracles'])):
      for k, v in s.items():
        d[k] = d.get(k, 0) + v
    for k, v in r['margins'].items():
      margins[k] = max(margins.get(k, 0), v)
    samples += r['samples']
    inconclusive += [f"{r['part']}: {x}" for x in r['inconclusive']]
    if not r.get('dead') and not only and not r['oracles'] and not r['inconclusive']:
      inconclusive.append(f"{r['part']}: no oracle was reached")
    for v in r['violations']:
      f = findings.get((a.prop, v.get('mechanism')))
      if f:
        known[v['mechanism']] = f
      else:
        violations.append(v)
  coverage = dict(
      evaluations=sum(r['evaluations'] for r in results),
      distinct_nontrivial=len(keys), rule=meta['RULE'], samples=samples[:12],
      oracle_checks=oracles, observed_events=events,
      worst_error_over_tolerance={k: round(v, 6) for k, v in margins.items()},
      parts={r['part']: dict(evaluations=r['evaluations'], wall_s=round(r.get('wall_s', 0), 1),
                             stopped_by_time=r['truncated']) for r in results})
  evidence = dict(property=a.prop, tier=tier, seed=seed, level='exploration',
                  coverage=coverage, assumptions=meta.get('ASSUMPTIONS', []),
                  wall_s=round(time.time() - t0, 2), violations=len(violations))
  if inconclusive:
    evidence['inconclusive'] = inconclusive
  if not a.replay:
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', a.prop + '.json'), 'w') as f:
      json.dump(evidence, f, indent=1, default=str)

  for m, text in sorted(known.items()):
    print(f'KNOWN-FINDING: property={a.prop} {text}')
  for x in inconclusive:
    print('INCONCLUSIVE', x, file=sys.stderr)
  shown = {}
  for v in violations:
    k = (v['part'], v['what'])
    shown[k] = shown.get(k, 0) + 1
    if shown[k] > 1 or len(shown) > 6:
      continue
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    name = f"{a.prop}-{v['part']}-{v['case'].replace('/', '_')}-{v['what'].replace(' ', '_').replace('/', '_')}.json"
    path = os.path.join(ROOT, 'replays', name)
    with open(path, 'w') as f:
      json.dump(dict(property=a.prop, seed=seed, tier=tier, part=v['part'],
                     case=v['case'], what=v['what'], msg=v['msg'], params=v['params']),
                f, indent=1, default=str)
    print(f'VIOLATION property={a.prop} replay={path}')
    print(f"  {v['part']}:{v['case']} [{v['what']}] {v['msg']}")
  if a.v:
    print(json.dumps(coverage, indent=1, default=str))
  print(f"{a.prop} {tier} seed={seed}: {coverage['evaluations']} executions, "
        f"{coverage['distinct_nontrivial']} distinct, {sum(oracles.values())} oracle checks, "
        f"{len(violations)} violations, {time.time() - t0:.1f} s")
  if violations:
    sys.exit(1)
  if inconclusive:
    sys.exit(2)
  sys.exit(0)


def _header(path):
  """The PARTS, RULE and ASSUMPTIONS assignments of a check, without importing jax."""
  import ast
  tree = ast.parse(open(path).read())
  body = [n for n in tree.body if isinstance(n, ast.Assign) and
          n.targets[0].id in ('PARTS', 'RULE', 'ASSUMPTIONS')]
  return compile(ast.Module(body=body, type_ignores=[]), path, 'exec')


if __name__ == '__main__':
  main()

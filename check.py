#!/usr/bin/env python3
"""Decides one property: builds its harness from the working tree, runs it.

usage: check.py ID [--replay FILE] [--scale X] [--part NAME]
       check.py --setup
"""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
REPLAYS = os.environ.get('VERIF_REPLAYS', os.path.join(HERE, 'replays'))
PYTHON = '/opt/veriftools/pyvenv/bin/python'

ASSUMPTIONS = [
    'third-party libraries absent from the sandbox are replaced by the stand-ins in shim/',
    'g++ 13, AddressSanitizer and libstdc++ assertions report memory errors',
]


def build_env():
  env = dict(os.environ)
  env.setdefault('CCACHE_DIR', os.path.join(BUILD, 'ccache'))
  env['CCACHE_MAXSIZE'] = '3G'
  env['CCACHE_SLOPPINESS'] = 'time_macros'
  return env


def run_logged(cmd, log):
  with open(log, 'ab') as f:
    return subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT,
                           env=build_env())


def build(targets):
  """Configures once, then builds the targets incrementally."""
  os.makedirs(BUILD, exist_ok=True)
  with open(os.path.join(BUILD, '.lock'), 'w') as lock:
    fcntl.flock(lock, fcntl.LOCK_EX)
    log = os.path.join(BUILD, 'build-%s.log' % (targets[0] if targets else 'all'))
    open(log, 'w').close()
    if not os.path.exists(os.path.join(BUILD, 'build.ninja')):
      cmd = ['cmake', '-G', 'Ninja', '-S', HERE, '-B', BUILD,
             '-DCMAKE_CXX_COMPILER=/usr/bin/g++', '-DREPO=' + REPO]
      if shutil.which('ccache'):
        cmd.append('-DCMAKE_CXX_COMPILER_LAUNCHER=ccache')
      if run_logged(cmd, log) != 0:
        return False, log
    ok = run_logged(['ninja', '-C', BUILD] + targets, log) == 0
    if not ok:
      # A dependency file damaged by an interrupted build: try once more.
      ok = run_logged(['ninja', '-C', BUILD] + targets, log) == 0
    return ok, log


def known_findings(pid):
  out = []
  path = os.path.join(HERE, 'known-findings.txt')
  if os.path.exists(path):
    for line in open(path):
      if line.startswith('known: property=%s ' % pid):
        out.append(line.split(' ', 2)[2].strip())
  return out


def main():
  args = sys.argv[1:]
  if not args:
    print(__doc__)
    return 2
  if args[0] == '--setup':
    names = sorted(os.path.splitext(f)[0] for f in
                   os.listdir(os.path.join(HERE, 'harness'))
                   if f.startswith('p_') and f.endswith('.cc'))
    ok, log = build(names)
    if not ok:
      # Keep going: one broken area must not disable the other checks.
      for n in names:
        build([n])
    print('setup', 'ok' if ok else 'incomplete, see ' + log)
    return 0 if ok else 1

  pid = args[0]
  seed = int(os.environ.get('VERIF_SEED', '1'))
  tier = os.environ.get('VERIF_TIER', 'quick')
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  t0 = time.time()
  extra = args[1:]

  py = os.path.join(HERE, 'harness', 'py', 'p_%s.py' % pid.lower())
  if os.path.exists(py):
    binary = [PYTHON, '-B', py]
  else:
    target = 'p_' + pid.lower()
    ok, log = build([target])
    if not ok:
      sys.stdout.write(open(log, errors='replace').read()[-6000:])
      print('ERROR: %s does not build' % target)
      return 2
    binary = [os.path.join(BUILD, target)]
  built = time.time()

  scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
  out = os.path.join(scratch, 'out.json')
  env = dict(os.environ)
  env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=86:'
                         'allocator_may_return_null=1:handle_abort=0')
  env['VERIF_REPO'] = REPO
  env['PYTHONHASHSEED'] = '0'
  env['TMPDIR'] = scratch
  env['TEST_TMPDIR'] = scratch
  cmd = binary + ['--seed', str(seed), '--tier', tier, '--out', out,
                  '--replay-dir', REPLAYS, '--scratch', scratch,
                  '--time-cap', '5400' if tier == 'thorough' else '240'] + extra
  try:
    rc = subprocess.call(cmd, env=env)
    if '--replay' in extra:
      return rc
    if not os.path.exists(out):
      print('ERROR: harness ended with status %d and no report' % rc)
      return 2
    r = json.load(open(out))
  finally:
    shutil.rmtree(scratch, ignore_errors=True)

  violation = bool(r['violation'])
  cov = {
      'evaluations': r['evaluations'],
      'distinct_nontrivial': r['distinct_nontrivial'],
      'rule': r['rule'],
      'samples': r['samples'],
      'planned': r.get('planned', r['evaluations']),
      'discarded': r.get('discarded', 0),
      'nontrivial': r.get('nontrivial', r['distinct_nontrivial']),
      'labels': r.get('labels', {}),
      'inconclusive': r.get('inconclusive', []),
  }
  ev = {
      'property': pid,
      'tier': tier,
      'seed': seed,
      'level': 'exploration',
      'coverage': cov,
      'assumptions': ASSUMPTIONS,
      'wall_s': round(time.time() - t0, 2),
      'build_s': round(built - t0, 2),
      'violations': 1 if violation else 0,
  }
  os.makedirs(EVIDENCE, exist_ok=True)
  tmp = os.path.join(EVIDENCE, '.%s.tmp' % pid)
  with open(tmp, 'w') as f:
    json.dump(ev, f, indent=1)
  os.replace(tmp, os.path.join(EVIDENCE, pid + '.json'))
  for k in known_findings(pid):
    print('KNOWN-FINDING: property=%s %s' % (pid, k))
  if violation:
    print('VIOLATION property=%s replay=%s' % (pid, r['replay']))
    return 1
  return 0


if __name__ == '__main__':
  sys.exit(main())

"""A small property-based testing engine for the Python part of the repository.

Works like harness/pbt: a case is a sequence of choices, every generator draws
from it, failures are shrunk by simplifying the sequence, and the shrunk
sequence is the replay file.
"""
import argparse
import collections
import hashlib
import io
import json
import os
import pickle
import random
import shutil
import signal
import sys
import time
import traceback


class Failure(Exception):
  """A violated property."""


class Discard(Exception):
  """The case does not meet the preconditions."""


class TimedOut(BaseException):
  """The case took too long."""


class Src:
  """Choices of a case, drawn at random or taken from a list."""

  def __init__(self, rng=None, choices=None):
    self._rng = rng
    self._given = choices
    self.choices = []

  def draw(self, n):
    """A number in [0, n)."""
    if n <= 1:
      return 0
    if self._given is not None:
      i = len(self.choices)
      v = self._given[i] % n if i < len(self._given) else 0
    else:
      v = self._rng.randrange(n)
    self.choices.append(v)
    return v

  def range(self, lo, hi):
    return lo + self.draw(hi - lo + 1)

  def chance(self, num, den):
    # 0 stands for the unlikely side only if it is the simpler one: no.
    return self.draw(den) >= den - num

  def flip(self):
    return self.draw(2) == 1

  def pick(self, items):
    return items[self.draw(len(items))]

  def weighted(self, weights):
    v = self.draw(sum(weights))
    for i, w in enumerate(weights):
      if v < w:
        return i
      v -= w
    raise AssertionError

  def small(self, lo, hi):
    """Mostly near lo."""
    v = lo
    while v < hi and self.draw(3) == 2:
      v += 1
    return v

  def bytes(self, n):
    k = self.draw(n + 1)
    kind = self.draw(4)
    if kind == 0:
      return b'a' * k
    return bytes(self.draw(256) for _ in range(k))

  def text(self, n, alphabet):
    return ''.join(self.pick(alphabet) for _ in range(self.draw(n + 1)))

  def shuffle(self, items):
    items = list(items)
    for i in range(len(items), 1, -1):
      j = i - 1 - self.draw(i)
      items[i - 1], items[j] = items[j], items[i - 1]
    return items


class Case:
  """What a case reports about itself."""

  def __init__(self, index):
    self.index = index
    self._log = io.StringIO()
    self.is_nontrivial = False
    self.labels = set()

  def log(self, *words):
    self._log.write(' '.join(str(w) for w in words) + '\n')

  def nontrivial(self):
    self.is_nontrivial = True

  def label(self, name):
    self.labels.add(name)

  @property
  def text(self):
    return self._log.getvalue()


def check(cond, *message):
  if not cond:
    frame = sys._getframe(1)
    raise Failure('%s  [line %d]' % (' '.join(str(m) for m in message), frame.f_lineno))


def equal(a, b, *message):
  if a != b:
    frame = sys._getframe(1)
    raise Failure('%s: %r but expected %r  [line %d]' %
                  (' '.join(str(m) for m in message), a, b, frame.f_lineno))


Result = collections.namedtuple('Result', 'outcome message log choices nontrivial labels')


def run_case(fn, src, index, timeout):
  case = Case(index)

  def alarm(*_):
    raise TimedOut()

  old = signal.signal(signal.SIGALRM, alarm)
  signal.alarm(timeout)
  outcome, message = 'ok', ''
  try:
    fn(src, case)
  except Discard:
    outcome = 'discard'
  except TimedOut:
    outcome, message = 'timeout', 'the case took more than %d s' % timeout
  except Failure as e:
    outcome, message = 'fail', str(e)
  except Exception as e:  # pylint: disable=broad-except
    tail = traceback.extract_tb(e.__traceback__)[-3:]
    where = ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tail))
    outcome, message = 'fail', 'unexpected %s: %s (%s)' % (type(e).__name__, e, where)
  finally:
    signal.alarm(0)
    signal.signal(signal.SIGALRM, old)
  return Result(outcome, message, case.text, list(src.choices), case.is_nontrivial, sorted(case.labels))


def rng_for(seed, part, index):
  h = hashlib.sha256(('%d/%s/%d' % (seed, part, index)).encode()).digest()
  return random.Random(int.from_bytes(h[:8], 'big'))


def worker(parts, seed, k, jobs, deadline, timeout, path):
  done, nontrivial, distinct, labels = 0, 0, set(), collections.Counter()
  samples, failure, inconclusive, discarded = [], None, [], 0
  for p, (name, fn, n) in enumerate(parts):
    if failure:
      break
    for i in range(k, n, jobs):
      if time.time() > deadline:
        inconclusive.append('time is up')
        break
      r = run_case(fn, Src(rng=rng_for(seed, name, i)), i, timeout)
      if r.outcome == 'discard':
        discarded += 1
        continue
      if r.outcome == 'timeout':
        inconclusive.append('%s case %d: %s' % (name, i, r.message))
        continue
      done += 1
      if r.outcome == 'fail':
        failure = (p, i, r)
        break
      for x in r.labels:
        labels[x] += 1
      if r.nontrivial:
        nontrivial += 1
        distinct.add(hashlib.sha1((name + repr(r.choices)).encode()).digest()[:8])
        if len(samples) < 3 and r.log:
          samples.append(name + ': ' + r.log[:700])
  with open(path, 'wb') as f:
    pickle.dump((done, nontrivial, distinct, labels, samples, failure, inconclusive, discarded), f)


def shrink(fn, choices, timeout, budget_s=60, budget=3000):
  """Simplifies the choices while the case still fails."""
  end = time.time() + budget_s
  best = run_case(fn, Src(choices=choices), 0, timeout)
  tried = 0
  seen = set()

  def attempt(c):
    nonlocal best, tried
    key = tuple(c)
    if key in seen or time.time() > end or tried >= budget:
      return False
    seen.add(key)
    tried += 1
    r = run_case(fn, Src(choices=c), 0, timeout)
    if r.outcome != 'fail':
      return False
    if (len(r.choices), r.choices) >= (len(best.choices), best.choices):
      return False
    best = r
    return True

  again = True
  while again and time.time() < end and tried < budget:
    again = False
    size = max(1, len(best.choices) // 2)
    while size >= 1:
      i = 0
      while i < len(best.choices):
        c = best.choices
        if attempt(c[:i] + c[i + size:]):
          again = True
          continue
        if attempt(c[:i] + [0] * min(size, len(c) - i) + c[i + size:]):
          again = True
        i += size
      size //= 2
    for i in range(len(best.choices)):
      if i >= len(best.choices):
        break
      for v in (0, best.choices[i] // 2, best.choices[i] - 1):
        c = best.choices
        if i < len(c) and 0 <= v < c[i] and attempt(c[:i] + [v] + c[i + 1:]):
          again = True
  return best, tried


def main(pid, rule, parts, timeout=60, setup=None):
  """Runs the check; parts are (name, function, quick cases, thorough cases)."""
  p = argparse.ArgumentParser()
  p.add_argument('--seed', type=int, default=1)
  p.add_argument('--tier', default='quick')
  p.add_argument('--out')
  p.add_argument('--replay')
  p.add_argument('--replay-dir', default='.')
  p.add_argument('--scratch', default='/tmp')
  p.add_argument('--time-cap', type=float, default=240)
  p.add_argument('--jobs', type=int, default=8)
  p.add_argument('--scale', type=float, default=1)
  p.add_argument('--part')
  a = p.parse_args()
  t0 = time.time()
  if setup:
    setup(a.scratch)
  functions = {name: fn for name, fn, _, _ in parts}

  if a.replay:
    d = json.load(open(a.replay))
    r = run_case(functions[d['part']], Src(choices=d['choices']), 0, timeout)
    print('--- history ---\n' + r.log)
    if r.outcome == 'fail':
      print('FAILURE %s: %s' % (pid, r.message))
      print('VIOLATION property=%s replay=%s' % (pid, a.replay))
      return 1
    print('the replay passes')
    return 0

  todo = [(name, fn, max(1, int((q if a.tier == 'quick' else t) * a.scale)))
          for name, fn, q, t in parts if not a.part or a.part == name]
  deadline = t0 + a.time_cap
  paths, pids = [], []
  for k in range(a.jobs):
    path = os.path.join(a.scratch, 'w%d' % k)
    paths.append(path)
    child = os.fork()
    if child == 0:
      code = 1
      try:
        worker(todo, a.seed, k, a.jobs, deadline, timeout, path)
        code = 0
      except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
      finally:
        sys.stdout.flush()
        os._exit(code)
    pids.append(child)
  for child in pids:
    os.waitpid(child, 0)
  done = nontrivial = discarded = 0
  distinct, labels, samples, failures, inconclusive = set(), collections.Counter(), [], [], []
  for path in paths:
    if not os.path.exists(path):
      inconclusive.append('a worker ended early')
      continue
    with open(path, 'rb') as f:
      d, n, di, la, sa, fa, inc, dis = pickle.load(f)
    done += d
    nontrivial += n
    distinct |= di
    labels += la
    samples += sa[:1]
    inconclusive += inc
    discarded += dis
    if fa:
      failures.append(fa)
  replay = ''
  violation = False
  for part, index, r in sorted(failures, key=lambda x: (x[0], x[1])):
    name, fn, _ = todo[part]
    if not all(run_case(fn, Src(choices=r.choices), index, timeout).outcome == 'fail' for _ in range(3)):
      inconclusive.append('%s case %d: not reproduced: %s' % (name, index, r.message))
      continue
    best, tried = shrink(fn, r.choices, timeout)
    if best.outcome != 'fail':
      best = r
    os.makedirs(a.replay_dir, exist_ok=True)
    replay = os.path.join(a.replay_dir, '%s-seed%d-case%d.replay' % (pid, a.seed, index))
    with open(replay, 'w') as f:
      json.dump({'property': pid, 'part': name, 'choices': best.choices, 'message': best.message, 'history': best.log}, f, indent=1)
    print('FAILURE %s: %s' % (pid, best.message))
    print('--- shrunk history (%d choices, %d candidates) ---\n%s' % (len(best.choices), tried, best.log))
    violation = True
    break
  planned = sum(n for _, _, n in todo)
  print('%s: %d cases (%d planned), %d distinct non-trivial, %.1f s' % (pid, done, planned, len(distinct), time.time() - t0))
  for m in inconclusive[:5]:
    print('  inconclusive:', m)
  if os.environ.get('PBT_VERBOSE'):
    for k, v in sorted(labels.items()):
      print('%10d %s' % (v, k))
    for s in samples[:3]:
      print('  sample:', s)
  if a.out:
    with open(a.out, 'w') as f:
      json.dump({
          'evaluations': done, 'distinct_nontrivial': len(distinct), 'rule': rule, 'samples': samples[:5],
          'violation': violation, 'replay': replay, 'planned': planned, 'discarded': discarded,
          'nontrivial': nontrivial, 'labels': labels, 'inconclusive': inconclusive[:20]}, f)
  return 1 if violation else 0

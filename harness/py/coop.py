"""Runs threads one at a time, switching between source lines as generated."""
import contextlib
import sys
import threading

import pbt

_RealThread = threading.Thread
_real_lock = threading.Lock
_real_rlock = threading.RLock
_real_condition = threading.Condition

current = None  # the active scheduler


class Lock:
  """A lock that gives way to the scheduler instead of blocking."""

  reentrant = False

  def __init__(self):
    self._owner = None
    self._count = 0

  def _me(self):
    return threading.get_ident()

  def acquire(self, blocking=True, timeout=-1):
    me = self._me()
    if self.reentrant and self._owner == me:
      self._count += 1
      return True
    while self._owner is not None:
      if not blocking:
        return False
      if current is None:
        raise pbt.Failure('deadlock: a lock is taken again')
      current.block(lambda: self._owner is None)
    self._owner, self._count = me, 1
    return True

  def release(self):
    if self._owner is None:
      raise RuntimeError('release unlocked lock')
    self._count -= 1
    if self._count == 0:
      self._owner = None

  def locked(self):
    return self._owner is not None

  def __enter__(self):
    self.acquire()
    return True

  def __exit__(self, *a):
    self.release()

  # For conditions.
  def _is_owned(self):
    return self._owner == self._me()

  def _release_save(self):
    n, self._owner, self._count = self._count, None, 0
    return n

  def _acquire_restore(self, n):
    self.acquire()
    self._count = n


class RLock(Lock):
  reentrant = True


class Condition:
  """A condition variable for such locks."""

  def __init__(self, lock=None):
    self._lock = lock or RLock()
    self.acquire, self.release = self._lock.acquire, self._lock.release
    self._waiters = []

  def __enter__(self):
    return self._lock.__enter__()

  def __exit__(self, *a):
    self._lock.__exit__(*a)

  def wait(self, timeout=None):
    mark = [False]
    self._waiters.append(mark)
    n = self._lock._release_save()
    if current is None:
      if timeout is None:
        raise pbt.Failure('deadlock: waits for nobody')
    else:
      current.block(lambda: mark[0], timeout is not None)
    self._lock._acquire_restore(n)
    if mark in self._waiters:
      self._waiters.remove(mark)
    return mark[0]

  def wait_for(self, predicate, timeout=None):
    while not predicate():
      if not self.wait(timeout):
        return predicate()
    return True

  def notify(self, n=1):
    for m in self._waiters[:n]:
      m[0] = True
    del self._waiters[:n]

  def notify_all(self):
    self.notify(len(self._waiters))


@contextlib.contextmanager
def patched():
  """The modules imported inside use the locks above."""
  threading.Lock, threading.RLock, threading.Condition = Lock, RLock, Condition
  try:
    yield
  finally:
    threading.Lock, threading.RLock, threading.Condition = _real_lock, _real_rlock, _real_condition


class Stop(BaseException):
  pass


class Sched:

  def __init__(self, src, files, rate=6):
    self.src, self.files, self.rate = src, files, rate
    self.state = {}  # index -> None (ready) | predicate | 'done'
    self.gates = []
    self.turn = None
    self.failure = None
    self.stop = False
    self.switches = 0
    self.clock = 0

  def now(self):
    self.clock += 1
    return self.clock

  def _hand_over(self, me, to):
    self.turn = to
    self.gates[to].release()
    if me is not None and self.state[me] != 'done':
      self.gates[me].acquire()
      if self.stop:
        raise Stop()

  def _pick(self, me):
    ready = [i for i in self.state if self.state[i] is None or (self.state[i] != 'done' and self.state[i][0]())]
    if not ready:
      ready = [i for i in self.state if self.state[i] not in (None, 'done') and self.state[i][1]]  # may time out
    if not ready:
      return None
    i = ready[self.src.draw(len(ready))] if len(ready) > 1 else ready[0]
    self.state[i] = None
    return i

  def block(self, predicate, may_time_out=False):
    me = self.turn
    if predicate():
      return
    self.state[me] = (predicate, may_time_out)
    to = self._pick(me)
    if to is None:
      self.fail(pbt.Failure('deadlock: every thread waits'))
      raise Stop()
    if to != me:
      self._hand_over(me, to)
    self.state[me] = None

  def _release_all(self):
    # One after the other; each ends and releases the next.
    for j, s in self.state.items():
      if s != 'done':
        if self.gates[j].locked():
          self.gates[j].release()
        return

  def fail(self, e):
    if self.failure is None:
      self.failure = e
    self.stop = True

  def yield_(self):
    me = self.turn
    if len([1 for v in self.state.values() if v != 'done']) < 2:
      return
    if self.src.draw(self.rate) != self.rate - 1:
      return
    to = self._pick(me)
    if to is not None and to != me:
      self.switches += 1
      self._hand_over(me, to)

  def _tracer(self, frame, event, arg):
    if not any(f in frame.f_code.co_filename for f in self.files):
      return None
    return self._line

  def _line(self, frame, event, arg):
    if event == 'line':
      self.yield_()
    return self._line

  def _body(self, i, fn):
    self.gates[i].acquire()
    try:
      if not self.stop:
        sys.settrace(self._tracer)
        try:
          fn()
        finally:
          sys.settrace(None)
    except Stop:
      pass
    except BaseException as e:  # pylint: disable=broad-except
      self.fail(e)
    self.state[i] = 'done'
    if self.stop:
      self._release_all()
      if all(s == 'done' for s in self.state.values()):
        self.over.release()
      return
    try:
      to = self._pick(None)
    except BaseException as e:  # pylint: disable=broad-except
      self.fail(e)
      to = None
    if to is not None:
      self._hand_over(None, to)
    elif all(s == 'done' for s in self.state.values()):
      self.over.release()
    else:
      self.fail(self.failure or pbt.Failure('deadlock: every thread waits'))
      self._release_all()

  def run(self, fns):
    global current
    self.over = _real_lock()
    self.over.acquire()
    for i, fn in enumerate(fns):
      g = _real_lock()
      g.acquire()
      self.gates.append(g)
      self.state[i] = None
    threads = [_RealThread(target=self._body, args=(i, fn), daemon=True) for i, fn in enumerate(fns)]
    current = self
    try:
      for t in threads:
        t.start()
      first = self._pick(None)
      self.turn = first
      self.gates[first].release()
      self.over.acquire()
    finally:
      current = None
    for t in threads:
      t.join(5)
    if self.failure is not None:
      raise self.failure


def linearizable(history, state, apply, same):
  """Whether some order of the overlapping operations explains the answers.

  history: [(start, end, op, answer)]; apply(state, op) -> (answer, state).
  """
  seen = set()

  def go(left, state):
    if not left:
      return True
    key = (left, repr(state))
    if key in seen:
      return False
    seen.add(key)
    limit = min(history[i][1] for i in left)
    for i in left:
      start, _, op, answer = history[i]
      if start > limit:
        continue
      want, after = apply(state, op)
      if same(op, answer, want) and go(tuple(j for j in left if j != i), after):
        return True
    return False

  return go(tuple(range(len(history))), state)

"""P02: the demo server's uploads and downloads."""
import re
import sys

import coop
import demo_env
import pbt
from pbt import check, equal

PREFIX = 'https://host.example:81/x/'


def setup(scratch):
  demo_env.setup(scratch)
  global media, http_actions, common_pb2
  with coop.patched():
    from fcp.demo import media
    from fcp.demo import http_actions
  from fcp.protos.federatedcompute import common_pb2


class Boom(Exception):
  pass


class World:
  """The service, driven by operations."""

  def __init__(self):
    with coop.patched():
      self.service = media.Service(lambda: common_pb2.ForwardingInfo(target_uri_prefix=PREFIX))
    self.handler = http_actions.create_handler(self.service)
    self.groups = []  # (context, group)
    self.slots = []

  def run(self, op):
    kind = op[0]
    if kind == 'open':
      context = self.service.create_download_group()
      self.groups[op[1]] = (context, context.__enter__())
      return ('prefix', self.groups[op[1]][1].prefix)
    if kind == 'close':
      context = self.groups[op[1]][0]
      if op[2]:
        try:
          check(not context.__exit__(Boom, Boom(), None), 'the exception was swallowed')
        except Boom:
          pass
      else:
        context.__exit__(None, None, None)
      return ('done',)
    if kind == 'add':
      _, g, name, data, mime = op
      try:
        group = self.groups[g][1]
        if mime is None:
          url = group.add(name, data)
        else:
          url = group.add(name, data, mime)
      except KeyError:
        return ('refused',)
      equal(url, group.prefix + name, 'url')
      return ('added',)
    if kind == 'get':
      _, g, name, escape = op
      if g >= 0:
        prefix = self.groups[g][1].prefix
        check(prefix.startswith(PREFIX), 'prefix', prefix)
        path = prefix[len(PREFIX) - 1:]
      else:
        path = '/data/nowhere/'
      name = ''.join('%%%02x' % ord(x) if escape else x for x in name)
      a = demo_env.request(self.handler, 'GET', path + name)
      check(a.ok_form, 'no answer')
      if a.code == 200:
        equal(a.header('Content-Length'), [str(len(a.body))], 'length')
        return ('content', a.body, a.header('Content-Type')[0])
      check(400 <= a.code < 500, 'code', a.code)
      return ('refused',)
    if kind == 'register':
      name = self.service.register_upload()
      check(re.fullmatch(r'[-\w.]+', name), 'name', name)
      self.slots[op[1]] = name
      return ('name', name)
    name = self.slots[op[1]] if op[1] >= 0 else 'unknown'
    if kind == 'upload':
      a = demo_env.request(self.handler, 'POST', '/upload/v1/media/%s?upload_protocol=raw' % name, op[2])
      check(a.ok_form, 'no answer')
      if a.code == 200:
        return ('accepted',)
      check(400 <= a.code < 500, 'code', a.code)
      return ('refused',)
    assert kind == 'finalize'
    try:
      got = self.service.finalize_upload(name)
    except KeyError:
      return ('refused',)
    check(got is None or isinstance(got, bytes), 'type', type(got))
    return ('bytes', got)


def model(state, op):
  groups, slots = state
  kind = op[0]
  if kind == 'open':
    return ('prefix', None), (groups + ((op[1], ()),), slots)
  if kind == 'register':
    return ('name', None), (groups, slots + ((op[1], None),))
  g = dict(groups)
  u = dict(slots)
  if kind == 'close':
    g.pop(op[1])
    answer = ('done',)
  elif kind == 'add':
    _, i, name, data, mime = op
    if i not in g or name in dict(g[i]):
      answer = ('refused',)
    else:
      g[i] = g[i] + ((name, (data, mime or 'application/octet-stream')),)
      answer = ('added',)
  elif kind == 'get':
    _, i, name, _ = op
    files = dict(g.get(i, ()))
    answer = ('content',) + files[name] if name in files else ('refused',)
  elif kind == 'upload':
    if u.get(op[1], b'') is not None:
      answer = ('refused',)
    else:
      u[op[1]] = op[2]
      answer = ('accepted',)
  else:
    answer = ('bytes', u.pop(op[1])) if op[1] in u else ('refused',)
  return answer, (tuple(sorted(g.items())), tuple(sorted(u.items())))


def same(op, answer, want):
  if op[0] in ('open', 'register'):
    return True
  return answer == want


def sequence(s, w, known, n, shared):
  """Operations of one thread; `known` lists what it may refer to."""
  groups, slots = known
  out = []
  for _ in range(n):
    kind = s.weighted([4, 3, 3, 2, 2, 1, 1])
    g = s.pick(groups) if groups else -1
    u = s.pick(slots) if slots and not s.chance(1, 12) else -1
    if kind == 0 and slots:
      out.append(('upload', u, s.bytes(4) if s.chance(9, 10) else b'x' * 70000))
    elif kind == 1 and slots:
      out.append(('finalize', u))
    elif kind == 2 and groups:
      out.append(('get', -1 if s.chance(1, 20) else g, s.pick(['a', 'b', 'a.b', 'c~1']), s.chance(1, 4)))
    elif kind == 3 and groups:
      out.append(('add', g, s.pick(['a', 'b', 'a.b', 'c~1']), s.bytes(4), s.pick([None, 'text/x', 'application/y+z'])))
    elif kind == 4 or (kind < 2 and not slots):
      w.slots.append(None)
      out.append(('register', len(w.slots) - 1))
      slots.append(len(w.slots) - 1)
    elif kind == 5 or (kind < 4 and not groups):
      w.groups.append(None)
      out.append(('open', len(w.groups) - 1))
      groups.append(len(w.groups) - 1)
    elif kind == 6 and groups and not shared:
      out.append(('close', g, s.flip()))
      w.closed.append(g)
      # Still asked for afterwards.
      if out[-1][1] in w.closed[:-1]:
        out.pop()
  return out


def histories(s, c):
  w = World()
  w.closed = []
  history = []
  clock = [0]
  threads = s.weighted([1, 3, 1])

  def play(ops, now):
    for op in ops:
      start = now()
      answer = w.run(op)
      history.append((start, now(), op, answer))

  def tick():
    clock[0] += 1
    return clock[0]

  first = ([], [])
  play(sequence(s, w, first, s.range(1, 8), False), tick)
  if threads:
    c.label('threads')
    plans = []
    open_ = [g for g in first[0]]
    for i in range(threads + 1):
      ops = sequence(s, w, (list(open_), list(first[1])), s.range(1, 3), True)
      if s.chance(1, 3):
        # At most one thread closes a group.
        free = [g for g in open_ if g not in w.closed]
        if free:
          g = s.pick(free)
          w.closed.append(g)
          ops.insert(s.draw(len(ops) + 1), ('close', g, s.flip()))
      plans.append(ops)
    sched = coop.Sched(s, ['fcp/demo/media.py'])
    sched.clock = clock[0]
    sched.run([lambda p=p: play(p, sched.now) for p in plans])
    clock[0] = sched.clock
    if sched.switches:
      c.label('switched')
  play(sequence(s, w, (list(range(len(w.groups))), list(range(len(w.slots)))), s.range(0, 5), False), tick)
  # Everything is asked for in the end.
  play([('get', g, n, False) for g in range(len(w.groups)) for n in ('a', 'b')] + [('finalize', u) for u in range(len(w.slots))], tick)
  for h in history:
    c.log('%d-%d %r -> %r' % (h[0], h[1], [x if not isinstance(x, bytes) else x[:8] for x in h[2]], [x if not isinstance(x, bytes) else x[:8] for x in h[3]]))
  names = [h[3][1] for h in history if h[2][0] == 'register']
  equal(len(set(names)), len(names), 'distinct upload names')
  prefixes = [h[3][1] for h in history if h[2][0] == 'open']
  equal(len(set(prefixes)), len(prefixes), 'distinct groups')
  check(coop.linearizable(history, ((), ()), model, same), 'no order of the operations explains the answers')
  if any(h[3][0] == 'accepted' for h in history):
    c.label('uploaded')
    c.nontrivial()
  if any(h[3][0] == 'content' for h in history):
    c.label('downloaded')
    c.nontrivial()
  if any(h[2][0] == 'upload' and h[3][0] == 'refused' for h in history):
    c.label('upload refused')


if __name__ == '__main__':
  sys.exit(pbt.main('P02', 'an upload was accepted or a download answered with content', [('histories', histories, 30000, 600000)], setup=setup))

"""P01: the demo server's routing and transcoding."""
import gzip
import http
import sys
import urllib.parse
import zlib

import demo_env
import pbt
from pbt import check, equal

METHODS = []  # (service, method, http method, pattern, body)
ALPHABET = list('aZ0 /?%+&=#.~:{}"\\<>;,@!$\'()*_-') + ['\u00e9', '\u6f22', '\U0001f600', '\n', '\x7f', '%2F']
SAFE = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;=:@"


def setup(scratch):
  demo_env.setup(scratch, ['verif_demo.proto'])
  global http_actions
  from fcp.demo import http_actions
  import verif_demo_pb2
  from fcp.protos.federatedcompute import aggregations_pb2, eligibility_eval_tasks_pb2, secure_aggregations_pb2, task_assignments_pb2
  from google.api import annotations_pb2
  for m in (verif_demo_pb2, aggregations_pb2, eligibility_eval_tasks_pb2, secure_aggregations_pb2, task_assignments_pb2):
    for service in m.DESCRIPTOR.services_by_name.values():
      for method in service.methods:
        rule = method.GetOptions().Extensions[annotations_pb2.http]
        kind = rule.WhichOneof('pattern')
        if kind in ('get', 'post'):
          METHODS.append((method, kind.upper(), getattr(rule, kind), rule.body))


class Route:
  """What one handler is registered for."""

  def __init__(self, method, pattern, query):
    self.method, self.pattern, self.query = method, pattern, query
    self.segments = [self._segment(x) for x in pattern.split('/')]

  def _segment(self, x):
    if '{' not in x:
      return (x, None, '')
    pre, rest = x.split('{', 1)
    name, suf = rest.split('}', 1)
    return (pre, name, suf)

  @property
  def names(self):
    return [n for _, n, _ in self.segments if n]

  def path(self, values):
    p = '/'.join(pre + (values[n] if n else '') + suf for pre, n, suf in self.segments)
    return p + ('?' + self.query if self.query is not None else '')

  def match(self, path):
    """The raw values, or None."""
    p, mark, q = path.partition('?')
    if (q if mark else None) != self.query:
      return None
    parts = p.split('/')
    if len(parts) != len(self.segments):
      return None
    out = {}
    for x, (pre, name, suf) in zip(parts, self.segments):
      if name is None:
        if x != pre:
          return None
      else:
        if len(x) < len(pre) + len(suf) or not x.startswith(pre) or not x.endswith(suf):
          return None
        out[name] = x[len(pre):len(x) - len(suf)]
    return out


def fill(s, m, depth=0):
  """Sets fields of any message."""
  for f in m.DESCRIPTOR.fields:
    if not s.chance(1, 2 + depth):
      continue
    if f.label == f.LABEL_REPEATED:
      if f.message_type is None and f.type == f.TYPE_STRING:
        getattr(m, f.name).extend(s.text(3, ALPHABET) for _ in range(s.draw(3)))
      continue
    if f.message_type is not None:
      if depth < 2:
        sub = getattr(m, f.name)
        sub.SetInParent()
        fill(s, sub, depth + 1)
    elif f.type == f.TYPE_STRING:
      setattr(m, f.name, s.text(5, ALPHABET))
    elif f.type == f.TYPE_BYTES:
      setattr(m, f.name, s.bytes(s.pick([5, 40])))
    elif f.type in (f.TYPE_INT64, f.TYPE_INT32):
      setattr(m, f.name, s.pick([0, 1, -1, 2**31 - 1, -2**31, 77]))
    elif f.type in (f.TYPE_UINT64, f.TYPE_UINT32):
      setattr(m, f.name, s.pick([0, 1, 2**32 - 1]))
    elif f.type == f.TYPE_BOOL:
      setattr(m, f.name, True)


def prototype(desc):
  from google.protobuf import message_factory
  return message_factory.GetMessageClass(desc)


def make_pattern(s):
  words = ['data', 'd.ta', 'x+', '(y)', 'up*', '$z', 'v1', 'a|b']
  segs, k = [], 0
  for i in range(s.range(1, 4)):
    if i and s.chance(2, 3):
      segs.append(s.pick(['', '', 'p.', 'of-']) + '{n%d}' % k + s.pick(['', '', ':go', '.txt']))
      k += 1
    else:
      segs.append(s.pick(words))
  return '/' + '/'.join(segs), s.pick([None, None, 'k=v', 'a.b=c+d'])


def encode(s, value):
  out = ''
  for ch in value:
    if ch in SAFE and not s.chance(1, 4):
      out += ch
    else:
      out += ''.join(('%%%02X' if s.flip() else '%%%02x') % b for b in ch.encode())
  return out


def damage(s, data):
  """Corrupts a compressed body."""
  kind = s.draw(4)
  if kind == 0:
    return data[:len(data) - 1 - s.draw(min(len(data) - 1, 12))]
  if kind == 1:
    # Past the header, whose flags may not matter.
    i = 10 + s.draw(len(data) - 10)
    bad = data[:i] + bytes([data[i] ^ (1 << s.draw(8))]) + data[i + 1:]
    try:
      d = zlib.decompressobj(31)
      d.decompress(bad)
      if d.eof:
        raise pbt.Discard()  # unused bits
    except zlib.error:
      pass
    return bad
  if kind == 2:
    return data + b'garbage'
  return s.pick([b'plain text', b'\x1f\x8b', b'\x1f\x8c' + data[2:], b'\x00'])


def routing(s, c):
  calls = []
  routes = []
  attrs = {}
  plan = {}

  def act(key, args):
    calls.append((key, args))
    kind, value = plan['answer'](key)
    if kind == 'error':
      raise http_actions.HttpError(value)
    return value

  n = s.range(1, 4)
  for i in range(n):
    if s.chance(2, 3) and METHODS:
      desc, method, pattern, body = s.pick(METHODS)
      if any(r.pattern == pattern and r.method == method for r in routes):
        continue
      r = Route(method, pattern, '%24alt=proto')
      r.desc, r.body = desc, body
      key = len(routes)

      def fn(self, request, key=key):
        return act(key, request)

      attrs['m%d' % i] = http_actions.proto_action(service=desc.containing_service.full_name, method=desc.name)(fn)
    else:
      pattern, query = make_pattern(s)
      method = s.pick(['GET', 'POST', 'post'])
      r = Route(method.upper(), pattern, query)
      r.desc, r.body = None, '*'
      key = len(routes)

      def raw(self, body, key=key, **kw):
        return act(key, (body, kw))

      attrs['m%d' % i] = http_actions.http_action(method=method, pattern=pattern + ('?' + query if query else ''))(raw)
    routes.append(r)
    c.log(r.method, r.pattern, r.query or '', r.desc.full_name if r.desc else '')
  # Spread over one or two services.
  names = sorted(attrs)
  cut = s.draw(len(names) + 1)
  services = [type('A', (), {k: attrs[k] for k in names[:cut]})(), type('B', (), {k: attrs[k] for k in names[cut:]})()]
  handler = http_actions.create_handler(*services)

  for _ in range(s.range(1, 4)):
    target = s.pick(routes)
    values = {k: encode(s, s.text(4, ALPHABET)) for k in target.names}
    if values and s.chance(1, 8):
      values[s.pick(target.names)] = s.pick(['%FF', 'a%C3', '%ED%A0%80', '%80b'])
      c.label('not UTF-8')
    path, method = target.path(values), target.method
    twist = s.draw(12)
    if twist == 11:
      path += s.pick(['/', '/x', '?', '&x=1', 'x', '#'])
    elif twist == 10:
      path = path.replace('?', s.pick(['', '?x=1&', '/', '??']), 1)
    elif twist == 9:
      method = 'POST' if method == 'GET' else 'GET'
    elif twist == 8:
      i = s.draw(len(path))
      path = path[:i] + path[i + 1:]
    elif twist == 7:
      path = path.replace('$', 'x').replace('.', 'x', 1).replace('+', '')
    if not path.startswith('/') or path.startswith('//') or any(ord(x) < 33 or ord(x) > 126 for x in path):
      raise pbt.Discard()
    fits = [(k, r.match(path)) for k, r in enumerate(routes) if r.method == method and r.match(path) is not None]
    # The body.
    headers = []
    sent = want_body = None
    broken = False
    if method == 'POST':
      r = routes[fits[0][0]] if fits else target
      if r.desc is not None and r.body == '*':
        sent = prototype(r.desc.input_type)()
        fill(s, sent)
        body = sent.SerializeToString()
        if s.chance(1, 10):
          body += s.pick([b'\x0a\xff\xff\xff\xff\x0f\x01', b'\xff', b'\x0a\x05ab', b'\x07'])
          broken = True
      else:
        body = s.bytes(30) * (3000 if s.chance(1, 20) else 1)
      want_body = body
      coding = s.draw(8)
      if coding in (1, 2):
        body = gzip.compress(body, s.range(1, 9), mtime=0)
        headers.append(('Content-Encoding', 'gzip'))
      elif coding == 3:
        k = s.draw(len(body) + 1)
        body = gzip.compress(body[:k], mtime=0) + gzip.compress(body[k:], mtime=0)
        headers.append(('Content-Encoding', 'gzip'))
      elif coding == 4:
        body = damage(s, gzip.compress(body, mtime=0))
        headers.append(('Content-Encoding', 'gzip'))
        broken = True
      elif coding == 5 and s.flip():
        headers.append(('Content-Encoding', s.pick(['deflate', 'br', 'zstd', 'gzip, gzip', 'x'])))
        broken = True
    else:
      body = None
    # The answer.
    answers = {}

    def answer(key):
      r = routes[key]
      if s.chance(1, 5):
        answers[key] = ('error', s.pick([http.HTTPStatus.NOT_FOUND, http.HTTPStatus.UNAUTHORIZED, http.HTTPStatus.INTERNAL_SERVER_ERROR, http.HTTPStatus.CONFLICT]))
      elif r.desc is not None:
        m = prototype(r.desc.output_type)()
        fill(s, m)
        answers[key] = ('ok', m)
      else:
        b = s.bytes(20)
        h = {'Content-Length': len(b)}
        if s.flip():
          h['X-Mark'] = s.text(3, 'abc') + 'x'
        answers[key] = ('ok', http_actions.HttpResponse(b, h))
      return answers[key]

    plan['answer'] = answer
    del calls[:]
    c.log(' ', method, path, headers, body if body is None else body[:40])
    got = demo_env.request(handler, method, path, body, headers)
    c.log('   ->', got.code, 'calls', len(calls))
    check(got.ok_form, 'no answer:', got.raw[:60])
    check(got.raw.count(b'HTTP/1.') == 1 or got.body.count(b'HTTP/1.'), 'several answers')
    check(len(calls) <= 1, 'several handlers were called')
    undecodable = []
    for key, raw in fits:
      try:
        for v in raw.values():
          urllib.parse.unquote_to_bytes(v).decode()
      except UnicodeError:
        undecodable.append(key)
    if not fits:
      c.label('no route')
      check(not calls, 'a handler got a request that matches no route')
      equal(got.code, 404, 'no route')
      continue
    c.nontrivial()
    if broken:
      c.label('broken body')
      if all(routes[k].desc is not None and routes[k].body == '*' for k, _ in fits) or headers:
        check(not calls, 'a handler got a broken request')
        check(400 <= got.code < 500, 'code of a broken request:', got.code)
        continue
    if len(undecodable) == len(fits):
      check(not calls, 'a handler got a path that cannot be decoded')
      check(400 <= got.code < 500, 'code of a path that cannot be decoded:', got.code)
      continue
    if not calls:
      check(undecodable and 400 <= got.code < 500, 'no handler was called, code', got.code)
      continue
    key, args = calls[0]
    check(key in [k for k, _ in fits], 'the wrong handler was called')
    r = routes[key]
    values = {k: urllib.parse.unquote_to_bytes(v).decode() for k, v in dict(fits)[key].items()}
    if r.desc is None:
      equal(args, (want_body or b'', values), 'what the handler got')
    else:
      want = prototype(r.desc.input_type)()
      if r.body == '*' and want_body is not None:
        try:
          want.ParseFromString(want_body)
        except Exception:
          check(len(fits) > 1, 'a message that does not parse')
          continue
      elif r.body and want_body is not None:
        setattr(want, r.body, want_body)
      for k, v in values.items():
        setattr(want, k, v)
      check(type(args) is type(want) and args == want, 'the message differs:', args, 'expected', want)
    kind, value = answers[key]
    if kind == 'error':
      c.label('handler error')
      equal(got.code, value.value, 'mapped error')
      continue
    c.label('GET' if method == 'GET' else 'POST')
    equal(got.code, 200, 'code')
    if r.desc is None:
      equal(got.body, value.body, 'body')
      for k, v in value.headers.items():
        equal(got.header(k), [str(v)], 'header')
    else:
      back = prototype(r.desc.output_type)()
      back.ParseFromString(got.body)
      check(back == value, 'the answer differs')
      equal(got.header('Content-Length'), [str(len(got.body))], 'length')
      equal(got.header('Content-Type'), ['application/x-protobuf'], 'type')


if __name__ == '__main__':
  sys.exit(pbt.main('P01', 'at least one request that fits a registered route', [('routing', routing, 100000, 2000000)], setup=setup))

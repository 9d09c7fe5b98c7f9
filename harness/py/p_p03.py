"""P03: the demo server's aggregation sessions."""
import asyncio
import collections
import sys

import coop
import demo_env
import pbt
from demo_env import Bag, StatusCode
from pbt import check, equal

PREFIX = 'https://host.example/'
FIELDS = ['num_clients_completed', 'num_clients_failed', 'num_clients_pending', 'num_clients_aborted', 'num_inputs_aggregated_and_included',
          'num_inputs_aggregated_and_pending', 'num_inputs_discarded']


def setup(scratch):
  demo_env.setup(scratch)
  global aggregations, media, http_actions, common_pb2, aggregations_pb2, operations_pb2, plan_pb2
  with coop.patched():
    from fcp.demo import media
    from fcp.demo import http_actions
    from fcp.demo import aggregations
  from fcp.protos import plan_pb2
  from fcp.protos.federatedcompute import aggregations_pb2
  from fcp.protos.federatedcompute import common_pb2
  from google.longrunning import operations_pb2


class Protocol:
  """Stands in for the aggregation core; its calls are atomic."""

  def __init__(self, config, batch, fault):
    self.config, self.batch, self.fault = config, batch, fault
    self.started = False
    self.over = None
    self.clients = []  # state of each: pending, done, failed, aborted
    self.outbox = []  # close message not delivered yet
    self.received = []  # (client, bytes, accepted)
    self.closed = []  # (client, message, code)
    self.inputs = []
    self.discarded = 0

  def Start(self, n):
    check(n == 0 and not self.started, 'start')
    self.started = True

  def AddClients(self, n):
    if self.over or not self.started:
      raise demo_env.bad(StatusCode.FAILED_PRECONDITION)
    equal(n, 1, 'clients added at a time')
    self.clients.append('pending')
    self.outbox.append(None)
    return len(self.clients) - 1

  def _close(self, i, state, code):
    self.clients[i] = state
    self.outbox[i] = code

  def ReceiveClientMessage(self, i, message):
    data = message.simple_aggregation.input.inline_bytes
    if self.clients[i] != 'pending':
      self.received.append((i, data, False))
      return
    if data.startswith(b'BAD'):
      self.received.append((i, data, False))
      self.discarded += 1
      self._close(i, 'failed', StatusCode.INVALID_ARGUMENT)
      return
    self.received.append((i, data, True))
    self.inputs.append(data)
    self._close(i, 'done', StatusCode.OK)

  def PollServerMessage(self, i):
    code, self.outbox[i] = self.outbox[i], None
    if code is None:
      return None
    return Bag(simple_aggregation=Bag(close_message=Bag(code=code.value)))

  def CloseClient(self, i, message, code):
    self.closed.append((i, message, code))
    if self.clients[i] == 'pending':
      self.clients[i] = 'done' if code == 0 else 'failed'

  def _end(self):
    for i, x in enumerate(self.clients):
      if x == 'pending':
        self._close(i, 'aborted', StatusCode.ABORTED)

  def Complete(self):
    if self.over:
      raise demo_env.bad(StatusCode.FAILED_PRECONDITION)
    if self.fault == 'complete':
      raise demo_env.bad(StatusCode.UNKNOWN)
    self.over = 'completed'
    self._end()
    self.batch = 1

  def Abort(self):
    if self.over:
      raise demo_env.bad(StatusCode.FAILED_PRECONDITION)
    self.over = 'aborted'
    self.discarded += len(self.inputs)
    self.included = 0
    self._end()

  def GetResult(self):
    check(self.over == 'completed', 'a result was asked for before the end')
    if self.fault == 'result':
      raise demo_env.bad(StatusCode.INTERNAL)
    return b'|'.join(sorted(self.inputs))

  def GetStatus(self):
    n = len(self.inputs) if self.over != 'aborted' else 0
    return Bag(
        num_clients_completed=self.clients.count('done'),
        num_clients_failed=self.clients.count('failed'),
        num_clients_pending=self.clients.count('pending'),
        num_clients_aborted=self.clients.count('aborted'),
        num_inputs_aggregated_and_included=n // self.batch * self.batch,
        num_inputs_aggregated_and_pending=n % self.batch,
        num_inputs_discarded=self.discarded)

  @property
  def now_included(self):
    return self.GetStatus().num_inputs_aggregated_and_included


class Session:

  def __init__(self, sid, minimum, proto):
    self.id, self.minimum, self.proto = sid, minimum, proto
    self.live = True
    self.tokens = []
    self.free = set()
    self.final = None
    self.seen = 0


class Client:

  def __init__(self, session, number, token, resource):
    self.session, self.number, self.token, self.resource = session, number, token, resource
    self.uploaded = None
    self.done = None


def make_plan(s):
  """A plan and the configuration it stands for."""
  plan = plan_pb2.Plan()
  phase = plan.phase.add().server_phase_v2
  phase.SetInParent()
  want = []
  types = [1, 2, 3, 7, 9, 23]

  def tensor(m):
    m.name = s.pick(['x', 'y', 'a/b'])
    m.dtype = s.pick(types)
    m.shape.SetInParent()
    dims = [s.pick([-1, 0, 1, 3]) for _ in range(s.draw(3))]
    for d in dims:
      m.shape.dim.add().size = d
    return Bag(name=m.name, shape=Bag(dim_sizes=dims), dtype=int(m.dtype))

  for _ in range(s.weighted([4, 2, 1])):
    a = phase.aggregations.add()
    a.intrinsic_uri = s.pick(['federated_sum', 'other'])
    args = [Bag(input_tensor=tensor(a.intrinsic_args.add().input_tensor)) for _ in range(s.draw(3))]
    outs = [tensor(a.output_tensors.add()) for _ in range(s.draw(3))]
    want.append(Bag(intrinsic_uri=a.intrinsic_uri, intrinsic_args=args, output_tensors=outs))
  return plan, Bag(intrinsic_configs=want)


class World:

  def __init__(self, s, c):
    self.s, self.c = s, c
    self.info = common_pb2.ForwardingInfo(target_uri_prefix=PREFIX)
    with coop.patched():
      self.media = media.Service(lambda: self.info)
      self.service = aggregations.Service(lambda: self.info, self.media)
    self.handler = http_actions.create_handler(self.service, self.media)
    self.sessions, self.clients, self.waits = [], [], []
    self.loop = asyncio.new_event_loop()
    self.loop.set_exception_handler(lambda *a: None)
    self.names = set()

  def post(self, path, message):
    a = demo_env.request(self.handler, 'POST', path + '?%24alt=proto', message.SerializeToString())
    check(a.ok_form, 'no answer')
    return a

  # Each operation returns what happened.
  def run(self, op):
    return getattr(self, 'do_' + op[0])(*op[1:])

  def do_create(self, minimum, batch, fault, plan, config):
    made = []
    demo_env.protocols.make = lambda conf: made.append(Protocol(conf, batch, fault)) or made[-1]
    sid = self.service.create_session(aggregations.AggregationRequirements(minimum, plan))
    equal(len(made), 1, 'protocols made')
    check(made[0].started, 'the protocol was not started')
    equal(made[0].config, config, 'configuration')
    check(sid and sid not in self.names, 'session id', sid)
    self.names.add(sid)
    self.sessions.append(Session(sid, minimum, made[0]))
    return ('ok',)

  def do_authorize(self, session, n):
    try:
      tokens = self.service.pre_authorize_clients(session.id, n)
    except KeyError:
      return ('refused',)
    return ('ok', sorted(tokens))

  def do_start(self, session, token):
    a = self.post('/v1/aggregations/%s/clients/%s:startdataupload' % (session.id, token), aggregations_pb2.StartAggregationDataUploadRequest())
    if a.code != 200:
      return ('refused', a.code)
    op = operations_pb2.Operation()
    op.ParseFromString(a.body)
    check(op.done, 'operation not done')
    r = aggregations_pb2.StartAggregationDataUploadResponse()
    check(op.response.Unpack(r), 'response', op.response.type_url)
    equal(r.aggregation_protocol_forwarding_info.target_uri_prefix, PREFIX, 'forwarding')
    equal(r.resource.data_upload_forwarding_info.target_uri_prefix, PREFIX, 'forwarding')
    return ('ok', r.client_token, r.resource.resource_name)

  def do_upload(self, client, body):
    a = demo_env.request(self.handler, 'POST', '/upload/v1/media/%s?upload_protocol=raw' % client.resource, body)
    return ('ok',) if a.code == 200 else ('refused', a.code)

  def do_submit(self, session, client, resource):
    a = self.post('/v1/aggregations/%s/clients/%s:submit' % (session.id, client.token),
                  aggregations_pb2.SubmitAggregationResultRequest(resource_name=resource))
    return ('ok',) if a.code == 200 else ('refused', a.code)

  def do_leave(self, session, client, code, text):
    m = aggregations_pb2.AbortAggregationRequest()
    m.status.code, m.status.message = code, text
    a = self.post('/v1/aggregations/%s/clients/%s:abort' % (session.id, client.token), m)
    return ('ok',) if a.code == 200 else ('refused', a.code)

  def do_complete(self, session):
    try:
      status, result = self.service.complete_session(session.id)
    except KeyError:
      return ('refused',)
    return ('ok', status, result)

  def do_abort(self, session):
    try:
      return ('ok', self.service.abort_session(session.id), None)
    except KeyError:
      return ('refused',)

  def do_status(self, session):
    try:
      return ('ok', self.service.get_session_status(session.id))
    except KeyError:
      return ('refused',)

  def do_wait(self, session, n):
    task = self.loop.create_task(self.service.wait(session.id, n))
    self.waits.append((session, n, task))
    self.spin()
    return ('ok',)

  def do_cancel(self, i):
    if i < len(self.waits) and not self.waits[i][2].done():
      self.waits[i][2].cancel()
      self.spin()
    return ('ok',)

  def do_spin(self):
    self.spin()
    return ('ok',)

  def spin(self):
    for _ in range(2):
      self.loop.call_soon(self.loop.stop)
      self.loop.run_forever()

  # What the answers mean.
  def absorb(self, answers, alone):
    ended = {}
    for op, a in answers:
      self.c.log('  ' if alone else '   |', op[0], *[self.show(x) for x in op[1:]], '->', *[self.show(x) for x in a])
      if op[0] in ('complete', 'abort'):
        session = op[1]
        if a[0] == 'ok':
          check(session.live and session not in ended, 'a session ended twice')
          ended[session] = (op, a)
        elif alone:
          check(not session.live, 'the session could not be ended')
    for session in {op[1] for op, _ in answers if op[0] in ('complete', 'abort')}:
      check(not session.live or session in ended, 'nobody ended the session')

    def reached(session):
      return session.live and session not in ended

    fresh = []
    for op, a in answers:
      if op[0] == 'create' or op[0] in ('wait', 'cancel', 'spin'):
        continue
      if op[0] == 'authorize':
        _, session, n = op
        if a[0] == 'ok':
          check(session.live, 'a session that is over gave authorizations')
          equal(len(a[1]), max(n, 0), 'number of authorizations')
          for t in a[1]:
            check(t not in self.names, 'an authorization was given twice')
            self.names.add(t)
          session.tokens += a[1]
          session.free |= set(a[1])
        else:
          check(not reached(session), 'no authorization')
      elif op[0] == 'status' and a[0] == 'refused':
        check(not reached(op[1]), 'no status')
      elif op[0] == 'status':
        check(op[1].live, 'status of a session that is over')
        if alone:
          self.compare(a[1], op[1].proto.GetStatus())
          equal(a[1].status, aggregations.AggregationStatus.PENDING, 'status')
    # Admission.
    starts = collections.defaultdict(list)
    for op, a in answers:
      if op[0] == 'start':
        starts[op[1], op[2]].append(a)
    for (session, token), got in starts.items():
      won = [a for a in got if a[0] == 'ok']
      for a in got:
        check(a[0] == 'ok' or 400 <= a[1] < 500, 'code of a start', a)
      if token not in session.free or not session.live:
        check(not won, 'a client was admitted without an authorization')
        continue
      check(len(won) <= 1, 'an authorization admitted two clients')
      check(won or not reached(session), 'an authorized client was refused')
      if won:
        session.free.discard(token)
        _, ctoken, resource = won[0]
        for x in (ctoken, resource):
          check(x and x not in self.names, 'a name was given twice', x)
          self.names.add(x)
        fresh.append(Client(session, None, ctoken, resource))
    self.clients += fresh
    for session in self.sessions:
      numbers = list(range(session.seen, len(session.proto.clients)))
      session.seen = len(session.proto.clients)
      new = [x for x in fresh if x.session is session]
      if session in ended or not session.live:
        # A client may have been added while the session ended.
        check(len(numbers) >= len(new), 'a client is unknown to the protocol')
      else:
        equal(len(numbers), len(new), 'clients added to the protocol')
      if len(new) == 1 and len(numbers) == 1:
        new[0].number = numbers[0]
    # Uploads.
    for client in self.clients:
      mine = [(op, a) for op, a in answers if op[0] != 'start' and len(op) > 1 and (client in op[1:])]
      ups = [(op, a) for op, a in mine if op[0] == 'upload']
      won = [op for op, a in ups if a[0] == 'ok']
      check(len(won) <= 1, 'two uploads were accepted')
      was_over = client.done is not None
      if won:
        check(client.uploaded is None and not was_over, 'an upload was accepted that should not')
        client.uploaded = won[0][2]
      # Leaving.
      tries = [(op, a) for op, a in mine if op[0] in ('submit', 'leave')]
      finishing = []
      for op, a in tries:
        if op[1] is not client.session:
          check(a[0] == 'refused' and 400 <= a[1] < 500, 'another session took it', a)
        elif a[0] == 'ok' or a[1] not in (401, 404):
          finishing.append((op, a))
        else:
          check(was_over or len(tries) > 1 or client.session in ended, 'an admitted client was refused with', a[1])
      own = [x for x in tries if x[0][1] is client.session]
      if was_over:
        check(not finishing, 'a client finished twice:', finishing and finishing[0][1])
      else:
        check(len(finishing) <= 1, 'a client finished twice')
        check(finishing or not own or client.session in ended, 'nobody could finish')
      if ups and not won and not was_over and client.uploaded is None:
        check(own or client.session in ended, 'an upload was refused')
      if finishing:
        op, a = finishing[0]
        if op[0] == 'leave':
          equal(a, ('ok',), 'leaving')
          client.done = 'left'
          client.code = op[3]
          if client.number is not None:
            check((client.number, op[4], op[3]) in client.session.proto.closed, 'the reason was not passed on')
        elif a[0] == 'ok':
          equal(op[3], client.resource, 'a result was taken from the wrong place')
          check(client.uploaded is not None, 'nothing was uploaded')
          check(not client.uploaded.startswith(b'BAD'), 'a refused input counts as accepted')
          client.done = 'accepted'
          if client.number is not None:
            check((client.number, client.uploaded, True) in client.session.proto.received, 'the input was not aggregated')
        else:
          check(400 <= a[1] < 600, 'code', a)
          fine = op[3] == client.resource and client.uploaded is not None and not client.uploaded.startswith(b'BAD')
          if alone or (fine and not [x for x in ups if x[1][0] == 'ok']):
            check(not fine or client.session in ended, 'a good result was refused with', a[1])
          client.done = 'failed'
    # The end of sessions.
    for session, (op, a) in ended.items():
      session.live = False
      self.finish(session, op, a, alone)
      for client in self.clients:
        if client.session is session and client.done is None:
          client.done = 'ended'
    for session in self.sessions:
      self.invariants(session)
    self.check_waits(alone)

  def finish(self, session, op, a, alone):
    p = session.proto
    status, result = a[1], a[2]
    accepted = sorted(x.uploaded for x in self.clients if x.session is session and x.done == 'accepted')
    kinds = aggregations.AggregationStatus
    if op[0] == 'abort':
      equal(status.status, kinds.ABORTED, 'status')
      equal(p.over, 'aborted', 'the protocol')
    elif result is not None:
      equal(status.status, kinds.COMPLETED, 'status')
      equal(result, b'|'.join(accepted), 'the result')
      check(len(accepted) // session.proto0 * session.proto0 >= session.minimum, 'released with too few clients')
      self.c.label('released')
    else:
      equal(status.status, kinds.FAILED, 'status')
      check(p.fault or session.before < session.minimum, 'no result although enough clients contributed')
      self.c.label('not released')
    if alone:
      self.compare(status, p.GetStatus())
    session.final = status

  def compare(self, status, want):
    for f in FIELDS:
      equal(getattr(status, f), getattr(want, f), f)

  def invariants(self, session):
    p = session.proto
    mine = [x for x in self.clients if x.session is session]
    got = collections.Counter(i for i, _, _ in p.received)
    check(all(n == 1 for n in got.values()), 'a client contributed twice')
    sent = collections.Counter(x.uploaded for x in mine if x.done == 'accepted')
    taken = collections.Counter(d for _, d, ok in p.received if ok)
    equal(taken, sent, 'what was aggregated')
    if session.live:
      equal(p.clients.count('pending'), len([x for x in mine if x.done is None]), 'pending clients')
      equal(p.clients.count('done'), len([x for x in mine if x.done == 'accepted' or (x.done == 'left' and x.code == 0)]), 'completed clients')
      equal(p.clients.count('failed'), len([x for x in mine if x.done == 'failed' or (x.done == 'left' and x.code != 0)]), 'failed clients')
      equal(p.over, None, 'the protocol ended')
    elif p.fault != 'complete':
      check(p.over, 'the protocol goes on')
    session.before = p.now_included
    session.proto0 = p.batch

  def check_waits(self, alone):
    self.spin()
    for i, (session, n, task) in enumerate(self.waits):
      if task.cancelled():
        continue
      if not task.done():
        check(session.live, 'a wait goes on after the end')
        check(n is not None and session.proto.now_included < n, 'a wait goes on although its condition holds')
        continue
      if task.exception() is not None:
        check(isinstance(task.exception(), KeyError), 'a wait failed:', repr(task.exception()))
        check(not session.live, 'a wait was refused')
        continue
      status = task.result()
      if n is not None and status.num_inputs_aggregated_and_included < n:
        check(not session.live, 'a wait ended too early')
        if alone or session.final:
          equal(status.status, session.final.status, 'status after a wait')
      self.c.label('waited')

  def show(self, x):
    if isinstance(x, Session):
      return 'session%d' % self.sessions.index(x)
    if isinstance(x, Client):
      return 'client%d' % self.clients.index(x) if x in self.clients else 'client'
    if isinstance(x, str):
      for i, y in enumerate(self.sessions):
        if x in y.tokens:
          return 'token%d.%d' % (i, y.tokens.index(x))
      for i, y in enumerate(self.clients):
        if x == y.resource:
          return 'resource%d' % i
      return x if len(x) < 12 else '<name>'
    if isinstance(x, plan_pb2.Plan) or isinstance(x, Bag):
      return ''
    return x


def make_op(s, w, main, burst):
  live = [x for x in w.sessions if x.live]
  session = s.pick(live) if live and not s.chance(1, 12) else s.pick(w.sessions)
  busy = [x for x in w.clients if x.done is None]
  client = s.pick(busy) if busy and not s.chance(1, 6) else (s.pick(w.clients) if w.clients else None)
  body = s.pick([b'a', b'bb', b'', b'c|d', b'data', b'\x00\xff', b'ee', b'f', b'BAD'])
  kind = s.weighted([5, 5, 8, 1, 1, 1, 2, 1, 1])
  if kind == 0 or (client is None and kind in (1, 2, 3)):
    pool = sorted(session.free)
    if s.chance(1, 6):
      pool = [t for x in w.sessions for t in x.tokens] + ['bogus']
    if not pool:
      return ('authorize', session, s.range(0, 3))
    # The names are random; their order of creation is not.
    pool.sort(key=lambda t: [(i, x.tokens.index(t)) for i, x in enumerate(w.sessions) if t in x.tokens])
    return ('start', session, s.pick(pool))
  if kind == 1:
    return ('upload', client, body)
  if kind == 2:
    ready = [x for x in busy if x.uploaded is not None]
    if ready and s.chance(3, 4):
      client = s.pick(ready)
    name = client.resource
    if s.chance(1, 8):
      name = s.pick([x.resource for x in w.clients] + ['bogus', ''])
    return ('submit', client.session if not s.chance(1, 10) else session, client, name)
  if kind == 3:
    code = s.pick([0, 1, 13, 3])
    return ('leave', client.session if not s.chance(1, 10) else session, client, code, '' if code == 0 else s.pick(['', 'why']))
  if kind == 4:
    return ('authorize', session, s.pick([1, 2, 0, -2]))
  if kind == 5:
    return ('status', session)
  if kind == 6:
    if not main:
      return ('status', session)
    if s.chance(1, 5) and w.waits:
      return ('cancel', s.draw(len(w.waits)))
    return ('wait', session, s.pick([1, 2, 3, None, 0]))
  if len(live) < 2 and not s.chance(1, 3):
    return ('status', session)
  return (['complete', 'abort'][kind - 7], session)


def sessions(s, c):
  w = World(s, c)
  try:
    def create():
      plan, config = make_plan(s)
      w.absorb([(op, w.run(op)) for op in [('create', s.range(0, 3), s.pick([1, 1, 1, 2]), s.pick([None] * 8 + ['complete', 'result']), plan, config)]], True)

    def single(op):
      w.absorb([(op, w.run(op))], True)

    for _ in range(s.range(1, 2)):
      create()
    for x in list(w.sessions):
      single(('authorize', x, s.range(1, 4)))
    for _ in range(s.range(1, 3)):
      for _ in range(s.range(0, 8)):
        if len(w.sessions) < 3 and s.chance(1, 30):
          create()
        else:
          single(make_op(s, w, True, False))
      if s.chance(1, 2):
        for x in [x for x in w.sessions if x.live]:
          for token in [t for t in x.tokens if t in x.free]:
            single(('start', x, token))
      if s.chance(1, 2):
        # Bring some clients close to the end.
        for client in [x for x in w.clients if x.done is None and x.uploaded is None]:
          single(('upload', client, s.pick([b'a', b'bb'])))
      if not s.chance(2, 3):
        continue
      plans = [[make_op(s, w, i == 0, True) for _ in range(s.range(1, 3))] for i in range(s.range(2, 3))]
      if s.chance(1, 3):
        live = [x for x in w.sessions if x.live]
        if live:
          plans[-1].append((s.pick(['complete', 'abort']), s.pick(live)))
      got = []

      def play(ops):
        for op in ops:
          got.append((op, w.run(op)))

      sched = coop.Sched(s, ['fcp/demo/media.py', 'fcp/demo/aggregations.py'], 10)
      sched.run([lambda p=p: play(p) for p in plans])
      if sched.switches:
        c.label('switched')
      w.absorb(got, False)
    for x in w.sessions:
      if x.live:
        single((s.pick(['complete', 'abort']), x))
    # Nothing is left behind.
    for client in list(w.clients):
      a = w.run(('upload', client, b'late'))
      check(a[0] == 'refused', 'an upload was accepted after the end of', w.show(client))
      a = w.run(('submit', client.session, client, client.resource))
      check(a[0] == 'refused', 'a result was accepted after the end')
    for name in w.names:
      check(not leftover(w, name), 'an upload is still held after the end')
    if any(x.done == 'accepted' for x in w.clients):
      c.nontrivial()
    for x in w.clients:
      c.label('client ' + str(x.done))
  finally:
    for _, _, t in w.waits:
      t.cancel()
    w.spin()
    w.loop.close()


def leftover(w, name):
  try:
    w.media.finalize_upload(name)
    return True
  except KeyError:
    return False


if __name__ == '__main__':
  sys.exit(pbt.main('P03', 'at least one upload was accepted into an aggregate', [('sessions', sessions, 24000, 600000)], setup=setup))

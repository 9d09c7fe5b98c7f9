"""P05: whole computations on the demo server."""
import asyncio
import gc
import gzip
import os
import shutil
import socket
import sys
import tempfile
import urllib.parse

import coop
import demo_env
import pbt
from demo_env import Bag
from p_p03 import Protocol
from pbt import check, equal

SCRATCH = None


def setup(scratch):
  demo_env.setup(scratch)
  global SCRATCH, server, plan_utils, aggregations_pb2, operations_pb2, plan_pb2, task_assignments_pb2, eligibility_eval_tasks_pb2, spec_pb2, StringValue
  SCRATCH = scratch
  import tensorflow
  from google.protobuf.wrappers_pb2 import StringValue
  tensorflow.compat = Bag(v1=Bag(GraphDef=StringValue, Session=GraphSession))
  tensorflow.Graph = Graph
  tensorflow.import_graph_def = import_graph_def
  with coop.patched():
    from fcp.demo import server
  from fcp.demo import plan_utils
  from fcp.protos import plan_pb2
  from fcp.protos import population_eligibility_spec_pb2 as spec_pb2
  from fcp.protos.federatedcompute import aggregations_pb2
  from fcp.protos.federatedcompute import eligibility_eval_tasks_pb2
  from fcp.protos.federatedcompute import task_assignments_pb2
  from google.longrunning import operations_pb2
  socket.getfqdn = lambda name='': name
  plan_utils.Session.slices = property(the_slices)


class Graph:
  """Stands in for a graph: its program is a text."""

  current = None

  def __init__(self):
    self.program = None

  def as_default(self):
    return self

  def __enter__(self):
    Graph.current = self

  def __exit__(self, *a):
    Graph.current = None


def import_graph_def(graph_def, name=None):
  equal(name, '', 'prefix of imported names')
  Graph.current.program = graph_def.value


class GraphError(Exception):
  pass


class GraphSession:
  """Runs `prepare` and `result` programs.

  A program names its feeds; what it writes tells what it has read.
  """

  def __init__(self, graph=None):
    self.graph = graph

  def __enter__(self):
    return self

  def __exit__(self, *a):
    pass

  def run(self, fetches, feed_dict):
    kind, target, a, b, c, flags = self.graph.program.split('|')
    equal(list(fetches), [target], 'targets')
    equal(set(feed_dict), {a, b, c}, 'fed names')
    first, second, third = feed_dict[a], feed_dict[b], feed_dict[c]
    for x in (first, second, third):
      check(os.path.dirname(x).startswith(tempfile.gettempdir()), 'a path outside the scratch directory')
    if 'E' in flags:
      raise GraphError('planned')
    if kind == 'prepare':
      state = read(first)
      if 'C' not in flags:
        write(second, b'client:' + state)
      if 'I' not in flags:
        write(third, b'inter:' + state)
    else:
      inter = read(first) if 'I' not in flags else b'none'
      if 'C' not in flags:
        write(third, b'result:' + inter + b'+' + read(second))


def read(path):
  with open(path, 'rb') as f:
    return f.read()


def write(path, data):
  with open(path, 'wb') as f:
    f.write(data)


slices = {}  # id of plan -> slices
slices_asked = [False]


def the_slices(session):
  slices_asked[0] = True
  return slices.get(session.client_plan, {})


class Comp:
  """One computation and what is to be expected of it."""
  pass


def make_comp(s, i, names, modes):
  x = Comp()
  x.i = i
  x.name = s.pick(names)
  x.mode = modes[x.name]
  x.n = s.weighted([1, 4, 3, 2])
  x.batch = s.weighted([0, 5, 1])
  x.protocol_fault = s.pick(['complete', 'result']) if s.chance(1, 12) else None
  x.bad = None  # error known before any client comes
  plan = plan_pb2.Plan()
  x.plan = plan
  phase = plan.phase.add()
  phase.server_phase_v2.SetInParent()
  phase.client_phase.tensorflow_spec.dataset_token_tensor_name = 'token%d' % i  # tells the plans apart
  plan.client_graph_bytes.value = s.bytes(s.small(0, 40))
  if s.flip():
    plan.client_tflite_graph_bytes = s.bytes(s.small(0, 20))
  if s.chance(1, 3):
    plan.tensorflow_config_proto.value = s.bytes(3)
  x.state = b'state%d' % i + s.bytes(s.small(0, 20))
  x.prepare = x.result = None
  sp = phase.server_phase_v2
  if s.chance(2, 3):
    x.prepare = s.pick(['', '', '', '', 'C', 'I', 'E'])
    n = ['p%d_%d' % (i, k) for k in range(4)]
    sp.tensorflow_spec_prepare.target_node_names.append(n[3])
    sp.prepare_router.prepare_server_state_input_filepath_tensor_name = n[0]
    sp.prepare_router.prepare_output_filepath_tensor_name = n[1]
    sp.prepare_router.prepare_intermediate_state_output_filepath_tensor_name = n[2]
    plan.server_graph_prepare_bytes.Pack(StringValue(value='|'.join(['prepare', n[3]] + n[:3] + [x.prepare])))
  has_inter = x.prepare == '' or x.prepare == 'C'
  if s.chance(2, 3):
    x.result = s.pick(['', '', '', '', 'C', 'E'])
    if not has_inter:
      x.result += 'I'
    n = ['r%d_%d' % (i, k) for k in range(4)]
    sp.tensorflow_spec_result.target_node_names.append(n[3])
    sp.result_router.result_intermediate_state_input_filepath_tensor_name = n[0]
    sp.result_router.result_aggregate_result_input_filepath_tensor_name = n[1]
    sp.result_router.result_server_state_output_filepath_tensor_name = n[2]
    plan.server_graph_result_bytes.Pack(StringValue(value='|'.join(['result', n[3]] + n[:3] + [x.result])))
  if x.prepare == 'E':
    x.bad = GraphError
  if s.chance(1, 20):
    x.bad = ValueError
    k = s.draw(4)
    if k == 0:
      plan.ClearField('phase')
    elif k == 1:
      plan.phase.add().server_phase_v2.SetInParent()
    elif k == 2:
      sp = phase.ClearField('server_phase_v2')
    else:
      x.mode = s.pick([0, 7])
      x.bad = GraphError if x.prepare == 'E' else ValueError
  # What clients are served.
  only = plan_pb2.ClientOnlyPlan(graph=plan.client_graph_bytes.value, tflite_graph=plan.client_tflite_graph_bytes)
  if plan.phase:
    only.phase.CopyFrom(plan.phase[0].client_phase)
  if plan.HasField('tensorflow_config_proto'):
    only.tensorflow_config_proto.CopyFrom(plan.tensorflow_config_proto)
  x.client_plan = only
  x.client_checkpoint = b'client:' + x.state if x.prepare in ('', 'I') else b''
  x.slices = {}
  if s.chance(1, 3):
    for k in range(s.range(1, 2)):
      x.slices['at%d' % k if s.flip() else 'id-%d_x' % k] = [s.bytes(s.small(0, 10)) for _ in range(s.range(0, 12))]
    slices[only.SerializeToString()] = x.slices
  x.task = x.proto = x.session = None
  x.over = None
  x.offers = []
  return x


def outcome(x):
  """The result of a computation whose aggregate is ready."""
  if x.protocol_fault:
    return ValueError, None
  aggregate = b'|'.join(sorted(x.proto.inputs))
  if x.result is None:
    return None, aggregate
  if 'E' in x.result:
    return GraphError, None
  if 'C' in x.result:
    return None, b''
  return None, b'result:' + (b'inter:' + x.state if 'I' not in x.result else b'none') + b'+' + aggregate


class World:

  def __init__(self, s, c):
    self.s, self.c = s, c
    self.population = s.pick(['pop', 'pop/x'])
    with coop.patched():
      self.server = server.InProcessServer(population_name=self.population, host='127.0.0.1', port=0)
    self.handler = self.server.RequestHandlerClass
    self.prefix = 'http://127.0.0.1:%d/' % self.server.server_port
    self.loop = asyncio.new_event_loop()
    self.loop.set_exception_handler(lambda *a: None)
    self.comps = []
    self.clients = []
    self.uris = set()
    self.next = None
    demo_env.protocols.make = self.make_protocol

  def make_protocol(self, config):
    x = self.next
    x.proto = Protocol(config, x.batch, x.protocol_fault)
    return x.proto

  def spin(self):
    for _ in range(6):
      self.loop.call_soon(self.loop.stop)
      self.loop.run_forever()

  def post(self, path, *args):
    names = [urllib.parse.quote(x, safe='') for x in args[:-1]]
    a = demo_env.request(self.handler, 'POST', '/' + path % tuple(names) + '?%24alt=proto', args[-1].SerializeToString())
    check(a.ok_form, 'no answer')
    return a

  def fetch(self, uri):
    check(uri.startswith(self.prefix), 'uri', uri)
    self.uris.add(uri)
    return demo_env.request(self.handler, 'GET', uri[len(self.prefix) - 1:])

  # Steps.
  def launch(self, x):
    self.c.log('run', x.i, repr(x.name), 'mode', x.mode, 'clients', x.n, 'prepare', x.prepare, 'result', x.result, 'fault', x.protocol_fault, 'bad', x.bad)
    self.next = x
    self.comps.append(x)
    x.task = self.loop.create_task(self.server.run_computation(x.name, x.plan, x.state, x.mode, x.n))
    self.spin()
    if x.bad or x.n == 0:
      x.over = 'ended'

  def waiting(self):
    return [x for x in self.comps if x.over is None]

  def offered(self, a):
    hits = [x for x in self.comps if x.session == a.aggregation_id]
    if not hits:
      # A session is known by the plan it serves.
      got = self.fetch(a.plan.uri)
      equal(got.code, 200, 'plan')
      plan = plan_pb2.ClientOnlyPlan()
      plan.ParseFromString(gzip.decompress(got.body))
      hits = [x for x in self.comps if x.client_plan == plan]
      check(hits, 'the plan is of no computation')
      check(hits[0].session is None, 'two sessions of one computation')
      hits[0].session = a.aggregation_id
    x = hits[0]
    check(x.over is None, 'a computation that is over was offered')
    equal(a.task_name, x.name, 'task name')
    equal(a.aggregation_data_forwarding_info.target_uri_prefix, self.prefix, 'forwarding')
    x.offers.append(a)
    self.clients.append(Bag(x=x, offer=a, state='assigned', token=None, resource=None))
    return x

  def checkin(self):
    a = self.post('v1/populations/%s/taskassignments/%s:start', self.population, 's', task_assignments_pb2.StartTaskAssignmentRequest())
    equal(a.code, 200, 'check-in')
    op = operations_pb2.Operation()
    op.ParseFromString(a.body)
    r = task_assignments_pb2.StartTaskAssignmentResponse()
    check(op.done and op.response.Unpack(r), 'response')
    want = [x for x in self.waiting() if x.mode == 1]
    if r.HasField('rejection_info'):
      self.c.log('check-in: rejected')
      check(not want, 'a client was rejected')
      return
    x = self.offered(r.task_assignment)
    self.c.log('check-in:', x.i)
    check(want and want[0] is x, 'another computation was offered')

  def several(self, names):
    a = self.post('v1/populations/%s/taskassignments/%s:performmultiple', self.population, 's',
                  task_assignments_pb2.PerformMultipleTaskAssignmentsRequest(task_names=names))
    equal(a.code, 200, 'check-in')
    r = task_assignments_pb2.PerformMultipleTaskAssignmentsResponse()
    r.ParseFromString(a.body)
    got = [self.offered(t) for t in r.task_assignments]
    self.c.log('check-in for', names, ':', *[x.i for x in got])
    equal(sorted(x.i for x in got), [x.i for x in self.waiting() if x.mode == 2 and x.name in names], 'offered computations')

  def spec(self):
    m = eligibility_eval_tasks_pb2.EligibilityEvalTaskRequest()
    m.eligibility_eval_task_capabilities.supports_multiple_task_assignment = True
    a = self.post('v1/eligibilityevaltasks/%s:request', self.population, m)
    equal(a.code, 200, 'eligibility request')
    r = eligibility_eval_tasks_pb2.EligibilityEvalTaskResponse()
    r.ParseFromString(a.body)
    spec = spec_pb2.PopulationEligibilitySpec()
    spec.ParseFromString(r.eligibility_eval_task.population_eligibility_spec.inline_resource.data)
    got = [(t.task_name, t.task_assignment_mode) for t in spec.task_info]
    want = [(x.name, x.mode) for x in self.waiting()]
    equal({x for x, _ in got}, {x for x, _ in want}, 'announced tasks')
    equal(len({x for x, _ in got}), len(got), 'tasks announced once')
    for t in got:
      check(t in want, 'announced mode of', t)

  def download(self, client):
    x, a = client.x, client.offer
    live = x.over is None
    self.c.log('download of', x.i)
    for uri, want in ((a.plan.uri, 'plan'), (a.init_checkpoint.uri, 'checkpoint')):
      got = self.fetch(uri)
      if not live:
        equal(got.code, 404, 'download after the end')
        continue
      equal(got.code, 200, 'download')
      equal(got.header('Content-Length'), [str(len(got.body))], 'length')
      check(got.header('Content-Type')[0].endswith('+gzip'), 'content type')
      data = gzip.decompress(got.body)
      if want == 'plan':
        p = plan_pb2.ClientOnlyPlan()
        p.ParseFromString(data)
        equal(p, x.client_plan, 'plan')
      else:
        equal(data, x.client_checkpoint, 'checkpoint')
    template = a.federated_select_uri_info.uri_template
    if not slices_asked[0]:
      return
    for name, parts in x.slices.items():
      for k in range(len(parts) + 1):
        got = self.fetch(template.replace('{served_at_id}', name).replace('{key_base10}', str(k)))
        if k == len(parts) or not live:
          equal(got.code, 404, 'slice')
        else:
          equal(got.code, 200, 'slice')
          equal(gzip.decompress(got.body), parts[k], 'slice')

  def begin(self, client):
    x = client.x
    a = self.post('v1/aggregations/%s/clients/%s:startdataupload', x.session, client.offer.authorization_token,
                  aggregations_pb2.StartAggregationDataUploadRequest())
    self.c.log('start of a client of', x.i, ':', a.code)
    if x.over is not None:
      check(400 <= a.code < 500, 'a client was admitted after the end')
      client.state = 'done'
      return
    equal(a.code, 200, 'start')
    op = operations_pb2.Operation()
    op.ParseFromString(a.body)
    r = aggregations_pb2.StartAggregationDataUploadResponse()
    check(op.response.Unpack(r), 'response')
    client.token, client.resource = r.client_token, r.resource.resource_name
    client.state = 'started'

  def upload(self, client, data):
    x = client.x
    a = demo_env.request(self.handler, 'POST', '/upload/v1/media/%s?upload_protocol=raw' % client.resource, data)
    self.c.log('upload for', x.i, data, ':', a.code)
    if x.over is not None:
      check(400 <= a.code < 500, 'an upload was accepted after the end')
      client.state = 'done'
      return
    equal(a.code, 200, 'upload')
    client.state, client.data = 'uploaded', data

  def submit(self, client):
    x = client.x
    before = len(x.proto.inputs)
    a = self.post('v1/aggregations/%s/clients/%s:submit', x.session, client.token, aggregations_pb2.SubmitAggregationResultRequest(resource_name=client.resource))
    self.c.log('submit to', x.i, ':', a.code)
    client.state = 'done'
    if x.over is not None:
      check(400 <= a.code < 500, 'a result was accepted after the end')
      equal(len(x.proto.inputs), before, 'inputs')
      return
    if client.data.startswith(b'BAD'):
      check(a.code >= 400, 'a bad result was accepted')
      equal(len(x.proto.inputs), before, 'inputs')
      return
    equal(a.code, 200, 'submit')
    equal(x.proto.inputs[before:], [client.data], 'aggregated input')
    if x.proto.now_included >= x.n:
      x.over = 'ended'

  def leave(self, client):
    x = client.x
    m = aggregations_pb2.AbortAggregationRequest()
    m.status.code = 13
    a = self.post('v1/aggregations/%s/clients/%s:abort', x.session, client.token, m)
    self.c.log('a client of', x.i, 'leaves:', a.code)
    equal(a.code == 200, x.over is None, 'leaving')
    client.state = 'done'

  def cancel(self, x):
    self.c.log('cancel', x.i)
    x.task.cancel()
    self.spin()
    x.over = 'cancelled'

  def settle(self):
    """Compares what has ended with what should have."""
    self.spin()
    for x in self.comps:
      equal(x.task.done(), x.over is not None, 'computation', x.i, 'is over')
      if not x.task.done() or getattr(x, 'settled', False):
        continue
      x.settled = True
      self.c.label(x.over if not x.bad else 'bad')
      if x.over == 'cancelled':
        check(x.task.cancelled(), 'a cancelled computation gave a result')
      else:
        error, want = (x.bad, None) if x.bad else outcome(x)
        got = x.task.exception()
        if error:
          check(isinstance(got, error), 'expected', error.__name__, 'got', repr(got))
          self.c.label('error')
        else:
          check(got is None, 'failed with', repr(got))
          equal(x.task.result(), want, 'result')
          self.c.label('result of %d' % min(x.n, 2))
          if x.n:
            self.c.nontrivial()
      if x.proto:
        finished = not x.bad and x.over == 'ended' and x.protocol_fault != 'complete'
        if finished:
          equal(x.proto.over, 'completed', 'the aggregation')
        elif x.protocol_fault != 'complete' or x.over == 'cancelled':
          equal(x.proto.over, 'aborted', 'the aggregation')

  def close(self):
    for x in self.comps:
      if x.task:
        x.task.cancel()
    self.spin()
    self.loop.close()
    self.server.server_close()


def computations(s, c):
  slices.clear()
  slices_asked[0] = False
  tmp = tempfile.mkdtemp(dir=SCRATCH)
  tempfile.tempdir = tmp
  w = World(s, c)
  names = ['task', 'p/other', 'third'][:s.range(1, 3)]
  modes = {x: 1 if s.flip() else 2 for x in names}
  try:
    planned = s.range(1, 4)
    for _ in range(s.range(6, 40)):
      kind = s.weighted([3 if len(w.comps) < planned else 0, 5, 2, 2, 2, 9, 1])
      movable = [x for x in w.clients if x.state != 'done']
      if kind == 0 or not w.comps:
        w.launch(make_comp(s, len(w.comps), names, modes))
      elif kind == 1:
        if s.flip():
          w.checkin()
        else:
          w.several([s.pick(names + ['none']) for _ in range(s.range(0, 3))])
      elif kind == 2:
        w.spec()
      elif kind == 3:
        if w.clients:
          w.download(s.pick(w.clients))
      elif kind == 4:
        if movable and s.chance(1, 3) and [x for x in movable if x.token]:
          w.leave(s.pick([x for x in movable if x.token]))
      elif kind == 5:
        for _ in range(s.range(1, 3)):
          movable = [x for x in w.clients if x.state != 'done']
          if not movable:
            break
          x = movable[s.draw(len(movable))]
          if x.state == 'assigned':
            w.begin(x)
          elif x.state == 'started':
            w.upload(x, s.pick([b'', b'a', b'b%d' % s.draw(9), b'BAD']))
          else:
            w.submit(x)
          w.settle()
      elif s.chance(1, 2) and w.waiting():
        w.cancel(s.pick(w.waiting()))
      w.settle()
    # The rest gets its clients or is cancelled.
    for x in w.waiting():
      if s.flip():
        w.cancel(x)
        w.settle()
    for _ in range(40):
      if not w.waiting():
        break
      x = w.waiting()[0]
      before = len(w.clients)
      w.checkin() if x.mode == 1 else w.several([x.name])
      for client in w.clients[before:]:
        if client.x.over is None:
          w.begin(client)
          w.upload(client, b'z')
          w.submit(client)
          w.settle()
    check(not w.waiting(), 'a computation does not end')
    # Nothing is left behind.
    w.spec()
    w.checkin()
    w.several(names)
    for client in w.clients:
      w.download(client)
      if client.state == 'assigned':
        w.begin(client)
      elif client.state == 'started':
        w.upload(client, b'late')
      elif client.state == 'uploaded':
        w.submit(client)
    for uri in w.uris:
      equal(w.fetch(uri).code, 404, 'download after the end')
    failed = False
    for x in w.comps:
      failed = failed or not x.task.cancelled() and x.task.exception() is not None
      x.task = None
    if failed:
      gc.collect()  # an error may hold on to the directory
    equal(os.listdir(tmp), [], 'scratch files after the end')
  finally:
    w.close()
    tempfile.tempdir = None
    shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
  sys.exit(pbt.main('P05', 'a computation with at least one client gave its result', [('computations', computations, 8000, 200000)], setup=setup))

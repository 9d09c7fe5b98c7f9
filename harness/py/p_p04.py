"""P04: the demo server's task assignment and eligibility information."""
import sys
import urllib.parse

import coop
import demo_env
import pbt
from demo_env import Bag
from pbt import check, equal

PREFIX = 'https://host.example/'


def setup(scratch):
  demo_env.setup(scratch)
  global aggregations, media, http_actions, task_assignments, eligibility_eval_tasks
  global common_pb2, aggregations_pb2, operations_pb2, plan_pb2, task_assignments_pb2, eligibility_eval_tasks_pb2, spec_pb2, Mode
  with coop.patched():
    from fcp.demo import media
    from fcp.demo import http_actions
    from fcp.demo import aggregations
    from fcp.demo import task_assignments
    from fcp.demo import eligibility_eval_tasks
  from fcp.protos import plan_pb2
  from fcp.protos import population_eligibility_spec_pb2 as spec_pb2
  from fcp.protos.federatedcompute import aggregations_pb2
  from fcp.protos.federatedcompute import common_pb2
  from fcp.protos.federatedcompute import eligibility_eval_tasks_pb2
  from fcp.protos.federatedcompute import task_assignments_pb2
  from google.longrunning import operations_pb2
  Mode = spec_pb2.PopulationEligibilitySpec.TaskInfo.TaskAssignmentMode


class Protocol:
  """An aggregation core that admits clients until it ends."""

  def __init__(self):
    self.over, self.clients = False, 0

  def Start(self, n):
    pass

  def AddClients(self, n):
    if self.over:
      raise demo_env.bad(demo_env.StatusCode.FAILED_PRECONDITION)
    self.clients += 1
    return self.clients - 1

  def Abort(self):
    self.over = True

  def GetStatus(self):
    return Bag(num_clients_completed=0, num_clients_failed=0, num_clients_pending=self.clients, num_clients_aborted=0, num_inputs_aggregated_and_included=0,
               num_inputs_aggregated_and_pending=0, num_inputs_discarded=0)


class World:

  def __init__(self, population):
    self.population = population
    info = common_pb2.ForwardingInfo(target_uri_prefix=PREFIX)
    demo_env.protocols.make = lambda conf: Protocol()
    with coop.patched():
      self.media = media.Service(lambda: info)
      self.agg = aggregations.Service(lambda: info, self.media)
      self.tasks = task_assignments.Service(population, lambda: info, self.agg)
      self.eets = eligibility_eval_tasks.Service(population, lambda: info)
    self.handler = http_actions.create_handler(self.media, self.agg, self.tasks, self.eets)
    plan = plan_pb2.Plan()
    plan.phase.add().server_phase_v2.SetInParent()
    self.requirements = aggregations.AggregationRequirements(0, plan)
    self.tasks_made = []
    self.offers = []  # (assignment, index of the task)

  def post(self, path, *args):
    message = args[-1]
    names = [urllib.parse.quote(x, safe='') for x in args[:-1]]
    a = demo_env.request(self.handler, 'POST', path % tuple(names) + '?%24alt=proto', message.SerializeToString())
    check(a.ok_form, 'no answer')
    return a

  def run(self, op):
    return getattr(self, 'do_' + op[0])(*op[1:])

  def do_add(self, i, name, mode):
    t = self.tasks_made[i]
    self.tasks.add_task(name, mode, t.session, common_pb2.Resource(uri=t.plan), common_pb2.Resource(uri=t.checkpoint), t.select)
    return 'ok'

  def do_add_bad(self, i, name, mode):
    t = self.tasks_made[i]
    try:
      self.tasks.add_task(name, mode, t.session, common_pb2.Resource(uri=t.plan), common_pb2.Resource(uri=t.checkpoint), t.select)
    except ValueError:
      return 'refused'
    return 'ok'

  def do_remove(self, i):
    try:
      self.tasks.remove_task(self.tasks_made[i].session if i >= 0 else 'unknown')
    except KeyError:
      return 'refused'
    return 'ok'

  def do_end(self, i):
    # As the server does: the task is removed first.
    got = self.do_remove(i)
    self.agg.abort_session(self.tasks_made[i].session)
    return got

  def offered(self, a, session_id):
    """The index of the task that was offered."""
    hits = [i for i, t in enumerate(self.tasks_made) if t.session == a.aggregation_id]
    check(hits, 'an unknown session was offered')
    t = self.tasks_made[hits[0]]
    equal(a.session_id, session_id, 'session id')
    equal(a.task_name, t.name, 'task name')
    equal(a.plan.uri, t.plan, 'plan')
    equal(a.init_checkpoint.uri, t.checkpoint, 'checkpoint')
    equal(a.federated_select_uri_info.uri_template, t.select, 'slices')
    equal(a.aggregation_data_forwarding_info.target_uri_prefix, PREFIX, 'forwarding')
    check(a.HasField('aggregation_info') and not a.HasField('secure_aggregation_info'), 'kind of aggregation')
    check(a.authorization_token, 'no authorization')
    self.offers.append((a, hits[0]))
    return hits[0]

  def do_start(self, population, session_id):
    a = self.post('/v1/populations/%s/taskassignments/%s:start', population, session_id, task_assignments_pb2.StartTaskAssignmentRequest())
    if a.code != 200:
      check(400 <= a.code < 500, 'code', a.code)
      return 'refused'
    op = operations_pb2.Operation()
    op.ParseFromString(a.body)
    check(op.done, 'operation not done')
    r = task_assignments_pb2.StartTaskAssignmentResponse()
    check(op.response.Unpack(r), 'response')
    if r.HasField('rejection_info'):
      return 'rejected'
    return self.offered(r.task_assignment, session_id)

  def do_several(self, population, session_id, names):
    a = self.post('/v1/populations/%s/taskassignments/%s:performmultiple', population, session_id,
                  task_assignments_pb2.PerformMultipleTaskAssignmentsRequest(task_names=names))
    if a.code != 200:
      check(400 <= a.code < 500, 'code', a.code)
      return 'refused'
    r = task_assignments_pb2.PerformMultipleTaskAssignmentsResponse()
    r.ParseFromString(a.body)
    return sorted(self.offered(x, session_id) for x in r.task_assignments)

  def do_report(self, population, session_id, code):
    m = task_assignments_pb2.ReportTaskResultRequest(aggregation_id='a', task_name='t')
    m.computation_status_code = code
    return self.acknowledged(self.post('/v1/populations/%s/taskassignments/%s:reportresult', population, session_id, m))

  def do_report_eet(self, population, session_id, code):
    m = eligibility_eval_tasks_pb2.ReportEligibilityEvalTaskResultRequest()
    m.status_code = code
    return self.acknowledged(self.post('/v1/populations/%s/eligibilityevaltasks/%s:reportresult', population, session_id, m))

  def acknowledged(self, a):
    if a.code == 200:
      equal(a.body, b'', 'acknowledgement')
      return 'ok'
    check(400 <= a.code < 500, 'code', a.code)
    return 'refused'

  def do_eet_add(self, name, mode):
    self.eets.add_task(name, mode)
    return 'ok'

  def do_eet_remove(self, name):
    try:
      self.eets.remove_task(name)
    except KeyError:
      return 'refused'
    return 'ok'

  def do_eet(self, population, several):
    m = eligibility_eval_tasks_pb2.EligibilityEvalTaskRequest()
    m.eligibility_eval_task_capabilities.supports_multiple_task_assignment = several
    a = self.post('/v1/eligibilityevaltasks/%s:request', population, m)
    if a.code != 200:
      check(400 <= a.code < 500, 'code', a.code)
      return 'refused'
    r = eligibility_eval_tasks_pb2.EligibilityEvalTaskResponse()
    r.ParseFromString(a.body)
    equal(r.task_assignment_forwarding_info.target_uri_prefix, PREFIX, 'forwarding')
    check(r.session_id, 'no session id')
    check(r.session_id not in self.sessions_seen, 'a session id was given twice')
    self.sessions_seen.add(r.session_id)
    for w in (r.retry_window_if_accepted, r.retry_window_if_rejected):
      check(0 < w.delay_min.seconds <= w.delay_max.seconds, 'retry window')
    if r.HasField('no_eligibility_eval_configured'):
      return 'none'
    equal(r.WhichOneof('result'), 'eligibility_eval_task', 'result')
    res = r.eligibility_eval_task.population_eligibility_spec
    equal(res.WhichOneof('resource'), 'inline_resource', 'resource')
    spec = spec_pb2.PopulationEligibilitySpec()
    spec.ParseFromString(res.inline_resource.data)
    return sorted((t.task_name, t.task_assignment_mode) for t in spec.task_info)


def model(state, op):
  single, several, eets, population = state
  kind = op[0]
  if kind == 'add':
    _, i, name, mode = op
    if mode == 1:
      single += (i,)
    else:
      several += ((i, name),)
    return 'ok', (single, several, eets, population)
  if kind == 'add_bad':
    return 'refused', state
  if kind in ('remove', 'end'):
    i = op[1]
    if i in single:
      return 'ok', (tuple(x for x in single if x != i), several, eets, population)
    if i in [x for x, _ in several]:
      return 'ok', (single, tuple(x for x in several if x[0] != i), eets, population)
    return 'refused', state
  if kind == 'eet_add':
    return 'ok', (single, several, tuple(x for x in eets if x[0] != op[1]) + ((op[1], op[2]),), population)
  if kind == 'eet_remove':
    if op[1] not in [x for x, _ in eets]:
      return 'refused', state
    return 'ok', (single, several, tuple(x for x in eets if x[0] != op[1]), population)
  if op[1] != population:
    return 'refused', state
  if kind == 'start':
    return (single[0] if single else 'rejected'), state
  if kind == 'several':
    return sorted(i for i, name in several if name in op[3]), state
  if kind in ('report', 'report_eet'):
    return 'ok', state
  assert kind == 'eet'
  return (sorted(eets) if op[2] else 'none'), state


def make_op(s, w):
  pop = w.population
  if s.chance(1, 8):
    pop = s.pick(['other', pop + 'x', pop[:-1] or 'y', pop.upper() + '/', ''])
  sid = s.pick(['s1', 's 2', 'a/b', 'ü'])
  names = ['t1', 't2', 'p/t3', '']
  kind = s.weighted([7, 6, 6, 2, 1, 1, 1, 3, 3, 1, 1])
  if kind == 0:
    i = len(w.tasks_made)
    mode = 1 if s.flip() else 2
    bad = s.chance(1, 15)
    t = Bag(name=s.pick(names), session=w.agg.create_session(w.requirements), plan='plan%d' % i, checkpoint='ckpt%d' % i, select='select%d' % i)
    w.tasks_made.append(t)
    if bad:
      return ('add_bad', i, t.name, s.pick([0, 7]))
    w.alive.append(i)
    return ('add', i, t.name, mode)
  if kind == 1:
    return ('start', pop, sid)
  if kind == 2:
    return ('several', pop, sid, [s.pick(names + ['none']) for _ in range(s.range(0, 4))])
  if kind == 3:
    if w.alive and not s.chance(1, 8):
      i = s.pick(w.alive)
      w.alive.remove(i)
      return (s.pick(['remove', 'end']), i)
    if s.flip():
      return ('remove', -1)
    return ('remove', s.draw(len(w.tasks_made)) if w.tasks_made and not w.alive else -1)
  if kind == 4:
    return ('report', pop, sid, s.pick([0, 1, 13, 16, 17, 99, -1]))
  if kind == 5:
    return ('report_eet', pop, sid, s.pick([0, 1, 13, 16, 17, 99, -1]))
  if kind == 7:
    # Names added twice are left to whole computations.
    w.announced.append('%s%d' % (s.pick(names), len(w.announced)))
    return ('eet_add', w.announced[-1], s.pick([0, 1, 2]))
  if kind == 8 or kind == 6:
    return ('eet', pop, not s.chance(1, 4))
  return ('eet_remove', s.pick(w.announced + ['none']))


def assignment(s, c):
  w = World(s.pick(['pop', 'pop/ulation', 'ä b']))
  w.alive = []
  w.announced = []
  w.sessions_seen = set()
  history, clock = [], [0]

  def tick():
    clock[0] += 1
    return clock[0]

  def play(ops, now):
    for op in ops:
      start = now()
      answer = w.run(op)
      history.append((start, now(), op, answer))

  for _ in range(s.range(1, 3)):
    for _ in range(s.range(1, 8)):
      play([make_op(s, w)], tick)
    if s.chance(1, 2):
      plans = [[make_op(s, w) for _ in range(s.range(1, 3))] for _ in range(s.range(2, 3))]
      # A task must be there before it is removed.
      for p in plans:
        for op in list(p):
          if op[0] == 'add':
            p.remove(op)
            play([op], tick) if s.flip() or any(x[0] in ('remove', 'end') and x[1] == op[1] for q in plans for x in q) else p.insert(0, op)
      sched = coop.Sched(s, ['fcp/demo/aggregations.py', 'fcp/demo/task_assignments.py', 'fcp/demo/eligibility_eval_tasks.py'], 8)
      sched.clock = clock[0]
      sched.run([lambda p=p: play(p, sched.now) for p in plans])
      clock[0] = sched.clock
      if sched.switches:
        c.label('switched')
  for h in history:
    c.log('%d-%d %r -> %r' % (h[0], h[1], h[2], h[3]))
  check(coop.linearizable(history, ((), (), (), w.population), model, lambda op, a, want: a == want), 'no order of the operations explains the answers')
  # Every authorization is good for its own session, once.
  ended = {h[2][1] for h in history if h[2][0] == 'end'}
  tokens = [a.authorization_token for a, _ in w.offers]
  equal(len(set(tokens)), len(tokens), 'distinct authorizations')
  for a, i in w.offers:
    for j, t in list(enumerate(w.tasks_made)) + [(i, w.tasks_made[i])] * 2:
      if j == i:
        continue
      got = redeem(w, t.session, a.authorization_token)
      check(not got, 'an authorization is good for another session')
    got = redeem(w, w.tasks_made[i].session, a.authorization_token)
    equal(got, i not in ended, 'an authorization is good for its session')
    check(not redeem(w, w.tasks_made[i].session, a.authorization_token), 'an authorization was used twice')
  for h in history:
    if h[2][0] in ('start', 'several'):
      c.label(h[2][0] + ' ' + ('offer' if isinstance(h[3], int) or (isinstance(h[3], list) and h[3]) else str(h[3])))
  if w.offers:
    c.nontrivial()


def redeem(w, session, token):
  a = w.post('/v1/aggregations/%s/clients/%s:startdataupload', session, token, aggregations_pb2.StartAggregationDataUploadRequest())
  return a.code == 200


if __name__ == '__main__':
  sys.exit(pbt.main('P04', 'at least one task was offered', [('assignment', assignment, 24000, 600000)], setup=setup))

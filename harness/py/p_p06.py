"""P06: invocations of a federated program."""
import asyncio
import collections
import gc
import inspect
import os
import socket
import sys

import attr
import numpy as np

import demo_env
import fake_tf
import pbt
from demo_env import Bag
from fake_tf import Struct
from pbt import check, equal

ARTIFACT_MODULES = ['artifact_constants', 'checkpoint_utils', 'data_spec', 'plan_utils', 'tensor_utils', 'type_checks', 'variable_helpers',
                    'proto_helpers', 'graph_helpers', 'checkpoint_type']
LOOP = None


def link_artifact_building(scratch):
  d = os.path.join(scratch, 'py', 'fcp', 'artifact_building')
  os.makedirs(d)
  base = demo_env.REPO + '/fcp/artifact_building'
  for f in os.listdir(base):
    if f.endswith('.py') and not f.endswith('_test.py') and f not in ('__init__.py', 'federated_compute_plan_builder.py'):
      os.symlink(os.path.join(base, f), os.path.join(d, f))


def setup(scratch):
  demo_env.setup(scratch, ['tensorflow/core/framework/graph.proto', 'tensorflow/core/protobuf/config.proto'])
  link_artifact_building(scratch)
  global tf, tff, server, federated_context, federated_computation, federated_data_source, plan_pb2, Mode, RUN, LOOP
  tf, tff = fake_tf.install()
  import fcp.artifact_building
  builder = demo_env.module('fcp.artifact_building.federated_compute_plan_builder', build_plan=build_plan)
  fcp.artifact_building.federated_compute_plan_builder = builder
  from fcp.demo import server
  from fcp.demo import federated_computation
  from fcp.demo import federated_context
  from fcp.demo import federated_data_source
  from fcp.protos import plan_pb2
  from fcp.protos import population_eligibility_spec_pb2
  Mode = population_eligibility_spec_pb2.PopulationEligibilitySpec.TaskInfo.TaskAssignmentMode
  socket.getfqdn = lambda name='': name
  RUN = inspect.signature(server.InProcessServer.run_computation)
  server.InProcessServer.run_computation = run_computation
  fake_tf.Converter.convert_with = lambda c: b'lite:' + c.graph_def.node[0].name.encode()


# The plan tells which computation and which examples it was built for.
def spec_text(x):
  if isinstance(x, dict):
    return '{%s}' % ','.join('%s:%s' % (k, spec_text(v)) for k, v in x.items())
  sel = x if isinstance(x, plan_pb2.ExampleSelector) else x.example_selector_proto
  return '%s|%s' % (sel.collection_uri, sel.criteria.value.decode())


def build_plan(mrf=None, daf=None, dataspec=None, example_query_spec=None, grappler_config=None, **kw):
  from tensorflow.core.framework import graph_pb2
  g = graph_pb2.GraphDef()
  g.node.add(name='%s on %s' % (daf[1].text, spec_text(dataspec)))
  plan = plan_pb2.Plan()
  plan.client_graph_bytes.Pack(g)
  plan.phase.add().client_phase.tensorflow_spec.dataset_token_tensor_name = 'data_token'
  return plan


async def run_computation(*args, **kw):
  a = RUN.bind(*args, **kw).arguments
  a = list(a.values())
  run = Bag(ctx=a[0], name=a[1], plan=a[2].SerializeToString(), lite=a[2].client_tflite_graph_bytes, checkpoint=a[3], mode=a[4], clients=a[5])
  run.future = asyncio.get_running_loop().create_future()
  WORLD.runs.append(run)
  return await run.future


WORLD = None


class Computation:
  """Stands in for a computation of the program."""

  def __init__(self, text, state, metrics, data):
    self.text, self.state, self.metrics = text, state, metrics
    self.type_signature = fake_tf.FunctionType(
        fake_tf.StructType([('state', fake_tf.FederatedType(state, 'SERVER')), ('client_data', fake_tf.FederatedType(data, 'CLIENTS'))]),
        fake_tf.StructType([fake_tf.FederatedType(state, 'SERVER'), fake_tf.FederatedType(metrics, 'SERVER')]))


NAMES = ['a', 'b', 'c', 'num', 'w_1', 'x']


def gen_type(src, depth):
  if depth == 0 or src.weighted([3, 2]) == 0:
    dtype = src.pick([np.int32, np.float32, np.int64, np.str_])
    return fake_tf.TensorType(dtype, [src.range(1, 2) for _ in range(src.small(0, 2))])
  n = src.draw(4)
  # Of one kind: all fields have names or none has.
  if src.flip():
    return fake_tf.StructType([(k, gen_type(src, depth - 1)) for k in sorted(src.shuffle(NAMES)[:n])])
  return fake_tf.StructType([(None, gen_type(src, depth - 1)) for _ in range(n)])


def leaves(t, name):
  """Names and types of the tensors of a type, in order."""
  if isinstance(t, fake_tf.TensorType):
    return [(name, t)]
  out = []
  for i, (n, x) in enumerate(fake_tf.to_elements(t)):
    out += leaves(x, '%s/%s' % (name, n or i))
  return out


def gen_value(src, t):
  k = src.draw(100)
  size = int(np.prod(t.shape, dtype=int))
  if t.dtype is np.str_:
    vals = [b'v%d' % (k + i) for i in range(size)]
    return vals[0] if not t.shape else np.array(vals, dtype=object).reshape(t.shape)
  a = np.array([k + i for i in range(size)], dtype=t.dtype).reshape(t.shape)
  return a if t.shape else t.dtype(a)


def same(a, b):
  return np.shape(a) == np.shape(b) and fake_tf.dtype_of(a) == fake_tf.dtype_of(b) and np.array_equal(np.asarray(a), np.asarray(b))


@attr.s(auto_attribs=True)
class Pair:
  a: object
  b: object


def dress(src, t, values):
  """A state of the given type with the given leaves, in one of the accepted forms."""
  if isinstance(t, fake_tf.TensorType):
    v = values.pop(0)
    if isinstance(v, tff.program.MaterializableValueReference):
      return v
    k = src.draw(3)
    if k == 1:
      return fake_tf.Tensor(v)
    if k == 2 and not t.shape and t.dtype is not np.int64:
      return {np.int32: int, np.float32: float, np.str_: lambda x: x.decode() if src.flip() else x}[t.dtype](v)
    return v
  items = [(n, dress(src, x, values)) for n, x in fake_tf.to_elements(t)]
  if all(n is None for n, _ in items):
    return src.pick([tuple, list])(v for _, v in items)
  if [n for n, _ in items] == ['a', 'b'] and src.flip():
    return Pair(*[v for _, v in items])
  return src.pick([dict, collections.OrderedDict])(items)


def as_struct(x):
  """The same state given as structures."""
  if isinstance(x, (dict, list, tuple, Pair)):
    s = fake_tf.from_container(x)
    return Struct([(n, as_struct(v)) for n, v in fake_tf.to_elements(s)])
  return x


def gen_selector(src, w, depth=1):
  if depth and src.chance(1, 4):
    return {k: gen_selector(src, w, 0) for k in sorted(src.shuffle(NAMES)[:src.range(1, 2)])}
  s = plan_pb2.ExampleSelector(collection_uri='app:/%d' % src.draw(6))
  s.criteria.value = src.pick([b'', b'x', b'y'])
  return s


async def settle():
  for _ in range(12):
    await asyncio.sleep(0)


class World:

  def __init__(self, src, case):
    self.src, self.case = src, case
    self.runs, self.calls, self.comps, self.sources, self.results = [], [], [], [], {}
    self.serial = 0


def expected_names(call):
  return leaves(call.comp.state, 'server')


async def program(src, case):
  global WORLD
  w = WORLD = World(src, case)
  fake_tf.FILES.clear()
  base = Bag(calls=[])
  base.invoke = lambda comp, arg: base.calls.append((comp, arg)) or 'base'
  has_base = src.flip()
  ctx = federated_context.FederatedContext('pop/a', base_context=base if has_base else None, address_family=socket.AF_INET)
  ctx._server.server_close()
  try:
    for i in range(src.range(1, 3)):
      state = gen_type(src, 2)
      if not leaves(state, ''):  # a checkpoint holds something
        state = fake_tf.StructType([(None, state), (None, fake_tf.TensorType(np.int32))])
      data = fake_tf.SequenceType(np.str_)
      metrics = gen_type(src, 1)
      w.comps.append(Computation('comp%d' % i, state, metrics, data))
    with tff.framework.get_context_stack().install(ctx):
      for _ in range(src.range(1, 10)):
        await step(w, src, case, base, has_base)
        await settle()
        look(w)
    # Everything ends.
    while any(not r.future.done() for r in w.runs):
      finish(w, src, next(r for r in w.runs if not r.future.done()), case)
      await settle()
      look(w)
    for c in w.calls:
      check(c.run is not None or c.failed(), 'a computation never ran', c.number)
    for c in w.calls:
      await outcome(w, c, case)
    equal(sorted(fake_tf.FILES), [], 'files after the end')
    if len([c for c in w.calls if c.run is not None]) >= 2:
      case.nontrivial()
  finally:
    for r in w.runs:
      if not r.future.done():
        r.future.cancel()
    await settle()
    for t in asyncio.all_tasks():
      if t is not asyncio.current_task():
        t.cancel()
    await settle()
    WORLD = None


class Call:
  """One invocation."""

  def __init__(self, number, comp, name, text, mode, clients, values):
    self.number, self.comp, self.name, self.text = number, comp, name, text
    self.mode, self.clients, self.values = mode, clients, values
    self.run = None
    self.refs = None

  def sources(self):
    return [v.call for v in self.values if isinstance(v, Later)]

  def ready(self):
    return all(s.done() and not s.failed() for s in self.sources())

  def done(self):
    return all(s.done() for s in self.sources()) and (self.failed() or self.run is not None and self.run.future.done())

  def failed(self):
    return any(s.failed() for s in self.sources()) or self.run is not None and self.run.future.done() and self.run.error is not None

  def causes(self):
    if self.run is not None:
      return [self.run.error]
    return [e for s in self.sources() if s.failed() for e in s.causes()]

  def want(self):
    return [v.call.run.result[v.name] if isinstance(v, Later) else v for v in self.values]


class Later:
  """A value of an earlier invocation."""

  def __init__(self, call, name):
    self.call, self.name = call, name


def look(w):
  """New runs belong to the invocations that can go on."""
  known = [c.run for c in w.calls]
  for r in w.runs:
    if any(r is k for k in known):
      continue
    fits = []
    for c in w.calls:
      if c.run is not None or not c.ready() or c.failed():
        continue
      if r.name == c.name:
        fits.append(c)
    check(fits, 'a run nobody asked for:', r.name)
    c = fits[0]
    equal(r.lite.decode(), 'lite:' + c.text, 'the plan of invocation', c.number)
    got = fake_tf.read_checkpoint(r.checkpoint)
    names = [n for n, _ in expected_names(c)]
    equal(sorted(got), sorted(names), 'tensors of the state of invocation', c.number)
    for (n, _), v in zip(expected_names(c), c.want()):
      check(same(got[n], v), 'state of invocation', c.number, n, 'is', repr(got[n]), 'but expected', repr(v))
    equal(r.mode, c.mode, 'assignment mode')
    equal(r.clients, c.clients, 'clients')
    r.error = None
    c.run = r
    r.call = c
  for c in w.calls:
    if c.run is None:
      check(not c.ready() or c.failed(), 'invocation', c.number, 'does not run')


def finish(w, src, run, case):
  if src.chance(1, 6):
    run.error = src.pick([ValueError, RuntimeError, KeyError])('broken %d' % run.call.number)
    case.label('failed run')
    run.future.set_exception(run.error)
    case.log('run of', run.call.number, 'fails')
    return
  run.result = {n: gen_value(src, t) for n, t in leaves(run.call.comp.state, 'server') + leaves(run.call.comp.metrics, 'metrics')}
  case.log('run of', run.call.number, 'gives', run.result)
  run.future.set_result(fake_tf.checkpoint(run.result))


async def outcome(w, c, case):
  """What the references of an ended invocation give."""
  for name, t, ref in c.refs:
    equal(ref.type_signature, t, 'type of', name)
    try:
      v = await ref.get_value()
    except Exception as e:  # pylint: disable=broad-except
      check(c.failed(), 'no value for', name, 'of', c.number, repr(e))
      check(any(type(e) is type(x) and e.args == x.args for x in c.causes()), 'another error', repr(e))
      continue
    check(not c.failed(), 'a value of a failed invocation', name)
    check(same(v, c.run.result[name]), name, 'of', c.number, 'is', repr(v), 'but expected', repr(c.run.result[name]))


def flat(x):
  if isinstance(x, (dict, collections.OrderedDict)):
    return [z for y in x.values() for z in flat(y)]
  if isinstance(x, (list, tuple, Struct)):
    return [z for y in x for z in flat(y)]
  return [x]


async def step(w, src, case, base, has_base):
  open_runs = [r for r in w.runs if not r.future.done()]
  ended = [c for c in w.calls if c.done()]
  kind = src.weighted([6, 5 if open_runs else 0, 2 if ended else 0, 1, 1, 1])
  if kind == 1:
    finish(w, src, src.pick(open_runs), case)
    return
  if kind == 2:
    c = src.pick(ended)
    case.log('values of', c.number)
    await outcome(w, c, case)
    return
  if kind == 4:  # Another kind of computation.
    other = object()
    case.log('base')
    before = len(w.runs)
    try:
      got = tff.framework.get_context_stack().current.invoke(other, 5)
      check(has_base and got == 'base' and base.calls[-1] == (other, 5), 'a plain computation was not passed on')
    except TypeError:
      check(not has_base, 'a plain computation is refused')
    equal(len(w.runs), before, 'runs')
    return
  if kind == 5 and w.sources:  # The program forgets a data source.
    case.log('forget')
    w.sources.pop(src.draw(len(w.sources)))
    gc.collect(0)
    return
  comp = src.pick(w.comps)
  name = src.pick(['t%d' % w.serial, 'n/m%d' % w.serial])
  w.serial += 1
  fc = federated_computation.FederatedComputation(comp, name=name)
  if not w.sources or src.flip():
    mode = src.pick([Mode.TASK_ASSIGNMENT_MODE_SINGLE, Mode.TASK_ASSIGNMENT_MODE_MULTIPLE])
    w.sources.append(federated_data_source.FederatedDataSource('pop/a', gen_selector(src, w), mode))
    source = w.sources[-1]
  else:
    source = src.pick(w.sources)
  clients = src.range(1, 5)
  if kind == 3:  # Something is wrong with it.
    what = src.draw(5)
    state = dress(src, comp.state, [gen_value(src, t) for _, t in leaves(comp.state, '')])
    config = source.iterator().select(clients)
    want, args = TypeError, None
    if what == 0:
      other = federated_data_source.FederatedDataSource(src.pick(['pop', 'pop/b', 'pop/a/b']), source.example_selector)
      want, args = ValueError, (state, other.iterator().select(clients))
    elif what == 1:
      args = (src.pick([None, object(), (1, None), {'a': object()}]), config)
    elif what == 2:
      args = (state, src.pick([None, source, source.iterator(), 3]))
    elif what == 3:
      want, args = ValueError, src.pick([(state,), (state, config, config)])
    else:
      want = ValueError
      try:
        source.iterator().select(src.pick([None, 0, -1]))
        check(False, 'no clients are accepted')
      except ValueError:
        return
    case.log('wrong', what)
    before = len(w.runs)
    try:
      fc(*args)
      check(False, 'a wrong invocation is accepted', what)
    except want:
      pass
    await settle()
    equal(len(w.runs), before, 'runs of a wrong invocation')
    return
  lv = expected_names(Bag(comp=comp))
  values, given = [], []
  for n, t in lv:
    # A value of an earlier invocation, ended or not, of the same type.
    pool = [(c, m, r) for c in w.calls for m, x, r in c.refs if x == t]
    if pool and src.chance(2, 3):
      c, m, r = src.pick(pool)
      values.append(Later(c, m))
      given.append(r)
      case.label('chained' if c.done() else 'chained before the end')
    else:
      v = gen_value(src, t)
      values.append(v)
      given.append(v)
  state = dress(src, comp.state, list(given))
  if src.chance(1, 4):
    state = as_struct(state)
  whole = [c for c in w.calls if c.comp is comp]
  if whole and src.chance(1, 3):
    # The state as the earlier invocation returned it.
    c = src.pick(whole)
    state = c.state
    values = [Later(c, n) for n, _ in lv]
  case.log('invocation', len(w.calls), name, comp.state, 'with', repr(state)[:200], 'on', spec_text(source.example_selector))
  call = Call(len(w.calls), comp, name, '%s on %s' % (comp.text, spec_text(source.example_selector)), source.task_assignment_mode, clients, values)
  result = fc(state, source.iterator().select(clients))
  equal(len(result), 2, 'parts of the result')
  call.state = result[0]
  names = leaves(comp.state, 'server') + leaves(comp.metrics, 'metrics')
  refs = flat(result[0]) + flat(result[1])
  equal(len(refs), len(names), 'values of the result')
  call.refs = [(n, t, r) for (n, t), r in zip(names, refs)]
  w.calls.append(call)
  if src.chance(1, 8) and not isinstance(source.example_selector, dict):
    # The program changes its selector afterwards.
    source.example_selector.criteria.value = b'changed'
    case.label('changed selector')


def programs(src, case):
  loop = asyncio.new_event_loop()
  loop.set_exception_handler(lambda l, c: None)
  try:
    loop.run_until_complete(program(src, case))
  finally:
    loop.close()


def is_name(s):
  return all(p and all(ch == '_' or ch.isalnum() for ch in p) for p in s.split('/'))


def naming(src, case):
  s = src.text(6, ['a', 'B', '7', '_', '/', '/', '-', ' ', '.', 'é', '\n', ''])
  ok = is_name(s)
  case.log(repr(s), ok)
  if ok and len(s) > 1:
    case.nontrivial()
  comp = Computation('c', fake_tf.TensorType(np.int32), fake_tf.TensorType(np.int32), fake_tf.SequenceType(np.str_))
  sel = plan_pb2.ExampleSelector()

  def context():
    federated_context.FederatedContext(s, address_family=socket.AF_INET)._server.server_close()

  for what, make in [('computation', lambda: federated_computation.FederatedComputation(comp, name=s)),
                     ('data source', lambda: federated_data_source.FederatedDataSource(s, sel)), ('context', context)]:
    try:
      make()
      got = True
    except ValueError:
      got = False
    equal(got, ok, 'name of a', what)


if __name__ == '__main__':
  sys.exit(pbt.main('P06', 'at least two invocations ran', [('programs', programs, 25000, 400000), ('naming', naming, 1000, 20000)], setup=setup))

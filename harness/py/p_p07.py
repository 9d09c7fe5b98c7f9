"""P07: the parts of a plan agree on what is called what."""
import collections
import os
import sys

import numpy as np

import demo_env
import fake_tf
import p_p06
import pbt
from demo_env import Bag
from fake_tf import FederatedType, Struct, StructType, TensorType
from p_p06 import leaves
from pbt import check, equal


def setup(scratch):
  demo_env.setup(scratch, ['tensorflow/core/framework/graph.proto', 'tensorflow/core/protobuf/config.proto',
                           'tensorflow_federated/proto/v0/computation.proto'])
  p_p06.link_artifact_building(scratch)
  global tf, tff, checkpoint_utils, data_spec, graph_helpers, plan_utils, proto_helpers, tensor_utils, variable_helpers
  global plan_pb2, computation_pb2, GraphDef, artifact_constants
  tf, tff = fake_tf.install()
  tff.__path__.append(os.path.join(scratch, 'py', 'tensorflow_federated'))
  import fcp.artifact_building
  demo_env.module('fcp.tensorflow.external_dataset', ExternalDataset=ExternalDataset)
  from fcp.artifact_building import artifact_constants
  from fcp.artifact_building import checkpoint_utils
  from fcp.artifact_building import data_spec
  from fcp.artifact_building import plan_utils
  from fcp.artifact_building import proto_helpers
  from fcp.artifact_building import tensor_utils
  from fcp.artifact_building import variable_helpers
  from fcp.protos import plan_pb2
  from tensorflow.core.framework.graph_pb2 import GraphDef
  from tensorflow_federated.proto.v0 import computation_pb2
  tff.tf_computation = tf_computation
  from fcp.artifact_building import graph_helpers


class ExternalDataset:

  def __init__(self, token, selector):
    self.token, self.selector = token, selector


NAMES = ['a', 'b', 'c', 'num', 'w_1', 'x', 'weights', '0', '10']


def gen_type(src, depth, federated=False):
  """Any structure: fields with and without a name, unknown sizes."""
  if depth == 0 or src.weighted([3, 3]) == 0:
    dtype = src.pick([np.int32, np.float32, np.int64, np.str_, np.bool_])
    return TensorType(dtype, [src.pick([1, 2, 3, None, 0]) for _ in range(src.small(0, 3))])
  n = src.weighted([1, 3, 3, 2, 1])
  names = src.shuffle(NAMES[:7])
  out = []
  for i in range(n):
    t = gen_type(src, depth - 1)
    if federated and src.flip():
      t = FederatedType(t, 'SERVER')
    out.append((names[i] if src.flip() else None, t))
  return StructType(out)


def strip(t):
  return strip(t.member) if isinstance(t, FederatedType) else StructType([(n, strip(x)) for n, x in fake_tf.to_elements(t)]) if isinstance(t, Struct) else t


def specs_text(specs, named=True):
  return [(s.name if named else None, s.dtype.np, s.shape._dims) for s in specs]


def want_specs(lv, named=True):
  return [(n if named else None, t.dtype, t.shape) for n, t in lv]


def bare(v):
  return v.name.split(':')[0]


def types(src, case):
  """Names, order and places of the tensors of a type."""
  fake_tf.VARIABLES.clear()
  fake_tf.FILES.clear()
  t = gen_type(src, 3, True)
  if src.chance(1, 5):
    t = FederatedType(strip(t), 'SERVER')
  plain = strip(t)
  name = src.pick(['server', 'update', 'v'])
  lv = leaves(plain, name)
  case.log(name, t)
  if len(lv) >= 2:
    case.nontrivial()
  names = [n for n, _ in lv]
  equal(variable_helpers.variable_names_from_type(t, name), names, 'names from the type')
  equal(specs_text(variable_helpers.get_flattened_tensor_specs(t, name)), want_specs(lv), 'specs')
  equal(specs_text(checkpoint_utils.tff_type_to_tensor_spec_list(t), False), want_specs(lv, False), 'spec list')
  equal([d.np for d in checkpoint_utils.tff_type_to_dtype_list(t)], [x.dtype for _, x in lv], 'dtypes')
  equal(variable_helpers.get_shared_secagg_tensor_names(name, t), ['sidechannel_%s:0' % n for n, _ in leaves(plain, 'secagg_%s_update' % name)],
        'side channel names')
  vs = variable_helpers.create_vars_for_tff_type(t, name)
  equal([bare(v) for v in vs], names, 'variables')
  for v, (n, x) in zip(vs, lv):
    free = tuple(None if d in (None, 0) else d for d in x.shape)
    equal((v.dtype.np, v.shape._dims), (x.dtype, free), 'variable', n)
    equal(v.initial_value, ('zeros', tuple(d or 0 for d in x.shape), fake_tf.as_dtype(x.dtype)), 'first value of', n)
    s = variable_helpers.tensorspec_from_var(v)
    equal((s.name, s.dtype.np, s.shape._dims), (n, x.dtype, free), 'spec of the variable', n)
  # Values go to their places.
  values = [fake_tf.Tensor(np.int32(i + 1)) for i in range(len(lv))]
  packed = checkpoint_utils.pack_tff_value(t, values)

  def look(p, ty, path):
    if isinstance(ty, TensorType):
      return [(path, p)]
    check(isinstance(p, Struct), 'not a structure at', path)
    equal([n for n, _ in fake_tf.to_elements(p)], [n for n, _ in fake_tf.to_elements(ty)], 'fields of', path)
    return [z for i, (n, x) in enumerate(fake_tf.to_elements(ty)) for z in look(p[i], x, '%s/%s' % (path, n or i))]

  equal([(n, v.value) for n, v in look(packed, plain, name)], [(n, v.value) for n, v in zip(names, values)], 'packed')
  equal(checkpoint_utils.variable_names_from_structure(packed, name), names, 'names from the structure')
  for extra in (values + values[:1], values[:-1]):
    if len(extra) != len(values):
      try:
        checkpoint_utils.pack_tff_value(t, extra)
        check(False, 'a wrong number of values is accepted')
      except ValueError:
        pass
  if not lv:
    return
  # Through a checkpoint.
  some = Struct([(None, v) for v in values]) if src.flip() else packed
  try:
    checkpoint_utils.save_tff_structure_to_checkpoint(some, names + names[:1], 'ram://c')
    check(False, 'a wrong number of names is accepted')
  except ValueError:
    pass
  checkpoint_utils.save_tff_structure_to_checkpoint(some, names, 'ram://c')
  order = src.shuffle(range(len(lv)))
  suffix = src.pick(['', ':0'])
  specs = [fake_tf.TensorSpec((), np.int32, names[i] + suffix) for i in order]
  got = checkpoint_utils.restore_tensors_from_savepoint(specs, 'ram://c')
  equal([g.value for g in got], [i + 1 for i in order], 'restored')
  try:
    checkpoint_utils.save_tff_structure_to_checkpoint(Struct([(None, object())]), ['x'], 'ram://d')
    check(False, 'an unknown value is accepted')
  except TypeError:
    pass


def saver_vars(name):
  check(name in fake_tf.SAVERS, 'no such saver:', name)
  s = fake_tf.SAVERS[name]
  return [bare(v) for v in s.var_list], s


def savers(src, case):
  """What a savepoint saves and restores."""
  fake_tf.VARIABLES.clear()
  fake_tf.SAVERS.clear()
  state, metrics = gen_type(src, 2), gen_type(src, 2) if src.flip() else None
  state = FederatedType(state, 'SERVER') if src.flip() else state
  write = src.flip()
  extra = [src.pick(['a/meta', 'zz']) for _ in range(src.draw(2))]
  made = []

  def more(s, m, w):
    equal([bare(v) for v in s], [n for n, _ in leaves(strip(state), 'server')], 'state variables for the metadata')
    equal(None if m is None else [bare(v) for v in m], None if metrics is None else [n for n, _ in leaves(metrics, 'metrics')], 'metric variables')
    equal(w, write, 'metrics are written')
    made.extend(tf.Variable(name=n, dtype=np.int32, shape=()) for n in extra)
    return made

  case.log(state, metrics, write, extra)
  sv, mv, xv, savepoint = checkpoint_utils.create_server_checkpoint_vars_and_savepoint(
      server_state_type=state, server_metrics_type=metrics, write_metrics_to_checkpoint=write, additional_checkpoint_metadata_var_fn=more if extra else None)
  s = [n for n, _ in leaves(strip(state), 'server')]
  m = [n for n, _ in leaves(metrics, 'metrics')] if metrics is not None else []
  equal(([bare(v) for v in sv], [bare(v) for v in mv], [bare(v) for v in xv]), (s, m, extra), 'variables')
  d = savepoint.saver_def
  saves = s + extra + (m if write else [])
  restored = d.restore_op_name.split('/')[0]
  saved = d.save_tensor_name.split('/')[0]
  equal(sorted(saver_vars(restored)[0]), sorted(s + extra), 'restored variables')
  equal(sorted(saver_vars(saved)[0]), sorted(saves), 'saved variables')
  for n in (restored, saved):
    equal(saver_vars(n)[0], sorted(saver_vars(n)[0]), 'order of the variables')
    equal(saver_vars(n)[1].write_version, tf.compat.v1.train.SaverDef.V1, 'version')
  if s and m:
    case.nontrivial()
  # A plain one.
  fake_tf.VARIABLES.clear()
  name = src.pick(['init', 'q'])
  vs, cp = checkpoint_utils.create_state_vars_and_savepoint(state, name)
  want = [n for n, _ in leaves(strip(state), name)]
  equal([bare(v) for v in vs], want, 'state variables')
  equal(saver_vars(cp.saver_def.save_tensor_name.split('/')[0])[0], sorted(want), 'saved state')
  by_name = {k: Bag(name=k) for k in src.shuffle(NAMES)[:4]}
  equal(list(checkpoint_utils.create_deterministic_saver(by_name, name='m').var_list.items()), sorted(by_name.items(), key=lambda x: x[0]), 'named variables')
  # Checkpoints are written and read by the names of the savepoint.
  ran = []
  sess = Bag(run=lambda what, feed: ran.append((what, feed)))
  cp = plan_pb2.CheckpointOp()
  for f, v in [('save_tensor_name', 's:0'), ('restore_op_name', 'r'), ('filename_tensor_name', 'f:0')]:
    if src.flip():
      setattr(cp.saver_def, f, v)
  plan_utils.write_checkpoint(sess, cp, 'file')
  plan_utils.read_checkpoint(sess, cp, 'file')
  feed = {cp.saver_def.filename_tensor_name: 'file'}
  equal(ran, [(x, feed) for x in (cp.saver_def.save_tensor_name, cp.saver_def.restore_op_name) if x], 'runs')


def aggregations(src, case):
  """The arguments and results of the aggregation are the tensors of the neighbouring steps."""
  # Unnamed at the upper levels, as the aggregation form has it.
  sides = [StructType([gen_type(src, 2) for _ in range(src.range(1, 3))]) for _ in range(2)]
  label = {0: 'intermediate_state', 1: 'update'}
  root = fake_tf.Block()

  def pick(side):
    """A selection somewhere inside."""
    path, t = [side], sides[side]
    sel = fake_tf.Selection(root, side, t)
    while True:
      if not isinstance(t, Struct) or not len(t) or any(n for n, _ in fake_tf.to_elements(t)):
        break
      if len(path) >= 2 and src.flip():
        break
      i = src.draw(len(t))
      t = t[i]
      sel = fake_tf.Selection(sel, i, t)
      path.append(i)
    at = '/'.join([label[side]] + [str(i) for i in path[1:]])
    return sel, leaves(t, at)

  calls, want_in, members = [], [], []
  for k in range(src.range(1, 4)):
    args = []
    for _ in range(src.range(1, 3)):
      parts = [pick(src.draw(2)) for _ in range(src.range(1, 3))]
      if len(parts) == 1 and src.flip():
        args.append((parts[0][0], parts[0][1]))
      elif len(parts) == 3:
        inner = fake_tf.BlockStruct([(None, p[0]) for p in parts[1:]])
        args.append((fake_tf.BlockStruct([('f', parts[0][0]), (None, inner)]), [x for p in parts for x in p[1]]))
      else:
        args.append((fake_tf.BlockStruct([(None, p[0]) for p in parts]), [x for p in parts for x in p[1]]))
    member = gen_type(src, 2)
    members.append(member)
    if len(args) > 1 or src.flip():
      arg, parameter = fake_tf.BlockStruct([(None, a[0]) for a in args]), StructType([TensorType(np.int32)] * len(args))
      want_in.append([want_specs(a[1]) for a in args])
    else:
      arg, parameter = args[0][0], FederatedType(TensorType(np.int32), 'CLIENTS')
      want_in.append([want_specs(args[0][1])])
    calls.append(('local%d' % k, fake_tf.Call(fake_tf.Intrinsic('sum', parameter), arg, FederatedType(member, 'SERVER'))))
  result = StructType([FederatedType(m, 'SERVER') for m in members])
  comp = Bag(result=Bag(locals=calls), type_signature=Bag(result=result))
  case.log(sides, members)
  if len(calls) >= 2:
    case.nontrivial()
  got = variable_helpers.get_grouped_input_tensor_specs_for_aggregations(comp, label)
  equal([[specs_text(a) for a in g] for g in got], want_in, 'inputs')
  got = variable_helpers.get_grouped_output_tensor_specs_for_aggregations(comp)
  # The same names the next step uses for its argument.
  equal([specs_text(g) for g in got], [want_specs(leaves(m, 'intermediate_update/0/%d' % i)) for i, m in enumerate(members)], 'outputs')
  only = {1 - src.draw(2): 'x'}
  used = {n.split('/')[0] for g in want_in for a in g for n, _, _ in a}
  try:
    variable_helpers.get_grouped_input_tensor_specs_for_aggregations(comp, only)
    check(used <= {label[k] for k in only}, 'an unknown argument is accepted')
  except ValueError:
    pass


def binding(src, depth, names, sequence_ok=True):
  b = computation_pb2.TensorFlow.Binding()
  k = src.weighted([3, 2 if sequence_ok else 0, 3 if depth else 0])
  if k == 2:
    b.struct.SetInParent()
    for _ in range(src.draw(4)):
      b.struct.element.append(binding(src, depth - 1, names, sequence_ok))
  else:
    n = 'n%d:%d' % (len(names), src.draw(3))
    names.append(n)
    if k == 0:
      b.tensor.tensor_name = n
    else:
      b.sequence.variant_tensor_name = n
  return b


def names_in(b):
  k = b.WhichOneof('binding')
  if k == 'tensor':
    return [b.tensor.tensor_name]
  if k == 'sequence':
    return [b.sequence.variant_tensor_name]
  return [n for e in b.struct.element for n in names_in(e)]


def gen_graph(src):
  g = GraphDef()
  n = src.range(1, 8)
  for i in range(n):
    node = g.node.add(name='k/n%d' % i if i % 3 == 2 else 'n%d' % i, op='Op')
    for _ in range(src.draw(3)):
      # A loop closes now and then.
      j = src.draw(n) if src.chance(1, 8) else src.draw(i) if i else None
      if j is not None and j != i:
        other = 'k/n%d' % j if j % 3 == 2 else 'n%d' % j
        node.input.append(src.pick([other, other + ':1', '^' + other]))
    if src.chance(1, 3):
      node.attr['shared_name'].s = src.pick([b'', b'v', b'w', b'v_1'])
    elif src.flip():
      node.attr['other'].s = b'o'
  return g


def ancestors(g, name):
  ins = {x.name: [i.lstrip('^').split(':')[0] for i in x.input] for x in g.node}
  seen, todo = set(), [name]
  while todo:
    x = todo.pop()
    if x not in seen:
      seen.add(x)
      todo.extend(ins[x])
  return seen


def check_control(before, after, init):
  anc = ancestors(before, init)
  equal([x.name for x in after.node], [x.name for x in before.node], 'nodes')
  for a, b in zip(after.node, before.node):
    ins = list(a.input)
    if b.name in anc:
      equal(ins, list(b.input), 'inputs of', b.name)
    else:
      check('^' + init in ins, b.name, 'does not wait for', init)
      equal([i for i in ins if i != '^' + init], [i for i in b.input if i != '^' + init], 'inputs of', b.name)
      equal(ins.count('^' + init), 1 if list(b.input).count('^' + init) < 2 else list(b.input).count('^' + init), 'control inputs of', b.name)


def graphs(src, case):
  """A computation is put into a larger graph."""
  fake_tf.IMPORTS.clear()
  g = gen_graph(src)
  init = src.pick([x.name for x in g.node])
  copy = GraphDef()
  copy.CopyFrom(g)
  after = graph_helpers.add_control_deps_for_init_op(g, src.pick([init, init + ':0', '^' + init]))
  equal(g, copy, 'the given graph')
  check_control(g, after, init)
  comp = computation_pb2.Computation()
  t = comp.tensorflow
  t.graph_def.Pack(g)
  names = []
  split_args = src.flip()
  if split_args:
    t.parameter.struct.SetInParent()
    for _ in range(src.range(1, 3)):
      t.parameter.struct.element.append(binding(src, 1, names))
  else:
    t.parameter.CopyFrom(binding(src, 2, names))
  split_out = src.flip()
  outs = []
  if split_out:
    t.result.struct.SetInParent()
    for _ in range(src.range(1, 3)):
      t.result.struct.element.append(binding(src, 2, outs))
  else:
    t.result.CopyFrom(binding(src, 2, outs))
  if src.flip():
    t.initialize_op = init
  if src.flip():
    t.session_token_tensor_name = 'token:0'
  count = [0]

  def args_for(b):
    out = []
    for n in names_in(b):
      count[0] += 1
      if b.WhichOneof('binding') == 'sequence':
        out.append(fake_tf.Tensor(name='d%d:0' % count[0], dtype=fake_tf.VARIANT, shape=()))
      elif src.flip():
        out.append(fake_tf.Tensor(name='t%d:0' % count[0], dtype=np.int32, shape=()))
      else:
        fake_tf.VARIABLES.clear()
        out.append(tf.Variable(name='v%d' % count[0], dtype=np.int32, shape=()))
    return out

  given = [args_for(b) for b in t.parameter.struct.element] if split_args else [args_for(t.parameter)]
  wanted = {}
  for n, v in zip(names, [x for a in given for x in a]):
    w = v.read_value() if isinstance(v, fake_tf.Variable) else v
    wanted[n] = w.name
    wanted['^' + n.split(':')[0]] = '^' + w.name.split(':')[0]
  use_args = not names or src.chance(4, 5)
  token = fake_tf.Tensor(name='tok:0', dtype=np.str_, shape=()) if src.flip() else None
  if not use_args:
    wanted = {}
  if token is not None and t.session_token_tensor_name:
    wanted['token:0'] = 'tok:0'
  name = src.pick(['work', 'data_0'])
  case.log('init', init, 'args', names, 'outs', outs)
  if len(names) >= 2 and len(outs) >= 2:
    case.nontrivial()
  res = graph_helpers.import_tensorflow(
      name, fake_tf.ConcreteComputation(comp), (tuple(given) if split_args else given[0]) if use_args else None, split_out, token)
  equal(len(fake_tf.IMPORTS), 1, 'imports')
  i = fake_tf.IMPORTS[0]
  equal(i.name, name, 'name')
  equal({k: v if isinstance(v, str) else v.name for k, v in (i.input_map or {}).items()}, wanted, 'inputs')
  all_names = ['%s/%s' % (name, n) for n in outs]
  if split_out:
    check(isinstance(res, tuple), 'not split')
    equal([[x.name for x in r] for r in res], [['%s/%s' % (name, n) for n in names_in(b)] for b in t.result.struct.element], 'results')
  else:
    equal([x.name for x in res], all_names, 'results')
  if t.initialize_op:
    check_control(g, i.graph_def, init)
  # State is kept apart from that of other imports and shared as before within.
  again = GraphDef()
  again.CopyFrom(i.graph_def)
  graph_helpers.import_tensorflow('other', fake_tf.ConcreteComputation(comp), (tuple(given) if split_args else given[0]) if use_args else None, split_out, token)
  second = fake_tf.IMPORTS[1].graph_def
  for a, b, c in zip(g.node, again.node, second.node):
    equal('shared_name' in b.attr, 'shared_name' in a.attr, 'shared name of', a.name)
    if 'shared_name' in a.attr:
      x, y, z = a.attr['shared_name'].s, b.attr['shared_name'].s, c.attr['shared_name'].s
      check(y and not y.startswith(b'_'), 'shared name', y)
      check(y != z, 'two imports share', y)
      for a2, b2 in zip(g.node, again.node):
        if 'shared_name' in a2.attr and x and a2.attr['shared_name'].s:
          equal(b2.attr['shared_name'].s == y, a2.attr['shared_name'].s == x, 'sharing of', a.name, 'and', a2.name)
    else:
      equal({k: v.s for k, v in b.attr.items()}, {k: v.s for k, v in a.attr.items()}, 'attributes of', a.name)
  unpacked = GraphDef()
  t.graph_def.Unpack(unpacked)
  equal(unpacked, copy, 'the graph of the computation')


DATASETS = []


def tf_computation(*types):
  """Traces the function once."""

  def wrap(fn):
    args = [fake_tf.Tensor(name='arg%d:0' % i, dtype=np.str_, shape=()) for i in range(len(types))]
    made = fn(*args)
    DATASETS.append(made)
    comp = computation_pb2.Computation()
    t = comp.tensorflow
    t.graph_def.Pack(GraphDef())
    if len(types) == 1:
      t.parameter.tensor.tensor_name = 'arg0:0'
    else:
      for i in range(len(types)):
        t.parameter.struct.element.add().tensor.tensor_name = 'arg%d:0' % i
    t.result.sequence.variant_tensor_name = 'out%d:0' % (len(DATASETS) - 1)
    kind = fake_tf.SequenceType(getattr(made, 'element', np.str_))
    return fake_tf.ConcreteComputation(comp, fake_tf.FunctionType(None, kind))

  return wrap


class MappedDataset(ExternalDataset):
  pass


def inputs(src, case):
  """Every data source of a computation gets its own selector."""
  DATASETS.clear()
  fake_tf.IMPORTS.clear()
  selectors = []

  def gen(depth):
    if depth == 0 or src.flip():
      s = plan_pb2.ExampleSelector(collection_uri='app:/%d' % len(selectors))
      element = np.str_
      fn = None
      if src.chance(1, 3):
        element = src.pick([np.int32, np.str_])

        def fn(ds, element=element):
          d = MappedDataset(ds.token, ds.selector)
          d.element = element
          return d

      selectors.append((s, fn))
      return data_spec.DataSpec(s, fn), fake_tf.SequenceType(element)
    items = [(k, gen(depth - 1)) for k in sorted(src.shuffle(NAMES[:7])[:src.range(1, 3)])]
    return {k: v[0] for k, v in items}, StructType([(k, v[1]) for k, v in items])

  ds, ty = gen(2)
  case.log(ty)
  if len(selectors) >= 2:
    case.nontrivial()
  check(data_spec.is_data_spec_or_structure(ds), 'not seen as a data spec')
  check(not data_spec.is_data_spec_or_structure({'a': ds, 'b': src.pick([None, 3, 'x'])}), 'seen as a data spec')
  want = [s.SerializeToString() for s, _ in selectors]
  equal(data_spec.generate_example_selector_bytes_list(ds), want, 'selectors')
  if src.flip():
    token, values, places = graph_helpers.embed_data_logic(ty, ds)
    equal(places, [], 'selectors left open')
    equal([d.selector for d in DATASETS], want, 'selectors of the data sources')
    equal([type(d) for d in DATASETS], [MappedDataset if f else ExternalDataset for _, f in selectors], 'preprocessing')
  else:
    plain = all(f is None for _, f in selectors)
    try:
      token, values, places = graph_helpers.embed_data_logic(ty)
    except TypeError:
      check(not plain and any(f and f(ExternalDataset(0, 0)).element is not np.str_ for _, f in selectors), 'refused')
      return
    index = {}

    def paths(t, at):
      if not isinstance(t, Struct):
        return ['example_selector' + at]
      return [p for i, x in enumerate(t) for p in paths(x, '%s_%d' % (at, i))]

    equal([p.name for p in places], [p + ':0' for p in paths(ty, '')], 'places of the selectors')
    for k, i in enumerate(fake_tf.IMPORTS):
      equal(i.input_map['arg1:0'].name, places[k].name, 'selector of source', k)
  equal(token.name, 'data_token:0', 'token')
  equal(len(values), len(selectors), 'data sources')
  equal([v.name for v in values], ['data_%d/out%d:0' % (i, i) for i in range(len(selectors))], 'results')
  for i in fake_tf.IMPORTS:
    equal(i.input_map['arg0:0'].name, token.name, 'token of a source')
  wrong = {'zz': ds} if isinstance(ds, data_spec.DataSpec) else dict(ds, zz=data_spec.DataSpec(plan_pb2.ExampleSelector()))
  for x in (wrong, data_spec.DataSpec(plan_pb2.ExampleSelector()) if isinstance(ty, Struct) else wrong):
    try:
      graph_helpers.make_data_sources_with_dataspec(ty, x)
      check(False, 'a data spec of another structure is accepted')
    except TypeError:
      pass


def conversions(src, case):
  """A plan is converted as a whole or not at all."""
  g = GraphDef()
  g.node.add(name='client')
  spec = plan_pb2.TensorflowSpec(dataset_token_tensor_name=src.pick(['', 'data_token:0']))
  for i in range(src.draw(3)):
    t = spec.input_tensor_specs.add(name='in%d:0' % i)
    for _ in range(src.draw(3)):
      t.shape.dim.add(size=src.range(1, 3))
  for i in range(src.draw(3)):
    spec.output_tensor_specs.add(name='out%d:0' % i)
  for i in range(src.draw(3)):
    spec.target_node_names.append('target%d' % i)
  retry = "'tf.StatefulPartitionedCall' op is neither a custom op nor a flex op"
  failures = [src.pick([None, 'x', retry]) for _ in range(3)]
  tries = []

  def convert(c):
    tries.append(c)
    e = failures[len(tries) - 1]
    if e:
      raise ValueError('failed: ' + e)
    return b'lite'

  fake_tf.Converter.convert_with = convert
  whole = src.flip()
  if whole:
    plan = plan_pb2.Plan()
    plan.client_graph_bytes.Pack(g)
    plan.phase.add().client_phase.tensorflow_spec.CopyFrom(spec)
  else:
    plan = plan_pb2.ClientOnlyPlan(graph=g.SerializeToString())
    plan.phase.tensorflow_spec.CopyFrom(spec)
  case.log(whole, failures)
  want_tries = 2 if failures[0] == retry else 1
  fails = failures[want_tries - 1] is not None
  if want_tries == 2:
    case.nontrivial()
  before = plan.SerializeToString()
  try:
    got = plan_utils.generate_and_add_flat_buffer_to_plan(plan)
    check(not fails, 'a failure is not reported')
    equal(got.client_tflite_graph_bytes if whole else got.tflite_graph, b'lite', 'converted graph')
    check(not got.HasField('client_graph_bytes') if whole else not got.graph, 'the graph is kept')
    equal(got.phase[0].client_phase.tensorflow_spec if whole else got.phase.tensorflow_spec, spec, 'description')
  except RuntimeError:
    check(fails, 'fails')
    equal(plan.SerializeToString(), before, 'a plan that was not converted')
  equal(len(tries), want_tries, 'tries')
  for k, c in enumerate(tries):
    equal(c.graph_def, g, 'graph')
    equal([(n, list(s)) for n, s in c.inputs], [(spec.dataset_token_tensor_name, [])] + [(t.name, [d.size for d in t.shape.dim]) for t in spec.input_tensor_specs], 'inputs')
    equal(list(c.outputs), [t.name for t in spec.output_tensor_specs], 'outputs')
    equal(list(c._control_output_arrays), list(spec.target_node_names), 'targets')
    equal(c._experimental_guarantee_all_funcs_one_use, k == 1, 'functions are used once')


def messages(src, case):
  """Descriptions of tensors."""
  dims = lambda: [src.pick([1, 2, None]) for _ in range(src.draw(3))]
  t = fake_tf.Tensor(name=src.pick(['a:0', 'm/b:0', 'm/n/c:1']), dtype=src.pick([np.int32, np.float32]), shape=dims())
  hint = fake_tf.TensorShape(dims()) if src.flip() else None
  case.log(t.name, t.shape, hint)
  known = all(d is not None for d in t.shape)
  if hint is not None and not known:
    case.nontrivial()
  try:
    s = proto_helpers.make_tensor_spec_from_tensor(t, hint)
    want = t.shape if known or hint is None else hint
    check(known or hint is None or t.shape.is_compatible_with(hint), 'a wrong hint is accepted')
    equal((s.name, s.dtype, s.shape), (t.name, t.dtype, want), 'spec')
  except TypeError:
    check(hint is not None and not known and not t.shape.is_compatible_with(hint), 'refused')
  ty = TensorType(src.pick([np.int32, np.float32]), dims())
  ok = ty.dtype == t.dtype.np and not (known and None not in ty.shape and ty.shape != t.shape._dims)
  try:
    m = proto_helpers.make_measurement(t, 'stat', ty)
    check(ok, 'a measurement of another type is accepted')
    equal((m.read_op_name, m.name, m.tff_type), (t.name, 'stat', repr(ty).encode()), 'measurement')
  except ValueError:
    check(not ok, 'a measurement is refused')
  fake_tf.VARIABLES.clear()
  n = src.pick(['loss', 'server/loss', 'server/a/b', 'x/'])
  v = tf.Variable(name=n, dtype=np.int32, shape=())
  try:
    m = proto_helpers.make_metric(v, 'pre')
    check('/' in n, 'a metric without a prefix is accepted')
    equal((m.variable_name, m.stat_name), (v.read_value().name, 'pre/' + n.split('/', 1)[1]), 'metric')
  except ValueError:
    check('/' not in n, 'a metric is refused')
  base = src.pick(['a', 'a/b', 'x_1'])
  for x in (base, base + ':0', '^' + base, base + ':12', Bag(name=base + ':0')):
    equal(tensor_utils.bare_name(x), base, 'bare name')
  # A tensor is restored whole, whatever is known of its shape.
  shape = [src.range(1, 3) for _ in range(src.draw(3))]
  value = np.arange(int(np.prod(shape, dtype=int)), dtype=np.int32).reshape(shape)
  fake_tf.FILES.clear()
  tensor_utils.save('ram://f', ['q', 'p'], [fake_tf.Tensor(value), fake_tf.Tensor(value + 1)])
  got = tensor_utils.restore('ram://f', 'p', np.int32, fake_tf.TensorShape(shape) if src.flip() else None)
  check(np.array_equal(got.value, value + 1), 'restored', got)


if __name__ == '__main__':
  sys.exit(pbt.main('P07', 'a structure with at least two tensors, selections, sources or results, or a second try', [
      ('types', types, 40000, 400000), ('savers', savers, 20000, 100000), ('aggregations', aggregations, 20000, 100000), ('graphs', graphs, 40000, 400000),
      ('inputs', inputs, 20000, 100000), ('conversions', conversions, 4000, 20000), ('messages', messages, 10000, 50000)], setup=setup))

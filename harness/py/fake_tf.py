"""Stand-ins for the parts of TensorFlow and of its federated library the artifact code uses.

Only what can be told from their documentation: types, structures, named
tensors and checkpoints. Nothing is computed.
"""
import collections
import contextlib
import pickle

import attr
import numpy as np

from demo_env import Bag
from demo_env import module


# Structures.
class Struct:

  def __init__(self, elements):
    self._elements = [(n, v) for n, v in elements]

  def __len__(self):
    return len(self._elements)

  def __iter__(self):
    return iter([v for _, v in self._elements])

  def __getitem__(self, key):
    if isinstance(key, str):
      return dict(self._elements)[key]
    if isinstance(key, slice):
      return tuple(v for _, v in self._elements[key])
    return self._elements[key][1]

  def __getattr__(self, name):
    for n, v in object.__getattribute__(self, '_elements'):
      if n == name:
        return v
    raise AttributeError(name)

  def __eq__(self, other):
    return type(self) is type(other) and self._elements == other._elements

  def __hash__(self):
    return hash(tuple(self._elements))

  def __repr__(self):
    return '<%s>' % ','.join(('%s=%r' % (n, v)) if n else repr(v) for n, v in self._elements)


def to_elements(s):
  return list(s._elements)


def iter_elements(s):
  return iter(s._elements)


def flatten(s):
  if isinstance(s, Struct):
    return [x for v in s for x in flatten(v)]
  return [s]


def _pack(s, flat):
  if isinstance(s, Struct):
    return Struct([(n, _pack(v, flat)) for n, v in s._elements])
  return flat.pop(0)


def pack_sequence_as(s, flat):
  flat = list(flat)
  want = len(flatten(s))
  if len(flat) != want:
    raise ValueError('%d values for a structure of %d' % (len(flat), want))
  return _pack(s, flat)


def map_structure(fn, *s):
  return pack_sequence_as(s[0], [fn(*x) for x in zip(*[flatten(y) for y in s])])


def from_container(value, recursive=False):
  """Python containers become structures."""

  def convert(x, must):
    if isinstance(x, Struct):
      return Struct([(n, convert(v, False)) for n, v in x._elements]) if recursive else x
    if attr.has(type(x)):
      items = [(a.name, getattr(x, a.name)) for a in attr.fields(type(x))]
    elif isinstance(x, tuple) and hasattr(x, '_asdict'):
      items = list(x._asdict().items())
    elif isinstance(x, collections.abc.Mapping):
      items = list(x.items()) if isinstance(x, collections.OrderedDict) else sorted(x.items())
    elif isinstance(x, (list, tuple)):
      items = [(None, v) for v in x]
    elif must:
      raise TypeError('not a container: %r' % type(x))
    else:
      return x
    return Struct([(n, convert(v, False) if recursive else v) for n, v in items])

  return convert(value, True)


# Types.
class Type:
  pass


def np_type(x):
  if isinstance(x, DType):
    return x.np
  if x in (str, bytes, np.str_, np.bytes_, np.object_):
    return np.str_
  return np.dtype(x).type


class TensorType(Type):

  def __init__(self, dtype, shape=()):
    self.dtype = np_type(dtype)
    self.shape = None if shape is None else tuple(shape)

  def __eq__(self, o):
    return type(o) is TensorType and (o.dtype, o.shape) == (self.dtype, self.shape)

  def __hash__(self):
    return hash((self.dtype, self.shape))

  def is_assignable_from(self, o):
    return (isinstance(o, TensorType) and o.dtype == self.dtype and len(o.shape) == len(self.shape) and
            all(a is None or a == b for a, b in zip(self.shape, o.shape)))

  def __repr__(self):
    return '%s%s' % (self.dtype.__name__, list(self.shape) if self.shape else '')


class SequenceType(Type):

  def __init__(self, element):
    self.element = to_type(element)

  def __eq__(self, o):
    return type(o) is SequenceType and o.element == self.element

  def __hash__(self):
    return hash(('seq', self.element))

  def is_assignable_from(self, o):
    return isinstance(o, SequenceType) and self.element.is_assignable_from(o.element)

  def __repr__(self):
    return '%r*' % self.element


class StructType(Struct, Type):

  def __init__(self, elements):
    super().__init__([x if isinstance(x, tuple) and len(x) == 2 and (x[0] is None or isinstance(x[0], str)) else (None, x) for x in elements])
    self._elements = [(n, to_type(v)) for n, v in self._elements]

  def is_assignable_from(self, o):
    return (isinstance(o, StructType) and [n for n, _ in o._elements] == [n for n, _ in self._elements] and
            all(a.is_assignable_from(b) for a, b in zip(self, o)))


class FederatedType(Type):

  def __init__(self, member, placement, all_equal=None):
    self.member, self.placement = to_type(member), placement

  def __eq__(self, o):
    return type(o) is FederatedType and (o.member, o.placement) == (self.member, self.placement)

  def __hash__(self):
    return hash((self.member, self.placement))

  def __repr__(self):
    return '%r@%s' % (self.member, self.placement)


class FunctionType(Type):

  def __init__(self, parameter, result):
    self.parameter, self.result = parameter, result


def to_type(x):
  if isinstance(x, Type):
    return x
  if isinstance(x, tuple) and len(x) == 2 and not isinstance(x[0], (tuple, Type)):
    return TensorType(*x)
  return TensorType(x)


def type_to_py_container(value, t):
  if isinstance(t, FederatedType):
    t = t.member
  if not isinstance(t, StructType) or not isinstance(value, Struct):
    return value
  items = [(n, type_to_py_container(v, x)) for (n, v), x in zip(value._elements, t)]
  if all(n is None for n, _ in items):
    return tuple(v for _, v in items)
  if all(n is not None for n, _ in items):
    return collections.OrderedDict(items)
  return Struct(items)


# Tensors.
class DType:

  def __init__(self, name, np_, num):
    self.name, self.np, self.as_datatype_enum = name, np_, num
    self.as_numpy_dtype = np_

  def __eq__(self, o):
    try:
      return self.np == np_type(o)
    except TypeError:
      return False

  def __hash__(self):
    return hash(self.name)

  def __repr__(self):
    return 'tf.' + self.name


DTYPES = {n: DType(n, t, k) for n, t, k in [('float32', np.float32, 1), ('float64', np.float64, 2), ('int32', np.int32, 3), ('string', np.str_, 7),
                                            ('int64', np.int64, 9), ('bool', np.bool_, 10), ('uint64', np.uint64, 23)]}


class Variant:
  pass


VARIANT = DType('variant', Variant, 21)


def as_dtype(x):
  if isinstance(x, DType):
    return x
  t = np_type(x)
  for d in DTYPES.values():
    if d.np == t:
      return d
  raise TypeError('no such type: %r' % (x,))


class TensorShape:

  def __init__(self, dims):
    self._dims = dims._dims if isinstance(dims, TensorShape) else None if dims is None else tuple(dims)

  @property
  def rank(self):
    return None if self._dims is None else len(self._dims)

  def is_fully_defined(self):
    return self._dims is not None and all(d is not None for d in self._dims)

  def is_compatible_with(self, other):
    other = TensorShape(other)
    if self._dims is None or other._dims is None:
      return True
    return len(self._dims) == len(other._dims) and all(a is None or b is None or a == b for a, b in zip(self._dims, other._dims))

  def as_list(self):
    if self._dims is None:
      raise ValueError('unknown rank')
    return list(self._dims)

  def __iter__(self):
    return iter(self._dims)

  def __len__(self):
    return len(self._dims)

  def __eq__(self, o):
    try:
      return TensorShape(o)._dims == self._dims
    except TypeError:
      return False

  def __hash__(self):
    return hash(self._dims)

  def __repr__(self):
    return 'TensorShape(%r)' % (self._dims,)


def dtype_of(value):
  a = np.asarray(value)
  if a.dtype.kind in 'SUO':
    return DTYPES['string']
  return as_dtype(a.dtype.type)


class Tensor:
  """A value, or the name of one in a graph."""

  def __init__(self, value=None, name=None, dtype=None, shape=None):
    self.value, self._name = value, name
    if value is not None:
      dtype, shape = dtype_of(value), np.shape(value)
    self.dtype, self.shape = as_dtype(dtype) if dtype is not VARIANT else dtype, TensorShape(shape)

  @property
  def name(self):
    if self._name is None:
      raise AttributeError('no name in eager mode')
    return self._name

  def numpy(self):
    if self.value is None:
      raise AttributeError('numpy')
    return self.value

  def __repr__(self):
    return 'Tensor(%r)' % (self._name if self.value is None else self.value,)


class Variable:

  def __init__(self, initial_value=None, name=None, dtype=None, shape=None, **kwargs):
    self.initial_value, self.kwargs = initial_value, kwargs
    base = '/'.join(SCOPES + [name])
    n, k = base, 0
    while n in VARIABLES:
      k += 1
      n = '%s_%d' % (base, k)
    VARIABLES.add(n)
    self.name = n + ':0'
    self.dtype, self.shape = as_dtype(dtype), TensorShape(shape)

  def read_value(self):
    return Tensor(name=self.name[:-2] + '/Read/ReadVariableOp:0', dtype=self.dtype, shape=self.shape)


SCOPES = []
VARIABLES = set()


@contextlib.contextmanager
def variable_scope(name):
  SCOPES.append(name)
  try:
    yield
  finally:
    SCOPES.pop()


def convert_to_tensor(x, dtype=None):
  if isinstance(x, Tensor):
    return x
  if isinstance(x, bool):
    x = np.bool_(x)
  elif isinstance(x, int):
    x = np.int32(x)
  elif isinstance(x, float):
    x = np.float32(x)
  elif isinstance(x, str):
    x = x.encode()
  return Tensor(x)


# Files in memory.
FILES = {}


class GFile:

  def __init__(self, path, mode='r'):
    if not path.startswith('ram://'):
      raise ValueError('not in memory: ' + path)
    self._path, self._mode = path, mode
    if 'w' in mode:
      FILES[path] = b''
    elif path not in FILES:
      raise FileNotFoundError(path)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def close(self):
    pass

  def read(self):
    return FILES[self._path]

  def write(self, data):
    FILES[self._path] += data


def remove(path):
  del FILES[path]


def checkpoint(values):
  """The content of a checkpoint with these tensors."""
  return pickle.dumps({k: convert_to_tensor(v).numpy() for k, v in values.items()})


def read_checkpoint(data):
  return pickle.loads(data)


def SaveSlices(filename, tensor_names, shapes_and_slices, data, name=None):
  if not len(tensor_names) == len(shapes_and_slices) == len(data):
    raise ValueError('lengths differ')
  if any(shapes_and_slices):
    raise ValueError('not a whole tensor')
  if len(set(tensor_names)) != len(tensor_names):
    raise ValueError('repeated name')
  FILES[filename] = checkpoint(dict(zip(tensor_names, data)))


def RestoreV2(prefix, tensor_names, shape_and_slices, dtypes, name=None):
  if prefix not in FILES:
    raise FileNotFoundError(prefix)
  have = read_checkpoint(FILES[prefix])
  out = []
  for n, s, d in zip(tensor_names, shape_and_slices, dtypes):
    if n not in have:
      raise KeyError(n)
    t = Tensor(have[n])
    if t.dtype != as_dtype(d):
      raise TypeError('%s is %r, not %r' % (n, t.dtype, d))
    if s:
      dims, _, what = s.rpartition(' ')
      if [int(x) for x in dims.split(' ')] != t.shape.as_list() or what.split(':') != [''] + ['-'] * t.shape.rank:
        raise ValueError('slice %r of %r' % (s, t.shape))
    out.append(t)
  return out


class ContextStack:

  def __init__(self):
    self.current = None

  @contextlib.contextmanager
  def install(self, ctx):
    old, self.current = self.current, ctx
    try:
      yield
    finally:
      self.current = old


def tree_flatten(x):
  if attr.has(type(x)):
    return [y for a in attr.fields(type(x)) for y in tree_flatten(getattr(x, a.name))]
  if isinstance(x, collections.abc.Mapping):
    return [y for k in sorted(x) for y in tree_flatten(x[k])]
  if isinstance(x, (list, tuple)):
    return [y for v in x for y in tree_flatten(v)]
  return [x]


def tree_map(fn, x):
  if isinstance(x, collections.abc.Mapping):
    return {k: tree_map(fn, v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [tree_map(fn, v) for v in x]
  return fn(x)


class Converter:
  """Stands in for the converter of graphs; what it does is set from outside."""

  convert_with = None

  class TargetSpec:
    pass

  def __init__(self, graph_def, input_tensors, output_tensors, input_arrays_with_shape=None, output_arrays=None):
    self.graph_def, self.inputs, self.outputs = graph_def, input_arrays_with_shape, output_arrays
    self.target_spec = Converter.TargetSpec()

  def convert(self):
    return Converter.convert_with(self)


class TensorSpec:

  def __init__(self, shape, dtype=None, name=None):
    self.shape, self.dtype, self.name = TensorShape(shape), as_dtype(dtype), name

  def __eq__(self, o):
    return isinstance(o, TensorSpec) and (o.shape, o.dtype, o.name) == (self.shape, self.dtype, self.name)

  def __repr__(self):
    return 'TensorSpec(%s, %r, %r)' % (self.shape, self.dtype, self.name)


def install():
  """Adds everything to the packages made by demo_env."""
  import tensorflow as tf
  from tensorflow.core.framework import graph_pb2
  from tensorflow.core.protobuf import config_pb2
  from tensorflow.core.protobuf import saver_pb2
  for d in DTYPES.values():
    setattr(tf, d.name, d)
  tf.double = DTYPES['float64']
  tf.variant = VARIANT
  tf.dtypes = Bag(as_dtype=as_dtype, DType=DType)
  tf.as_dtype, tf.DType, tf.TensorShape, tf.TensorSpec = as_dtype, DType, TensorShape, TensorSpec
  tf.Tensor, tf.Variable, tf.Operation = Tensor, Variable, object
  tf.is_tensor = lambda x: isinstance(x, (Tensor, Variable))
  tf.convert_to_tensor = convert_to_tensor
  tf.zeros = lambda shape, dtype: ('zeros', tuple(shape), as_dtype(dtype))
  tf.io = Bag(gfile=Bag(GFile=GFile, remove=remove, exists=lambda p: p in FILES))
  tf.raw_ops = Bag(SaveSlices=SaveSlices, RestoreV2=RestoreV2)
  tf.nest = Bag(map_structure=tree_map)
  tf.Graph = Bag
  tf.function = lambda f=None, **k: f if f else (lambda g: g)

  class Dataset:
    pass

  tf.data = Bag(Dataset=Dataset)
  tf.lite = Bag(OpsSet=Bag(TFLITE_BUILTINS='TFLITE_BUILTINS', SELECT_TF_OPS='SELECT_TF_OPS'))
  tf.compat = Bag(
      v1=Bag(GraphDef=graph_pb2.GraphDef, ConfigProto=config_pb2.ConfigProto, variable_scope=variable_scope, Session=object,
             lite=Bag(TFLiteConverter=Converter), data=tf.data, train=Bag(Saver=Saver, SaverDef=saver_pb2.SaverDef),
             placeholder=lambda dtype, shape, name: Tensor(name=name + ':0', dtype=dtype, shape=shape)),
      v2=Bag(data=tf.data))
  tf.graph_util = Bag(import_graph_def=lambda *a, **k: imported(*a, **k))
  stack = ContextStack()
  plain = lambda name: type(name, (), {})
  tff = module('tensorflow_federated')
  for k, v in dict(
      Type=Type, TensorType=TensorType, StructType=StructType, FederatedType=FederatedType, SequenceType=SequenceType,
      FunctionType=FunctionType, SERVER='SERVER', CLIENTS='CLIENTS', to_type=to_type, Computation=plain('Computation'),
      tf_computation=None,
      structure=Bag(Struct=Struct, to_elements=to_elements, iter_elements=iter_elements, flatten=flatten, pack_sequence_as=pack_sequence_as,
                    map_structure=map_structure, from_container=from_container),
      types=Bag(tensorflow_to_type=to_type, type_to_py_container=type_to_py_container, TensorType=TensorType,
                is_shape_fully_defined=lambda s: s is not None and all(d is not None for d in s),
                serialize_type=lambda t: Bag(SerializeToString=lambda: repr(t).encode()),
                type_mismatch_error_message=lambda *a: 'mismatch', TypeRelation=Bag(ASSIGNABLE=1)),
      program=Bag(FederatedContext=plain('FederatedContext'), MaterializableValueReference=plain('MaterializableValueReference'),
                  MaterializableValue=object, MaterializedValue=object, FederatedDataSource=plain('FederatedDataSource'),
                  FederatedDataSourceIterator=plain('FederatedDataSourceIterator')),
      framework=Bag(get_context_stack=lambda: stack, SyncContext=plain('SyncContext'), ComputationBuildingBlock=Block, Selection=Selection,
                    Struct=BlockStruct, Call=Call, Intrinsic=Intrinsic, ConcreteComputation=ConcreteComputation),
      backends=Bag(mapreduce=Bag(
          check_computation_compatible_with_map_reduce_form=lambda c: None, DistributeAggregateForm=object, MapReduceForm=object,
          get_distribute_aggregate_form_for_computation=lambda c: ('form', c)))).items():
    setattr(tff, k, v)
  module('tree', flatten=tree_flatten, map_structure=tree_map)
  return tf, tff


# What graphs are put together from.
def imported(graph_def, input_map=None, return_elements=None, name=None):
  IMPORTS.append(Bag(graph_def=graph_def, input_map=input_map, return_elements=return_elements, name=name))
  return [Tensor(name='%s/%s' % (name, n), dtype=VARIANT, shape=()) for n in return_elements]


IMPORTS = []


class Saver:
  """Records what it was made of."""

  def __init__(self, var_list, name=None, write_version=None, **kw):
    self.var_list, self.name, self.write_version = var_list, name, write_version

  def as_saver_def(self):
    from tensorflow.core.protobuf import saver_pb2
    SAVERS[self.name] = self
    return saver_pb2.SaverDef(filename_tensor_name=self.name + '/Const:0', save_tensor_name=self.name + '/control_dependency:0',
                              restore_op_name=self.name + '/restore_all', version=self.write_version)


SAVERS = {}


class Block:
  type_signature = None


class Selection(Block):

  def __init__(self, source, index, type_signature=None):
    self.source, self.index, self.type_signature = source, index, type_signature


class BlockStruct(Block, Struct):

  def children(self):
    return iter(self)


class Call(Block):

  def __init__(self, function, argument, type_signature):
    self.function, self.argument, self.type_signature = function, argument, type_signature


class Intrinsic(Block):

  def __init__(self, uri, parameter):
    self.uri, self._parameter = uri, parameter

  def intrinsic_def(self):
    return Bag(aggregation_kind='sum', type_signature=Bag(parameter=self._parameter))


class ConcreteComputation:

  def __init__(self, proto, type_signature=None):
    self.proto, self.type_signature = proto, type_signature

  @staticmethod
  def get_proto(c):
    return c.proto

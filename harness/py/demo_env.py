"""Makes the demo server's modules importable from the working tree.

The third-party packages the sandbox lacks are replaced by stand-ins.
"""
import http.server
import io
import os
import re
import subprocess
import sys
import types
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
SITE = '/opt/fcp/pyvenv/lib/python3.12/site-packages'
PY = '/opt/fcp/pyvenv/bin/python'


def setup(scratch, protos=()):
  """Generates the messages and puts everything on the path."""
  gen = os.path.join(scratch, 'py')
  demo = os.path.join(gen, 'fcp', 'demo')
  os.makedirs(demo)
  names = ['fcp/protos/federatedcompute/' + f for f in sorted(os.listdir(REPO + '/fcp/protos/federatedcompute')) if f.endswith('.proto')]
  names += ['fcp/protos/plan.proto', 'fcp/protos/population_eligibility_spec.proto']
  for n in names:
    # The imports come along.
    for line in open(os.path.join(REPO, n)):
      m = re.match(r'import (?:public )?"(fcp/.*)";', line)
      if m and m.group(1) not in names:
        names.append(m.group(1))
  own = os.path.join(HERE, '..', '..', 'shim', 'protos')
  tf = ['tensorflow/core/protobuf/saver.proto', 'tensorflow/core/protobuf/struct.proto', 'tensorflow/core/framework/types.proto',
        'tensorflow/core/framework/tensor_shape.proto', 'tensorflow/core/framework/tensor.proto']
  subprocess.run([PY, '-B', '-m', 'grpc_tools.protoc', '-I' + REPO, '-I' + own, '-I' + os.path.join(HERE, 'protos'), '-I' + SITE, '--python_out=' + gen] +
                 names + tf + list(protos), check=True, stderr=subprocess.DEVNULL)
  for f in os.listdir(REPO + '/fcp/demo'):
    # The package imports all of the stack; its modules are taken one by one.
    if f.endswith('.py') and f != '__init__.py' and not f.endswith('_test.py'):
      os.symlink(os.path.join(REPO, 'fcp', 'demo', f), os.path.join(demo, f))
  sys.dont_write_bytecode = True
  sys.path[:0] = [gen]
  sys.path.append(SITE)
  warnings.simplefilter('ignore')
  import absl.logging
  absl.logging.set_verbosity(absl.logging.FATAL)
  install_stubs()


class StatusCode:
  """Stands in for the enum of the status bindings."""
  names = ['OK', 'CANCELLED', 'UNKNOWN', 'INVALID_ARGUMENT', 'DEADLINE_EXCEEDED', 'NOT_FOUND', 'ALREADY_EXISTS', 'PERMISSION_DENIED',
           'RESOURCE_EXHAUSTED', 'FAILED_PRECONDITION', 'ABORTED', 'OUT_OF_RANGE', 'UNIMPLEMENTED', 'INTERNAL', 'UNAVAILABLE', 'DATA_LOSS',
           'UNAUTHENTICATED']

  def __init__(self, value):
    self.value = value

  def __eq__(self, other):
    return (other.value if isinstance(other, StatusCode) else other) == self.value

  def __hash__(self):
    return hash(self.value)

  def __int__(self):
    return self.value


for _i, _n in enumerate(StatusCode.names):
  setattr(StatusCode, _n, StatusCode(_i))


class Status:

  def __init__(self, code, message):
    self._code, self._message = code, message

  @staticmethod
  def OkStatus():
    return Status(StatusCode.OK, '')

  def code(self):
    return self._code

  def raw_code(self):
    return self._code.value

  def message(self):
    return self._message

  def ok(self):
    return self._code.value == 0


class StatusNotOk(Exception):

  def __init__(self, status):
    super().__init__(status.message())
    self.status = status

  @property
  def code(self):
    return self.status.code()


def bad(code, message='no'):
  return StatusNotOk(Status(code, message))


class Bag:
  """A message stand-in: any field."""

  def __init__(self, **kw):
    self.__dict__.update(kw)

  def __eq__(self, other):
    return isinstance(other, Bag) and self.__dict__ == other.__dict__

  def __repr__(self):
    return 'Bag(%s)' % ', '.join('%s=%r' % x for x in sorted(self.__dict__.items()))


def module(name, **kw):
  parts = name.split('.')
  for i in range(1, len(parts) + 1):
    n = '.'.join(parts[:i])
    if n not in sys.modules:
      m = types.ModuleType(n)
      m.__path__ = []
      sys.modules[n] = m
      if i > 1:
        setattr(sys.modules['.'.join(parts[:i - 1])], parts[i - 1], m)
  for k, v in kw.items():
    setattr(sys.modules[name], k, v)
  return sys.modules[name]


protocols = Bag(make=None)  # make: called with a configuration


def install_stubs():
  status = module('pybind11_abseil.status', Status=Status, StatusCode=StatusCode, StatusNotOk=StatusNotOk,
                  invalid_argument_error=lambda m: Status(StatusCode.INVALID_ARGUMENT, m),
                  internal_error=lambda m: Status(StatusCode.INTERNAL, m),
                  StatusCodeFromInt=lambda i: StatusCode(i if 0 <= i <= 16 else 2))
  sys.modules['pybind11_abseil'].status = status
  # Only the numbers of the types matter.
  dtypes = {'float32': 1, 'double': 2, 'int32': 3, 'string': 7, 'int64': 9, 'uint64': 23}
  # The generated messages live below this package, which has no other content.
  import tensorflow
  for k, v in dtypes.items():
    setattr(tensorflow, k, v)
  tensorflow.dtypes = Bag(as_dtype=lambda x: int(x))

  class DataType:
    DT_FLOAT, DT_DOUBLE, DT_INT32, DT_STRING, DT_INT64, DT_UINT64 = 1, 2, 3, 7, 9, 23

  def spec(name=''):
    return Bag(name=name, shape=Bag(dim_sizes=[]), dtype=0)

  def config(intrinsic_configs=()):
    return Bag(intrinsic_configs=list(intrinsic_configs))

  config.IntrinsicConfig = lambda **kw: Bag(**kw)
  config.IntrinsicConfig.IntrinsicArg = lambda **kw: Bag(**kw)

  def client_message(**kw):
    return Bag(**kw)

  client_message.SimpleAggregation = lambda **kw: Bag(**kw)
  base = 'tensorflow_federated.cc.core.impl.aggregation.'
  module(base + 'core')
  module(base + 'core.tensor_pb2', TensorSpecProto=spec, DataType=DataType)
  module(base + 'protocol')
  module(base + 'protocol.aggregation_protocol_messages_pb2', ClientMessage=client_message, ClientResource=lambda **kw: Bag(**kw))
  module(base + 'protocol.configuration_pb2', Configuration=config)
  module(base + 'protocol.python')
  module(base + 'protocol.python.aggregation_protocol', AggregationProtocol=object)
  module(base + 'tensorflow.python')
  module(base + 'tensorflow.python.aggregation_protocols', create_simple_aggregation_protocol=lambda c: protocols.make(c))


class Socket:
  """A connection that holds one request."""

  def __init__(self, data):
    self._in = io.BytesIO(data)
    self.out = io.BytesIO()

  def makefile(self, mode, *_):
    return self._in

  def sendall(self, data):
    self.out.write(data)

  def __getattr__(self, name):
    return lambda *a, **k: None


class Answer:

  def __init__(self, raw):
    self.raw = raw
    head, sep, self.body = raw.partition(b'\r\n\r\n')
    lines = head.decode('latin-1').split('\r\n')
    self.ok_form = bool(sep) and lines[0].startswith('HTTP/1.')
    self.code = int(lines[0].split(' ')[1]) if self.ok_form else None
    self.headers = [tuple(x.strip() for x in l.split(':', 1)) for l in lines[1:] if ':' in l]

  def header(self, name):
    return [v for k, v in self.headers if k.lower() == name.lower()]


def request(handler, method, path, body=None, headers=()):
  """Sends one request to a handler class."""
  lines = ['%s %s HTTP/1.1' % (method, path), 'Host: localhost', 'Connection: close']
  if body is not None:
    lines.append('Content-Length: %d' % len(body))
  lines += ['%s: %s' % h for h in headers]
  sock = Socket('\r\n'.join(lines).encode('latin-1') + b'\r\n\r\n' + (body or b''))
  cls = type('Quiet', (handler,), {'log_message': lambda *a: None})
  cls(sock, ('127.0.0.1', 1), None)
  return Answer(sock.out.getvalue())

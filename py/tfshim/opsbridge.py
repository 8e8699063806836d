"""Runs the repository's C++ TensorFlow kernels for the Python stand-in.

One server process (cc/ops_server.cc, built from /repo) per Python process."""
import collections
import os
import struct
import subprocess

import numpy as np
import tensorflow as tf

_DT = {'float32': 1, 'float64': 2, 'int32': 3, 'uint8': 4, 'int16': 5, 'int8': 6, 'string': 7, 'int64': 9,
       'bool': 10, 'uint16': 17, 'uint32': 22, 'uint64': 23}
_RD = {v: k for k, v in _DT.items()}
_procs = {}


def _server():
  pid = os.getpid()
  p = _procs.get(pid)
  if p is None or p.poll() is not None:
    _procs.clear()
    p = subprocess.Popen([os.environ['WOD_OPS_SERVER']], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL)
    _procs[pid] = p
  return p


def _s(x):
  x = x if isinstance(x, bytes) else x.encode()
  return struct.pack('<I', len(x)) + x


def _tensor(a):
  n = tf.as_dtype(a.dtype).name
  out = struct.pack('<ii', _DT[n], a.ndim) + b''.join(struct.pack('<q', d) for d in a.shape)
  if n == 'string':
    return out + b''.join(_s(x) for x in a.ravel())
  return out + _s(np.ascontiguousarray(a).tobytes())


def run(op, attrs, pos, named):
  """Returns the op's outputs as an ordered dict name -> Tensor."""
  b = _s(op) + struct.pack('<i', len(attrs)) + b''.join(_s(k) + _s(v) for k, v in attrs.items())
  b += struct.pack('<i', len(pos) + len(named))
  b += b''.join(_s('') + _tensor(tf._arr(x)) for x in pos)
  b += b''.join(_s(k) + _tensor(tf._arr(v)) for k, v in named.items())
  p = _server()
  try:
    p.stdin.write(struct.pack('<I', len(b)) + b)
    p.stdin.flush()
    h = p.stdout.read(4)
    if len(h) < 4:
      raise BrokenPipeError
    r = p.stdout.read(struct.unpack('<I', h)[0])
  except BrokenPipeError:
    raise tf.errors.OpError('the process running op %s died' % op)
  o = [0]

  def num(f):
    v, = struct.unpack_from('<' + f, r, o[0])
    o[0] += struct.calcsize('<' + f)
    return v

  def st():
    n = num('I')
    o[0] += n
    return r[o[0] - n:o[0]]
  if num('B'):
    raise tf.errors.InvalidArgumentError(st().decode(errors='replace'))
  out = collections.OrderedDict()
  for _ in range(num('i')):
    name = st().decode()
    dt, nd = _RD[num('i')], num('i')
    shape = tuple(num('q') for _ in range(nd))
    if dt == 'string':
      a = np.empty(shape, object)
      for i in np.ndindex(*shape):
        a[i] = st()
    else:
      a = np.frombuffer(st(), tf._DTYPES[dt]._np).reshape(shape).copy()
    out[name] = tf.Tensor(a)
  return out


def describe(name):
  """(inputs [(name, dtype or None)], outputs [name], attributes {name: type}), from the op registry."""
  b = _s('?' + name)
  p = _server()
  p.stdin.write(struct.pack('<I', len(b)) + b)
  p.stdin.flush()
  r = p.stdout.read(struct.unpack('<I', p.stdout.read(4))[0]).decode()
  ins, outs, attrs = [], [], {}
  for ln in r.splitlines():
    k, n, t = ln.split()
    if k == 'i':
      ins.append((n, _RD.get(int(t))))
    elif k == 'o':
      outs.append(n)
    else:
      attrs[n] = t
  return ins, outs, attrs


def op(name):
  """A Python op function, as tf.load_op_library would generate it."""
  memo = []

  def call(*a, **k):
    if not memo:
      memo.append(describe(name))
    ins, outs, attrs = memo[0]
    if tf._graph_mode and (tf._graph_mode[0].has(a) or tf._graph_mode[0].has(k)):
      return tf._graph_mode[0].op_outputs(call, outs, a, k)
    k.pop('name', None)
    args = dict(zip([n for n, _ in ins] + sorted(x for x in attrs if x != 'T'), a))
    for x in k:
      if x in args or (x not in attrs and x not in dict(ins)):
        raise TypeError('%s() got an unexpected or repeated argument %r' % (name, x))
    args.update(k)
    av = {}
    t_dtype = None
    for n, dt in ins:   # dtype attribute T: from the first tensor that has it
      if dt is None and n in args and t_dtype is None and isinstance(args[n], (tf.Tensor, np.ndarray)):
        t_dtype = tf.as_dtype(args[n].dtype).name
    t_dtype = t_dtype or 'float32'
    vals = {}
    for n, dt in ins:
      if n not in args:
        raise TypeError('%s() missing argument %r' % (name, n))
      want = dt or t_dtype
      v = args[n]
      if isinstance(v, (tf.Tensor, tf.Variable)):
        if tf.as_dtype(v.dtype).name != want:
          raise tf.errors.InvalidArgumentError('%s: input %s is %s, expected %s' % (name, n, v.dtype, want))
        vals[n] = v
      else:
        vals[n] = tf.convert_to_tensor(v, dtype=getattr(tf, want))
    for x, t in attrs.items():
      if x == 'T':
        av[x] = str(_DT[t_dtype])
      elif x in args:
        av[x] = ('1' if args[x] else '0') if t == 'bool' else args[x]
      elif t == 'bool':
        av[x] = '0'
    r = list(run(name, av, [], vals).values())
    if len(r) == 1:
      return r[0]
    return collections.namedtuple(name, outs)(*r)
  return call


def install():
  for py in ('match', 'detection_metrics', 'detection_metrics_state', 'detection_metrics_result', 'tracking_metrics',
             'motion_metrics', 'world_to_image', 'world_to_image_moving_point', 'image_to_world'):
    tf._OPS[py] = op(''.join(w.capitalize() for w in py.split('_')))


install()

"""Graph mode of the stand-in: calls on symbolic tensors are recorded and run by
Session.run.  Loaded by the first use of placeholders or graph variables."""
import sys
import types

import numpy as np
import tensorflow as tf


class Lazy:
  """The result of a recorded call."""
  __array_priority__ = 1000

  def __init__(self, fn, args=(), kwargs=None, shape=None, dtype=None):
    self._fn, self._args, self._kwargs = fn, args, kwargs or {}
    self._shape, self._dtype = shape, dtype
    self.graph = current()

  @property
  def shape(self):
    return tf.TensorShape(self._shape)

  get_shape = lambda self: self.shape

  @property
  def dtype(self):
    if self._dtype is None:
      raise tf.ShimMissing('the dtype of a computed symbolic tensor')
    return self._dtype

  def __bool__(self):
    raise TypeError('Using a symbolic `tf.Tensor` as a Python `bool` is not allowed.')

  def __len__(self):
    raise TypeError('len is not well defined for a symbolic Tensor.')

  def __iter__(self):
    if self._shape is None or self._shape[0] is None:
      raise TypeError('Cannot iterate over a symbolic tensor of unknown first dimension.')
    return iter([self[i] for i in range(self._shape[0])])

  def __getitem__(self, k):
    return Lazy(lambda x, i: x[i], (self, k))

  __hash__ = object.__hash__

  def _eval(self, ctx):
    return self._fn(*ev(self._args, ctx), **ev(self._kwargs, ctx))

  def eval(self, feed_dict=None, session=None):
    return (session or _sessions[-1]).run(self, feed_dict)


def _operator(name):
  def f(self, *o):
    return Lazy(lambda *x: getattr(tf.convert_to_tensor(x[0]), name)(*x[1:]), (self,) + o)
  return f


for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow matmul lt le gt ge and rand or ror xor rxor '
           'invert neg abs eq ne').split():
  setattr(Lazy, '__%s__' % _n, _operator('__%s__' % _n))


class Placeholder(Lazy):
  def __init__(self, dtype, shape=None, name=None):
    super().__init__(None, shape=None if shape is None else tf.TensorShape(shape)._d, dtype=tf.as_dtype(dtype))

  def _eval(self, ctx):
    for k, v in ctx.feed.items():
      if k is self:
        t = v if isinstance(v, tf.Tensor) else _feed(v, self._dtype)
        if not t.shape.is_compatible_with(self.shape):
          raise ValueError('Cannot feed value of shape %s for a tensor of shape %s' % (t.shape, self.shape))
        return t
    raise tf.errors.InvalidArgumentError('You must feed a value for placeholder tensor')


def _feed(v, dtype):
  if dtype != tf.string:
    return tf.constant(np.asarray(v, dtype=dtype.as_numpy_dtype), dtype=dtype)
  a = np.asarray(v, dtype=object)
  out = np.empty(a.shape, object)
  for i in np.ndindex(*a.shape):
    out[i] = a[i] if isinstance(a[i], bytes) else str(a[i]).encode()
  return tf.Tensor(out)


class GraphVariable(Lazy):
  """A variable: its value belongs to the session."""

  def __init__(self, name, dtype, init, local):
    super().__init__(None, dtype=tf.as_dtype(dtype) if dtype is not None else None)
    self.name, self._init, self.local = name + ':0', init, local

  def _eval(self, ctx):
    if self not in ctx.session._values:
      raise tf.errors.FailedPreconditionError('Attempting to use uninitialized value %s' % self.name)
    return ctx.session._values[self]

  def value(self):
    return Lazy(lambda x: x, (self,), dtype=self._dtype)

  read_value = value

  def _write(self, value, ctx):
    if isinstance(value, tf.Tensor) and self._dtype is not None and value.dtype != self._dtype:
      raise TypeError('variable %s of %s assigned %s' % (self.name, self._dtype, value.dtype))
    ctx.session._values[self] = tf.convert_to_tensor(value, dtype=self._dtype)
    return ctx.session._values[self]

  def assign(self, value, **k):
    return _Write(self, value)

  def assign_add(self, value, **k):
    return _Write(self, self.value() + value)

  @property
  def initializer(self):
    return _Write(self, Lazy(lambda: self._init() if callable(self._init) else self._init))


class _Write(Lazy):
  def __init__(self, var, value):
    super().__init__(None)
    self._var, self._value = var, value

  def _eval(self, ctx):
    # (the new value may read the variable: read before written)
    return self._var._write(ev(self._value, ctx), ctx)


class _Ctx:
  def __init__(self, session, feed):
    self.session, self.feed, self.memo = session, feed, {}


def ev(x, ctx):
  if isinstance(x, Lazy):
    if id(x) not in ctx.memo:
      r = x._eval(ctx)
      ctx.memo[id(x)] = (ev(r, ctx) if has(r) else r, x)
    return ctx.memo[id(x)][0]
  if isinstance(x, dict):
    return type(x)((k, ev(v, ctx)) for k, v in x.items())
  if isinstance(x, tuple) and hasattr(x, '_fields'):
    return type(x)(*[ev(v, ctx) for v in x])
  if isinstance(x, (list, tuple)):
    return type(x)(ev(v, ctx) for v in x)
  if isinstance(x, slice):
    return slice(*[ev(v, ctx) for v in (x.start, x.stop, x.step)])
  return x


def has(x):
  if isinstance(x, Lazy):
    return True
  if isinstance(x, dict):
    return any(has(v) for v in x.values())
  if isinstance(x, (list, tuple)):
    return any(has(v) for v in x)
  return False


class Graph:
  def __init__(self):
    self.vars = {}

  def as_default(self):
    return self

  def __enter__(self):
    _graphs.append(self)
    return self

  def __exit__(self, *a):
    _graphs.pop()
    return False


_graphs = [Graph()]
_scopes = [('', None)]
_sessions = []
current = lambda: _graphs[-1]


class variable_scope:
  def __init__(self, name=None, default_name=None, reuse=None, **k):
    n = name if isinstance(name, str) else (name.name if name is not None else default_name)
    if reuse is None:
      reuse = _scopes[-1][1]
    self.name = (_scopes[-1][0] + '/' if _scopes[-1][0] else '') + n
    self.reuse = reuse

  def __enter__(self):
    _scopes.append((self.name, self.reuse))
    return self

  def __exit__(self, *a):
    _scopes.pop()
    return False


def get_variable(name, shape=None, dtype=tf.float32, initializer=None, local=False, **k):
  scope, reuse = _scopes[-1]
  full = (scope + '/' if scope else '') + name
  g = current()
  if full in g.vars:
    if not reuse:
      raise ValueError('Variable %s already exists, disallowed.' % full)
    return g.vars[full]
  if reuse and reuse != tf.compat.v1.AUTO_REUSE:
    raise ValueError('Variable %s does not exist' % full)
  g.vars[full] = GraphVariable(full, dtype, initializer, local)
  return g.vars[full]


def get_local_variable(name, *a, **k):
  return get_variable(name, *a, local=True, **k)


def _assign(ref, value, validate_shape=None, use_locking=None, name=None):
  return ref.assign(value)


def _initialise(g, local):
  def run(ctx):
    for v in g.vars.values():
      if v.local == local:
        v.initializer._eval(ctx)

  class Init(Lazy):
    def _eval(self, ctx):
      return run(ctx)
  return Init(None)


class Session:
  def __init__(self, target='', graph=None, config=None):
    self.graph = graph or current()
    self._values = {}

  def __enter__(self):
    _graphs.append(self.graph)
    _sessions.append(self)
    return self

  def __exit__(self, *a):
    _graphs.pop()
    _sessions.pop()
    return False

  def close(self):
    pass

  def run(self, fetches, feed_dict=None):
    ctx = _Ctx(self, feed_dict or {})

    def out(x):
      if isinstance(x, dict):
        return type(x)((k, out(v)) for k, v in x.items())
      if isinstance(x, tuple) and hasattr(x, '_fields'):
        return type(x)(*[out(v) for v in x])
      if isinstance(x, (list, tuple)):
        return type(x)(out(v) for v in x)
      r = ev(x, ctx)
      return r.numpy() if isinstance(r, tf.Tensor) else r
    return out(fetches)


def op_outputs(call, outs, args, kwargs):
  whole = Lazy(call, args, kwargs)
  if len(outs) == 1:
    return whole
  import collections
  return collections.namedtuple('Outputs', outs)(*[Lazy(lambda r, i: r[i], (whole, i)) for i in range(len(outs))])


def _wrap(fn):
  def f(*a, **k):
    if has(a) or has(k):
      return Lazy(fn, a, k)
    return fn(*a, **k)
  f.__name__ = getattr(fn, '__name__', 'op')
  f.__wrapped__ = fn
  return f


def install():
  keep = {'executing_eagerly', 'load_op_library', 'is_tensor', 'as_dtype', 'function', 'py_function', 'TensorShape'}
  done = {}
  for n, mod in list(sys.modules.items()):
    if n != 'tensorflow' and not n.startswith('tensorflow.') or n.endswith('._graph'):
      continue
    for k, v in list(vars(mod).items()):
      if isinstance(v, types.FunctionType) and not k.startswith('_') and k not in keep and not hasattr(v, '__wrapped__'):
        if id(v) not in done:
          done[id(v)] = (_wrap(v), v)
        setattr(mod, k, done[id(v)][0])
  tf.is_tensor = lambda x: isinstance(x, (tf.Tensor, Lazy))
  v1 = tf.compat.v1
  init = lambda local: lambda: _initialise(current(), local)
  for k, v in dict(
      variable_scope=variable_scope, get_variable=get_variable, get_local_variable=get_local_variable, assign=_assign,
      local_variables_initializer=init(True), global_variables_initializer=init(False),
      Session=Session, get_default_graph=current, reset_default_graph=lambda: _graphs.__setitem__(0, Graph())).items():
    setattr(v1, k, v)
  v1.initializers = tf._NS(local_variables=init(True), global_variables=init(False))

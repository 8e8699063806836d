"""A small eager, numpy-backed stand-in for the parts of TensorFlow 2 that the
Waymo Open Dataset's Python code uses.

It exists because this machine has no TensorFlow. It keeps TensorFlow's
semantics where they differ from numpy's: static dtypes (no implicit promotion
between tensors), 32-bit defaults for Python numbers, gather/scatter bounds
checks, segment reductions, int32 shapes, truncating casts. It is validated by
running the repository's own TensorFlow unit tests under it
(py/tfshim/conformance.py).
"""
import builtins as _b
import sys as _sys
import types as _types
import zlib as _zlib
import struct as _struct
import math as _math
import unittest as _unittest

import numpy as _np

newaxis = None


class ShimMissing(AttributeError):
  """Asked for something TensorFlow may have but this stand-in lacks: the
  harnesses leave such an execution unjudged instead of blaming the code."""


class _NS(_types.SimpleNamespace):

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise ShimMissing('the TensorFlow stand-in lacks %r' % name)


__version__ = '2.13.0-numpy-shim'


# ----------------------------------------------------------------- dtypes ---
class DType:
  def __init__(self, name, np_type):
    self.name = name
    self._np = _np.dtype(np_type)

  @property
  def as_numpy_dtype(self):
    return self._np.type

  @property
  def base_dtype(self):
    return self

  @property
  def is_floating(self):
    return self._np.kind == 'f'

  @property
  def is_integer(self):
    return self._np.kind in 'iu'

  @property
  def is_bool(self):
    return self._np.kind == 'b'

  @property
  def is_unsigned(self):
    return self._np.kind == 'u'

  @property
  def size(self):
    return self._np.itemsize

  @property
  def min(self):
    return _np.iinfo(self._np).min if self.is_integer else _np.finfo(self._np).min

  @property
  def max(self):
    return _np.iinfo(self._np).max if self.is_integer else _np.finfo(self._np).max

  def __eq__(self, other):
    if other is None:
      return False
    try:
      return self.name == as_dtype(other).name
    except TypeError:
      return False

  def __ne__(self, other):
    return not self == other

  def __hash__(self):
    return hash(self.name)

  def __repr__(self):
    return "tf." + self.name


float16 = half = DType('float16', _np.float16)
float32 = DType('float32', _np.float32)
float64 = double = DType('float64', _np.float64)
int8 = DType('int8', _np.int8)
int16 = DType('int16', _np.int16)
int32 = DType('int32', _np.int32)
int64 = DType('int64', _np.int64)
uint8 = DType('uint8', _np.uint8)
uint16 = DType('uint16', _np.uint16)
uint32 = DType('uint32', _np.uint32)
uint64 = DType('uint64', _np.uint64)
bool = DType('bool', _np.bool_)
string = DType('string', object)
complex64 = DType('complex64', _np.complex64)
complex128 = DType('complex128', _np.complex128)
_DTYPES = {d.name: d for d in (
    float16, float32, float64, int8, int16, int32, int64, uint8, uint16,
    uint32, uint64, bool, string, complex64, complex128)}


def as_dtype(x):
  if isinstance(x, DType):
    return x
  if isinstance(x, str) and x in _DTYPES:
    return _DTYPES[x]
  try:
    n = _np.dtype(x)
  except TypeError:
    raise TypeError('cannot convert %r to a dtype' % (x,))
  if n.kind in 'SUO':
    return string
  if n.name in _DTYPES:
    return _DTYPES[n.name]
  raise TypeError('cannot convert %r to a dtype' % (x,))


dtypes = _NS(DType=DType, as_dtype=as_dtype, **_DTYPES)


# ----------------------------------------------------------------- errors ---
errors = _types.ModuleType('tensorflow.errors')


class _OpError(Exception):
  def __init__(self, *args):
    super().__init__(*args)
    self.message = str(args[-1]) if args else ''


class _InvalidArgumentError(_OpError):
  pass


class _OutOfRangeError(_OpError):
  pass


class _NotFoundError(_OpError):
  pass


class _UnimplementedError(_OpError):
  pass


for _e in (_OpError, _InvalidArgumentError, _OutOfRangeError, _NotFoundError,
           _UnimplementedError):
  setattr(errors, _e.__name__[1:], _e)
_IAE = _InvalidArgumentError


# ----------------------------------------------------------------- shapes ---
class TensorShape:
  def __init__(self, dims):
    if dims is None:
      self._d = None
    elif isinstance(dims, TensorShape):
      self._d = dims._d
    elif isinstance(dims, (int, _np.integer)):
      self._d = (int_(dims),)
    else:
      self._d = tuple(None if d is None else int_(d) for d in dims)

  def as_list(self):
    if self._d is None:
      raise ValueError('as_list() is not defined on an unknown TensorShape.')
    return list(self._d)

  @property
  def rank(self):
    return None if self._d is None else len(self._d)

  @property
  def ndims(self):
    return self.rank

  @property
  def dims(self):
    return self._d

  def is_fully_defined(self):
    return self._d is not None and all(d is not None for d in self._d)

  def num_elements(self):
    return int_(_np.prod(self._d)) if self.is_fully_defined() else None

  def is_compatible_with(self, other):
    other = TensorShape(other)
    if self._d is None or other._d is None:
      return True
    return len(self._d) == len(other._d) and all(
        a is None or b is None or a == b for a, b in zip(self._d, other._d))

  def assert_is_compatible_with(self, other):
    if not self.is_compatible_with(other):
      raise ValueError('Shapes %s and %s are incompatible' % (self, TensorShape(other)))

  def assert_has_rank(self, rank):
    if self.rank not in (None, rank):
      raise ValueError('Shape %s must have rank %d' % (self, rank))

  def merge_with(self, other):
    self.assert_is_compatible_with(other)
    other = TensorShape(other)
    if self._d is None:
      return other
    if other._d is None:
      return self
    return TensorShape([a if a is not None else b for a, b in zip(self._d, other._d)])

  def concatenate(self, other):
    return TensorShape(self._d + TensorShape(other)._d)

  def __iter__(self):
    if self._d is None:
      raise ValueError('Cannot iterate over a shape with unknown rank.')
    return iter(self._d)

  def __len__(self):
    if self._d is None:
      raise ValueError('Cannot take the length of shape with unknown rank.')
    return len(self._d)

  def __getitem__(self, k):
    r = self._d[k]
    return TensorShape(r) if isinstance(k, slice) else r

  def __add__(self, other):
    return TensorShape(self._d + TensorShape(other)._d)

  def __radd__(self, other):
    return TensorShape(TensorShape(other)._d + self._d)

  def __eq__(self, other):
    try:
      other = TensorShape(other)
    except TypeError:
      return NotImplemented
    return self._d == other._d

  def __hash__(self):
    return hash(self._d)

  def __repr__(self):
    return 'TensorShape(%s)' % (None if self._d is None else list(self._d))

  def __str__(self):
    return '<unknown>' if self._d is None else '(%s)' % ', '.join(map(str, self._d)) \
        if len(self._d) != 1 else '(%s,)' % self._d[0]


int_ = _b.int


# ----------------------------------------------------------------- tensor ---
def _scalar_index(i):
  if isinstance(i, Tensor):
    if i._a.ndim or i._a.dtype.kind not in 'iu':
      raise TypeError('only integer scalar tensors can be converted to an index')
    return int_(i._a)
  return i


class Tensor:
  __array_priority__ = 100

  def __init__(self, a):
    assert isinstance(a, _np.ndarray), type(a)
    self._a = a

  # numpy
  def numpy(self):
    if self._a.dtype == object and self._a.ndim == 0:
      return self._a[()]
    return self._a.copy() if self._a.ndim else self._a[()]

  def __array__(self, dtype=None):
    return self._a.astype(dtype) if dtype is not None else self._a

  @property
  def dtype(self):
    return as_dtype(self._a.dtype)

  @property
  def shape(self):
    return TensorShape(self._a.shape)

  def get_shape(self):
    return self.shape

  def set_shape(self, shape):
    self.shape.assert_is_compatible_with(shape)

  @property
  def ndim(self):
    return self._a.ndim

  @property
  def name(self):
    raise AttributeError('Tensor.name is undefined when eager execution is enabled.')

  @property
  def device(self):
    return '/job:localhost/replica:0/task:0/device:CPU:0'

  def eval(self, *a, **k):
    return self.numpy()

  def __len__(self):
    if not self._a.ndim:
      raise TypeError('Scalar tensor has no `len()`')
    return self._a.shape[0]

  def __iter__(self):
    if not self._a.ndim:
      raise TypeError('Cannot iterate over a scalar tensor')
    for i in _b.range(self._a.shape[0]):
      yield Tensor(_np.asarray(self._a[i]))

  def __bool__(self):
    return _b.bool(self._a)

  def __int__(self):
    return int_(self._a)

  def __float__(self):
    return float(self._a)

  def __index__(self):
    if self._a.dtype.kind not in 'iu' or self._a.ndim:
      raise TypeError('only integer scalar tensors can be converted to an index')
    return int_(self._a)

  def __format__(self, spec):
    return self._a.__format__(spec) if not self._a.ndim else str(self)

  def __repr__(self):
    return '<tf.Tensor: shape=%s, dtype=%s, numpy=%s>' % (
        self._a.shape, self.dtype.name, _np.array_repr(self._a))

  def __hash__(self):
    raise TypeError('Tensor is unhashable. Instead, use tensor.ref() as the key.')

  def ref(self):
    return _Ref(self)

  def experimental_ref(self):
    return _Ref(self)

  def __getitem__(self, k):
    ks = k if isinstance(k, tuple) else (k,)
    if len(ks) == 1 and isinstance(ks[0], (Tensor, _np.ndarray)):
      t = ks[0]
      if (t.dtype == bool if isinstance(t, Tensor) else t.dtype == _np.bool_):
        return boolean_mask(self, t)
    out = []
    for i in ks:
      if isinstance(i, slice):
        out.append(slice(_scalar_index(i.start), _scalar_index(i.stop), _scalar_index(i.step)))
        continue
      if i is Ellipsis or i is None:
        out.append(i)
        continue
      i = _scalar_index(i)
      if isinstance(i, _np.ndarray) and i.ndim == 0:
        i = i[()]
      if isinstance(i, (_b.bool, _np.bool_)) or not isinstance(i, (int_, _np.integer)):
        raise TypeError('Only integers, slices (`:`), ellipsis (`...`), tf.newaxis (`None`) '
                        'and scalar tf.int32/tf.int64 tensors are valid indices, got %r' % (i,))
      out.append(int_(i))
    try:
      return Tensor(_np.asarray(self._a[tuple(out)]))
    except IndexError as e:
      raise _IAE(str(e))

  def __setitem__(self, k, v):
    raise TypeError("'Tensor' object does not support item assignment")


class _Ref:
  def __init__(self, t):
    self._t = t

  def deref(self):
    return self._t

  def __eq__(self, o):
    return isinstance(o, _Ref) and self._t is o._t

  def __hash__(self):
    return id(self._t)


class Variable(Tensor):
  def __init__(self, initial_value, dtype=None, trainable=True, name=None, **k):
    super().__init__(_np.array(_arr(initial_value, dtype)))

  def assign(self, v, **k):
    self._a = _np.array(_arr(v, self.dtype))
    return self

  def assign_add(self, v, **k):
    return self.assign(self + v)

  def assign_sub(self, v, **k):
    return self.assign(self - v)

  def value(self):
    return Tensor(self._a)

  def read_value(self):
    return Tensor(self._a)


Operation = type('Operation', (), {})
EagerTensor = Tensor


class RaggedTensor:
  pass


class SparseTensor:
  pass


def is_tensor(x):
  return isinstance(x, Tensor)


def _has_tensor(v):
  if isinstance(v, Tensor):
    return True
  if isinstance(v, (list, tuple)):
    return any_(_has_tensor(x) for x in v)
  return False


any_ = _b.any


def _arr(v, dtype=None, hint=None):
  """Value -> ndarray with TensorFlow's conversion rules."""
  want = as_dtype(dtype)._np if dtype is not None else None
  if isinstance(v, Tensor):
    if want is not None and v._a.dtype != want:
      raise ValueError('Tensor conversion requested dtype %s for Tensor with dtype %s: %r'
                       % (as_dtype(dtype).name, v.dtype.name, v))
    return v._a
  if v is None:
    raise ValueError('Attempt to convert a value (None) with an unsupported type to a Tensor.')
  if isinstance(v, TensorShape):
    v = v.as_list()
    if not v and want is None:
      want = _np.dtype(_np.int32)
  if isinstance(v, (list, tuple)) and _has_tensor(v):
    # Packing: every element takes the dtype of the tensors inside.
    dt = want
    if dt is None:
      def find(x):
        if isinstance(x, Tensor):
          return x._a.dtype
        if isinstance(x, (list, tuple)):
          for y in x:
            r = find(y)
            if r is not None:
              return r
        return None
      dt = find(v)
    parts = [_arr(x, dt) for x in v]
    if len({p.shape for p in parts}) > 1:
      raise _IAE('Shapes of all inputs must match: %s' % [p.shape for p in parts])
    return _np.stack(parts)
  is_np = isinstance(v, (_np.ndarray, _np.generic)) or hasattr(v, '__array__')
  if not is_np and isinstance(v, (list, tuple)):
    if v and all_(isinstance(x, (_np.ndarray, _np.generic)) for x in _leaves(v)):
      is_np = True
  try:
    a = _np.asarray(v)
  except ValueError as e:
    raise ValueError('Can\'t convert non-rectangular Python sequence to Tensor. ' + str(e))
  if a.dtype == object and not (want is not None and want == object):
    flat = list(_leaves(v if not isinstance(v, _np.ndarray) else v.tolist()))
    if not all_(isinstance(x, (bytes, str)) for x in flat):
      raise ValueError('Can\'t convert Python sequence/object to Tensor: %r' % (v,))
  if a.dtype.kind in 'SU':
    o = _np.empty(a.shape, object)
    src = _np.asarray(v, dtype=object) if not isinstance(v, (bytes, str)) else v
    if a.ndim == 0:
      o[()] = v if isinstance(v, bytes) else str(v).encode()
    else:
      for idx in _np.ndindex(*a.shape):
        x = src[idx]
        o[idx] = x if isinstance(x, bytes) else str(x).encode()
    if want is not None and want != object:
      raise TypeError('Cannot convert %r to EagerTensor of dtype %s' % (v, as_dtype(dtype).name))
    return o
  if want is None:
    if is_np:
      return _np.array(a)
    if a.dtype.kind == 'f' or a.size == 0:
      h = as_dtype(hint)._np if hint is not None else _np.dtype(_np.float32)
      return a.astype(h)
    if a.dtype.kind in 'iu':
      if a.size and (a.max() > 2**31 - 1 or a.min() < -2**31):
        # TensorFlow refuses scalars but falls back to int64 for lists.
        return a.astype(_np.int64)
      return a.astype(_np.int32)
    return _np.array(a)
  if a.size:
    if want.kind in 'iu' and a.dtype.kind == 'f' and not is_np:
      raise TypeError('Cannot convert %r to EagerTensor of dtype %s' % (v, as_dtype(dtype).name))
    if want.kind == 'b' and a.dtype.kind != 'b':
      raise TypeError('Cannot convert %r to EagerTensor of dtype bool' % (v,))
    if want.kind in 'iuf' and a.dtype.kind == 'b' and not is_np:
      raise TypeError('Cannot convert %r to EagerTensor of dtype %s' % (v, as_dtype(dtype).name))
    if want.kind in 'iu' and a.dtype.kind in 'iu':
      info = _np.iinfo(want)
      if int_(a.max()) > info.max or int_(a.min()) < info.min:
        raise (ValueError if not is_np else ValueError)(
            'value out of range for %s: %r' % (as_dtype(dtype).name, v))
    if want == object:
      raise TypeError('Cannot convert %r to EagerTensor of dtype string' % (v,))
  return a.astype(want)


all_ = _b.all


def _leaves(v):
  if isinstance(v, (list, tuple)):
    for x in v:
      yield from _leaves(x)
  else:
    yield v


def _T(a):
  return Tensor(_np.asarray(a))


def convert_to_tensor(value, dtype=None, dtype_hint=None, name=None, preferred_dtype=None):
  return Tensor(_arr(value, dtype, dtype_hint or preferred_dtype))


def constant(value, dtype=None, shape=None, name='Const', verify_shape=False):
  if isinstance(value, Tensor) and dtype is not None and value.dtype != dtype:
    a = value._a.astype(as_dtype(dtype)._np)
  else:
    a = _arr(value, dtype)
  if shape is not None:
    shape = _shape(shape)
    if a.size == 1:
      a = _np.broadcast_to(a.reshape(()), shape).copy()
    else:
      if a.size != int_(_np.prod(shape)):
        raise TypeError('Eager execution of tf.constant with unsupported shape.')
      a = a.reshape(shape)
  return Tensor(_np.array(a))


def _shape(s):
  if isinstance(s, TensorShape):
    return tuple(s.as_list())
  if isinstance(s, Tensor):
    if s._a.dtype.kind not in 'iu':
      raise TypeError('shape must be an integer tensor')
    return tuple(int_(x) for x in _np.atleast_1d(s._a))
  if isinstance(s, (int_, _np.integer)):
    return (int_(s),)
  return tuple(int_(_as_int(x)) for x in s)


def _as_int(x):
  if isinstance(x, Tensor):
    if x._a.dtype.kind not in 'iu':
      raise TypeError('expected an integer, got %r' % (x,))
    return int_(x._a)
  if isinstance(x, (float, _np.floating)):
    raise TypeError('expected an integer, got %r' % (x,))
  return int_(x)


def _axis(axis):
  if axis is None:
    return None
  if isinstance(axis, Tensor):
    axis = axis._a.tolist()
  if isinstance(axis, (list, tuple)):
    return tuple(_as_int(x) for x in axis)
  if isinstance(axis, _np.ndarray):
    axis = axis.tolist()
    return tuple(axis) if isinstance(axis, list) else axis
  return _as_int(axis)


# ---------------------------------------------------------- elementwise ops ---
def _pair(x, y, name='op'):
  """Converts two operands to one dtype the way TensorFlow's binary ops do."""
  if isinstance(x, Tensor):
    if isinstance(y, Tensor):
      if x._a.dtype != y._a.dtype:
        raise _IAE('cannot compute %s as input #1(zero-based) was expected to be a %s tensor '
                   'but is a %s tensor' % (name, x.dtype.name, y.dtype.name))
      return x._a, y._a
    return x._a, _arr_like(y, x._a.dtype)
  if isinstance(y, Tensor):
    return _arr_like(x, y._a.dtype), y._a
  if isinstance(x, (_np.ndarray, _np.generic)) or not isinstance(
      y, (_np.ndarray, _np.generic)):
    a = _arr(x)
    if not isinstance(x, (_np.ndarray, _np.generic)) and a.dtype == _np.int32 and \
        _np.asarray(y).dtype.kind == 'f' and not isinstance(y, (_np.ndarray, _np.generic)):
      a = a.astype(_np.float32)
    return a, _arr_like(y, a.dtype)
  b = _arr(y)
  return _arr_like(x, b.dtype), b


def _arr_like(v, dt):
  if dt == object:
    return _arr(v)
  return _arr(v, dt)


def _bcheck(a, b):
  try:
    _np.broadcast_shapes(a.shape, b.shape)
  except ValueError:
    raise _IAE('Incompatible shapes: %s vs. %s' % (list(a.shape), list(b.shape)))


def _binary(name, fn, numeric=True):
  def op(x, y, name=None):
    a, b = _pair(x, y, opname)
    if numeric and (a.dtype.kind == 'b'):
      raise _IAE('Value for attr \'T\' of bool is not in the list of allowed values (%s)' % opname)
    _bcheck(a, b)
    with _np.errstate(all='ignore'):
      return _T(fn(a, b))
  opname = name
  op.__name__ = name
  return op


def _keep(fn):
  """Runs fn and casts the result back to the operands' dtype."""
  def g(a, b):
    return _np.asarray(fn(a, b)).astype(a.dtype)
  return g


add = _binary('Add', _keep(_np.add))
subtract = _binary('Sub', _keep(_np.subtract))
multiply = _binary('Mul', _keep(_np.multiply))


def _truediv(a, b):
  if a.dtype.kind in 'iu':
    t = _np.float32 if a.dtype.itemsize < 4 and a.dtype.kind in 'iu' else _np.float64
    return _np.true_divide(a.astype(t), b.astype(t))
  return _np.true_divide(a, b).astype(a.dtype)


truediv = divide = _binary('RealDiv', _truediv)


def _fdiv(a, b):
  if a.dtype.kind in 'iu' and _np.any(b == 0):
    raise _IAE('Integer division by zero')
  return _np.floor_divide(a, b).astype(a.dtype)


def _fmod(a, b):
  if a.dtype.kind in 'iu' and _np.any(b == 0):
    raise _IAE('Integer division by zero')
  return _np.mod(a, b).astype(a.dtype)


floordiv = _binary('FloorDiv', _fdiv)
floormod = mod = _binary('FloorMod', _fmod)
pow = _binary('Pow', _keep(_np.power))
maximum = _binary('Maximum', _keep(_np.maximum))
minimum = _binary('Minimum', _keep(_np.minimum))
atan2 = _binary('Atan2', _keep(_np.arctan2))
squared_difference = _binary('SquaredDifference', _keep(lambda a, b: (a - b) * (a - b)))
less = _binary('Less', _np.less)
less_equal = _binary('LessEqual', _np.less_equal)
greater = _binary('Greater', _np.greater)
greater_equal = _binary('GreaterEqual', _np.greater_equal)
equal = _binary('Equal', _np.equal, numeric=False)
not_equal = _binary('NotEqual', _np.not_equal, numeric=False)


def _bool_binary(name, fn):
  def op(x, y, name=None):
    a, b = _pair(x, y, opname)
    if a.dtype.kind != 'b':
      raise _IAE('cannot compute %s as input #0(zero-based) was expected to be a bool tensor '
                 'but is a %s tensor' % (opname, as_dtype(a.dtype).name))
    _bcheck(a, b)
    return _T(fn(a, b))
  opname = name
  return op


logical_and = _bool_binary('LogicalAnd', _np.logical_and)
logical_or = _bool_binary('LogicalOr', _np.logical_or)
logical_xor = _bool_binary('LogicalXor', _np.logical_xor)


def logical_not(x, name=None):
  return Tensor(_np.asarray(~_arr(x, bool)))


def _unary(fn, kinds='fiuc'):
  def op(x, name=None):
    a = _arr(x)
    if a.dtype.kind not in kinds:
      raise _IAE('unsupported dtype %s' % as_dtype(a.dtype).name)
    with _np.errstate(all='ignore'):
      return _T(_np.asarray(fn(a)).astype(a.dtype))
  return op


abs = _unary(_np.abs)
negative = _unary(_np.negative)
sign = _unary(_np.sign)
square = _unary(_np.square)
sqrt = _unary(_np.sqrt, 'fc')
rsqrt = _unary(lambda a: 1 / _np.sqrt(a), 'f')
exp = _unary(_np.exp, 'fc')
expm1 = _unary(_np.expm1, 'f')
log = _unary(_np.log, 'fc')
log1p = _unary(_np.log1p, 'f')
sin = _unary(_np.sin, 'fc')
cos = _unary(_np.cos, 'fc')
tan = _unary(_np.tan, 'f')
asin = _unary(_np.arcsin, 'f')
acos = _unary(_np.arccos, 'f')
atan = _unary(_np.arctan, 'f')
tanh = _unary(_np.tanh, 'f')
sinh = _unary(_np.sinh, 'f')
cosh = _unary(_np.cosh, 'f')
sigmoid = _unary(lambda a: 1 / (1 + _np.exp(-a)), 'f')
floor = _unary(_np.floor, 'f')
ceil = _unary(_np.ceil, 'f')
round = _unary(_np.round)
rint = _unary(_np.round, 'f')
reciprocal = _unary(lambda a: 1 / a, 'f')
relu = _unary(lambda a: _np.maximum(a, 0))


def _predicate(fn):
  def op(x, name=None):
    return _T(fn(_arr(x)))
  return op


is_nan = _predicate(_np.isnan)
is_inf = _predicate(_np.isinf)
is_finite = _predicate(_np.isfinite)


def divide_no_nan(x, y, name=None):
  a, b = _pair(x, y, 'DivNoNan')
  _bcheck(a, b)
  if a.dtype.kind in 'iu':
    a, b = a.astype(_np.float64), b.astype(_np.float64)
  with _np.errstate(all='ignore'):
    r = _np.where(b == 0, 0, a / _np.where(b == 0, 1, b)).astype(a.dtype)
  return _T(r)


def multiply_no_nan(x, y, name=None):
  a, b = _pair(x, y, 'MulNoNan')
  return _T(_np.where(b == 0, 0, a * b).astype(a.dtype))


def clip_by_value(t, clip_value_min, clip_value_max, name=None):
  a = _arr(t)
  lo = _arr_like(clip_value_min, a.dtype)
  hi = _arr_like(clip_value_max, a.dtype)
  r = _np.maximum(_np.minimum(a, hi), lo)
  if r.shape != a.shape:
    raise _IAE('Incompatible shapes in clip_by_value')
  return _T(r)


def cast(x, dtype, name=None):
  a = _arr(x)
  d = as_dtype(dtype)
  if a.dtype == d._np:
    return Tensor(a)
  if a.dtype == object or d is string:
    raise _UnimplementedError('Cast %s to %s is not supported' % (as_dtype(a.dtype).name, d.name))
  with _np.errstate(all='ignore'):
    return _T(a.astype(d._np))


def saturate_cast(x, dtype, name=None):
  a = _arr(x)
  d = as_dtype(dtype)
  return _T(_np.clip(a, d.min, d.max).astype(d._np))


def to_float(x):
  return cast(x, float32)


def bitcast(x, type, name=None):
  a = _arr(x)
  d = as_dtype(type)._np
  if a.dtype.itemsize == d.itemsize:
    return Tensor(_np.ascontiguousarray(a).view(d).reshape(a.shape))
  if a.dtype.itemsize > d.itemsize:
    return Tensor(_np.ascontiguousarray(a)[..., None].view(d))
  return Tensor(_np.ascontiguousarray(a).view(d)[..., 0])


def add_n(inputs, name=None):
  r = convert_to_tensor(inputs[0])
  for x in inputs[1:]:
    r = add(r, x)
  return r


# -------------------------------------------------------------- reductions ---
def _reduce(fn, kinds=None, identity=None):
  def op(input_tensor, axis=None, keepdims=False, name=None, keep_dims=None,
         reduction_indices=None):
    a = _arr(input_tensor)
    if kinds and a.dtype.kind not in kinds:
      raise _IAE('bad dtype for a reduction: %s' % as_dtype(a.dtype).name)
    ax = _axis(axis)
    if isinstance(ax, tuple):
      for x in ax:
        if not -a.ndim <= x < a.ndim:
          raise _IAE('Invalid reduction dimension %d' % x)
    elif ax is not None and not -_b.max(a.ndim, 0) <= ax < a.ndim:
      raise _IAE('Invalid reduction dimension %d for input with %d dimension(s)' % (ax, a.ndim))
    kd = keepdims if keep_dims is None else keep_dims
    with _np.errstate(all='ignore'):
      return _T(_np.asarray(fn(a, ax, kd)))
  return op


def _ident(fn, kind):
  def g(a, ax, kd):
    if a.dtype.kind == 'f':
      init = -_np.inf if kind == 'max' else _np.inf
    else:
      info = _np.iinfo(a.dtype)
      init = info.min if kind == 'max' else info.max
    return fn(a, axis=ax, keepdims=kd, initial=init).astype(a.dtype)
  return g


def _mean(a, ax, kd):
  if a.dtype.kind in 'iu':
    n = a.size if ax is None else _np.prod([a.shape[i] for i in (ax if isinstance(ax, tuple) else (ax,))])
    return (_np.sum(a, axis=ax, keepdims=kd) // int_(n)).astype(a.dtype)
  s = _np.sum(a.astype(_np.float64), axis=ax, keepdims=kd)
  n = a.size if ax is None else _np.prod([a.shape[i] for i in (ax if isinstance(ax, tuple) else (ax,))])
  return (s / n).astype(a.dtype) if n else _np.full_like(s, _np.nan).astype(a.dtype)


reduce_sum = _reduce(lambda a, ax, kd: _np.sum(a, axis=ax, keepdims=kd).astype(a.dtype), 'fiuc')
reduce_prod = _reduce(lambda a, ax, kd: _np.prod(a, axis=ax, keepdims=kd).astype(a.dtype), 'fiuc')
reduce_mean = _reduce(_mean, 'fiuc')
reduce_max = _reduce(_ident(_np.max, 'max'), 'fiu')
reduce_min = _reduce(_ident(_np.min, 'min'), 'fiu')
reduce_all = _reduce(lambda a, ax, kd: _np.all(a, axis=ax, keepdims=kd), 'b')
reduce_any = _reduce(lambda a, ax, kd: _np.any(a, axis=ax, keepdims=kd), 'b')
reduce_variance = _reduce(lambda a, ax, kd: _np.var(a, axis=ax, keepdims=kd).astype(a.dtype), 'f')
reduce_std = _reduce(lambda a, ax, kd: _np.std(a, axis=ax, keepdims=kd).astype(a.dtype), 'f')
reduce_euclidean_norm = _reduce(
    lambda a, ax, kd: _np.sqrt(_np.sum(a * a, axis=ax, keepdims=kd)).astype(a.dtype), 'f')
reduce_logsumexp = _reduce(
    lambda a, ax, kd: _np.log(_np.sum(_np.exp(a - _np.max(a)), axis=ax, keepdims=kd)) + _np.max(a), 'f')


def count_nonzero(input, axis=None, keepdims=None, dtype=int64, name=None):
  return _T(_np.asarray(_np.count_nonzero(_arr(input), axis=_axis(axis), keepdims=_b.bool(keepdims))
                        ).astype(as_dtype(dtype)._np))


def cumsum(x, axis=0, exclusive=False, reverse=False, name=None):
  a = _arr(x)
  if reverse:
    a = _np.flip(a, axis)
  r = _np.cumsum(a, axis=axis).astype(a.dtype)
  if exclusive:
    r = r - a
  if reverse:
    r = _np.flip(r, axis)
  return _T(r)


def cumprod(x, axis=0, name=None):
  a = _arr(x)
  return _T(_np.cumprod(a, axis=axis).astype(a.dtype))


def argmax(input, axis=None, output_type=int64, name=None, dimension=None):
  a = _arr(input)
  axis = 0 if axis is None and dimension is None else (axis if axis is not None else dimension)
  if not a.shape[axis]:
    raise _IAE('Reduction axis %s is empty in shape %s' % (axis, a.shape))
  return _T(_np.argmax(a, axis=_axis(axis)).astype(as_dtype(output_type)._np))


def argmin(input, axis=None, output_type=int64, name=None, dimension=None):
  a = _arr(input)
  axis = 0 if axis is None and dimension is None else (axis if axis is not None else dimension)
  if not a.shape[axis]:
    raise _IAE('Reduction axis %s is empty in shape %s' % (axis, a.shape))
  return _T(_np.argmin(a, axis=_axis(axis)).astype(as_dtype(output_type)._np))


def sort(values, axis=-1, direction='ASCENDING', name=None):
  a = _np.sort(_arr(values), axis=axis, kind='stable')
  return _T(_np.flip(a, axis) if direction == 'DESCENDING' else a)


def argsort(values, axis=-1, direction='ASCENDING', stable=False, name=None):
  a = _arr(values)
  if direction == 'DESCENDING':
    a = -a.astype(_np.float64) if a.dtype.kind != 'f' else -a
  return _T(_np.argsort(a, axis=axis, kind='stable').astype(_np.int32))


_TopK = __import__('collections').namedtuple('TopKV2', ['values', 'indices'])


def top_k(input, k=1, sorted=True, name=None):
  a = _arr(input)
  idx = _np.argsort(-a.astype(_np.float64), axis=-1, kind='stable')[..., :_as_int(k)]
  return _TopK(_T(_np.take_along_axis(a, idx, -1)), _T(idx.astype(_np.int32)))


# ---------------------------------------------------------------- shape ops ---
def shape(input, out_type=int32, name=None):
  return _T(_np.array(_arr(input).shape, as_dtype(out_type)._np))


def size(input, out_type=int32, name=None):
  return _T(_np.array(_arr(input).size, as_dtype(out_type)._np))


def rank(input, name=None):
  return _T(_np.array(_arr(input).ndim, _np.int32))


def reshape(tensor, shape, name=None):
  a = _arr(tensor)
  s = _shape(shape)
  try:
    return _T(a.reshape(s))
  except ValueError as e:
    raise _IAE(str(e))


def transpose(a, perm=None, conjugate=False, name=None):
  x = _arr(a)
  if perm is None:
    return _T(x.transpose())
  p = _shape(perm)
  try:
    return _T(x.transpose(p))
  except ValueError as e:
    raise _IAE(str(e))


def matrix_transpose(a, name=None):
  return _T(_np.swapaxes(_arr(a), -1, -2))


def expand_dims(input, axis, name=None):
  a = _arr(input)
  ax = _axis(axis)
  if isinstance(ax, tuple):
    ax, = ax
  if not -a.ndim - 1 <= ax <= a.ndim:
    raise _IAE('Tried to expand dim index %d for tensor with %d dimensions.' % (ax, a.ndim))
  return _T(_np.expand_dims(a, ax))


def squeeze(input, axis=None, name=None, squeeze_dims=None):
  a = _arr(input)
  ax = _axis(axis if axis is not None else squeeze_dims)
  if isinstance(ax, tuple) and not ax:
    ax = None
  try:
    return _T(_np.squeeze(a, ax))
  except ValueError as e:
    raise _IAE(str(e))


def concat(values, axis, name='concat'):
  if isinstance(values, Tensor):
    values = list(values)
  dt = None
  for v in values:
    if isinstance(v, Tensor):
      dt = v._a.dtype
      break
  if dt is None:
    dt = _arr(values[0]).dtype
  parts = [_arr(v, dt) if dt != object else _arr(v) for v in values]
  ax = _axis(axis)
  for p in parts:
    if p.ndim == 0:
      raise _IAE('ConcatOp : Expected concatenating dimensions in the range, got a scalar')
  try:
    return _T(_np.concatenate(parts, axis=ax))
  except ValueError as e:
    raise _IAE(str(e))


def stack(values, axis=0, name='stack'):
  if isinstance(values, Tensor):
    values = list(values)
  values = list(values)
  if not values:
    raise ValueError('stack of no tensors')
  dt = None
  for v in values:
    if isinstance(v, Tensor):
      dt = v._a.dtype
      break
  if dt is None:
    whole = _arr(values)
    dt = whole.dtype
  parts = [_arr(v, dt) if dt != object else _arr(v) for v in values]
  try:
    return _T(_np.stack(parts, axis=_axis(axis)))
  except ValueError as e:
    raise _IAE(str(e))


def unstack(value, num=None, axis=0, name='unstack'):
  a = _arr(value)
  if num is not None and a.shape[axis] != num:
    raise ValueError('bad num in unstack')
  return [_T(x) for x in _np.moveaxis(a, axis, 0)]


def split(value, num_or_size_splits, axis=0, num=None, name='split'):
  a = _arr(value)
  n = num_or_size_splits
  if isinstance(n, Tensor):
    n = n._a.tolist()
  if isinstance(n, (int_, _np.integer)):
    if a.shape[axis] % n:
      raise _IAE('Dimension size must be evenly divisible by %d but is %d' % (n, a.shape[axis]))
    return [_T(x) for x in _np.split(a, n, axis=axis)]
  n = [_as_int(x) for x in n]
  if -1 in n:
    n[n.index(-1)] = a.shape[axis] - sum(x for x in n if x != -1)
  if sum(n) != a.shape[axis]:
    raise _IAE('Determined shape must either match input shape along split_dim exactly')
  return [_T(x) for x in _np.split(a, _np.cumsum(n)[:-1], axis=axis)]


def tile(input, multiples, name=None):
  a = _arr(input)
  m = _shape(multiples)
  if len(m) != a.ndim:
    raise _IAE('Expected multiples argument to be a vector of length %d but got length %d' % (a.ndim, len(m)))
  return _T(_np.tile(a, m))


def repeat(input, repeats, axis=None, name=None):
  a = _arr(input)
  r = _np.asarray(repeats) if not isinstance(repeats, Tensor) else repeats._a
  return _T(_np.repeat(a, r, axis=axis))


def broadcast_to(input, shape, name=None):
  a = _arr(input)
  try:
    return _T(_np.broadcast_to(a, _shape(shape)).copy())
  except ValueError as e:
    raise _IAE(str(e))


def broadcast_static_shape(a, b):
  return TensorShape(_np.broadcast_shapes(tuple(a), tuple(b)))


def broadcast_dynamic_shape(a, b):
  return _T(_np.array(_np.broadcast_shapes(_shape(a), _shape(b)), _np.int32))


def pad(tensor, paddings, mode='CONSTANT', constant_values=0, name=None):
  a = _arr(tensor)
  p = _np.asarray(paddings if not isinstance(paddings, Tensor) else paddings._a).tolist()
  mode = mode.upper()
  if mode == 'CONSTANT':
    return _T(_np.pad(a, p, constant_values=_arr(constant_values, as_dtype(a.dtype))
                      if a.dtype != object else constant_values))
  for n, (lo, hi) in zip(a.shape, p):
    if max(lo, hi) > n - (mode == 'REFLECT'):
      raise _IAE('paddings must be less than the dimension size: %d, %d not less than %d' % (lo, hi, n))
  return _T(_np.pad(a, p, mode={'REFLECT': 'reflect', 'SYMMETRIC': 'symmetric'}[mode]))


def reverse(tensor, axis, name=None):
  return _T(_np.flip(_arr(tensor), _axis(axis)))


def roll(input, shift, axis, name=None):
  a = _arr(input)
  return _T(_np.roll(a, _axis(shift), _axis(axis)))


def slice_(input_, begin, size, name=None):
  a = _arr(input_)
  b, s = _shape(begin), _shape(size)
  return _T(a[tuple(slice(x, None if y == -1 else x + y) for x, y in zip(b, s))])


globals()['slice_op'] = slice_


def zeros(shape, dtype=float32, name=None):
  d = as_dtype(dtype)
  if d is string:
    return _T(_np.full(_shape(shape), b'', object))
  return _T(_np.zeros(_shape(shape), d._np))


def ones(shape, dtype=float32, name=None):
  return _T(_np.ones(_shape(shape), as_dtype(dtype)._np))


def zeros_like(input, dtype=None, name=None, optimize=True):
  a = _arr(input)
  return _T(_np.zeros(a.shape, as_dtype(dtype)._np if dtype is not None else a.dtype))


def ones_like(input, dtype=None, name=None, optimize=True):
  a = _arr(input)
  return _T(_np.ones(a.shape, as_dtype(dtype)._np if dtype is not None else a.dtype))


def fill(dims, value, name=None):
  v = _arr(value)
  return _T(_np.full(_shape(dims), v, v.dtype))


def eye(num_rows, num_columns=None, batch_shape=None, dtype=float32, name=None):
  e = _np.eye(_as_int(num_rows), None if num_columns is None else _as_int(num_columns),
              dtype=as_dtype(dtype)._np)
  if batch_shape is not None:
    e = _np.broadcast_to(e, _shape(batch_shape) + e.shape).copy()
  return _T(e)


def range(start, limit=None, delta=1, dtype=None, name='range'):
  if limit is None:
    start, limit = 0, start
  vals = [start, limit, delta]
  if dtype is None:
    arrs = [_arr(v) for v in vals]
    order = ['int32', 'int64', 'float32', 'float64']
    names = [x.dtype.name for x in arrs]
    for n in names:
      if n not in order:
        raise TypeError('bad dtype for range: %s' % n)
    dt = _np.dtype(_b.max(names, key=order.index))
  else:
    dt = as_dtype(dtype)._np
  s, l, d = [_arr(v)[()] for v in vals]
  if d == 0:
    raise _IAE('Requires delta != 0')
  if dt.kind == 'f':
    n = _b.max(0, int_(_np.ceil((float(l) - float(s)) / float(d))))
    return _T((_np.asarray(s, dt) + _np.arange(n).astype(dt) * _np.asarray(d, dt)).astype(dt))
  return _T(_np.arange(int_(s), int_(l), int_(d), dtype=dt))


def linspace(start, stop, num, name=None, axis=0):
  a, b = _pair(start, stop, 'LinSpace')
  if a.dtype.kind in 'iu':
    a, b = a.astype(_np.float64), b.astype(_np.float64)
  n = _as_int(num)
  if n <= 0:
    raise _IAE('Requires num > 0')
  return _T(_np.linspace(a, b, n, axis=axis).astype(a.dtype))


def meshgrid(*args, **kwargs):
  if len(args) == 1 and isinstance(args[0], (list, tuple)):
    args = args[0]
  return [_T(x.copy()) for x in _np.meshgrid(*[_arr(a) for a in args],
                                             indexing=kwargs.get('indexing', 'xy'))]


def one_hot(indices, depth, on_value=None, off_value=None, axis=None, dtype=None, name=None):
  i = _arr(indices)
  d = as_dtype(dtype)._np if dtype is not None else (
      _arr(on_value).dtype if on_value is not None else _np.dtype(_np.float32))
  on = 1 if on_value is None else _arr(on_value)[()]
  off = 0 if off_value is None else _arr(off_value)[()]
  r = _np.where(i[..., None] == _np.arange(_as_int(depth)), on, off).astype(d)
  if axis is not None and axis != -1:
    r = _np.moveaxis(r, -1, axis)
  return _T(r)


def sequence_mask(lengths, maxlen=None, dtype=bool, name=None):
  l = _arr(lengths)
  m = int_(l.max()) if maxlen is None else _as_int(maxlen)
  return _T((_np.arange(m) < l[..., None]).astype(as_dtype(dtype)._np))


# ------------------------------------------------------- gather and scatter ---
def _index_arr(i):
  a = _arr(i)
  if a.dtype.kind not in 'iu':
    raise _IAE('indices must be integers, got %s' % as_dtype(a.dtype).name)
  return a.astype(_np.int64)


def gather(params, indices, validate_indices=None, axis=None, batch_dims=0, name=None):
  p = _arr(params)
  i = _index_arr(indices)
  bd = int_(batch_dims)
  if bd < 0:
    bd += i.ndim
  ax = _axis(axis)
  if ax is None:
    ax = bd
  if ax < 0:
    ax += p.ndim
  n = p.shape[ax]
  if i.size and (i.min() < 0 or i.max() >= n):
    raise _IAE('indices are out of bounds: not in [0, %d)' % n)
  if bd == 0:
    return _T(_np.take(p, i, axis=ax))
  if p.shape[:bd] != i.shape[:bd]:
    raise _IAE('batch dimensions differ: %s vs %s' % (p.shape, i.shape))
  out_shape = p.shape[:ax] + i.shape[bd:] + p.shape[ax + 1:]
  out = _np.empty(out_shape, p.dtype)
  for b in _np.ndindex(*p.shape[:bd]):
    out[b] = _np.take(p[b], i[b], axis=ax - bd)
  return _T(out)


def _nd_indices(i, shape_, what):
  k = i.shape[-1]
  if k > len(shape_):
    raise _IAE('%s: index innermost dimension length must be <= params rank' % what)
  for d in _b.range(k):
    c = i[..., d]
    if c.size and (c.min() < 0 or c.max() >= shape_[d]):
      raise _IAE('%s: indices do not index into shape %s' % (what, list(shape_)))
  return tuple(i[..., d] for d in _b.range(k))


def gather_nd(params, indices, batch_dims=0, name=None):
  p = _arr(params)
  i = _index_arr(indices)
  bd = int_(batch_dims)
  if bd == 0:
    if i.shape[-1] == 0:
      return _T(_np.broadcast_to(p, i.shape[:-1] + p.shape).copy())
    return _T(p[_nd_indices(i, p.shape, 'GatherNd')])
  if p.shape[:bd] != i.shape[:bd]:
    raise _IAE('batch dimensions differ')
  parts = []
  for b in _np.ndindex(*p.shape[:bd]):
    parts.append(p[b][_nd_indices(i[b], p[b].shape, 'GatherNd')])
  k = i.shape[-1]
  tail = i.shape[bd:-1] + p.shape[bd + k:]
  if not parts:
    return _T(_np.empty(p.shape[:bd] + tail, p.dtype))
  return _T(_np.stack(parts).reshape(p.shape[:bd] + tail))


def scatter_nd(indices, updates, shape, name=None):
  u = _arr(updates)
  out = _np.zeros(_shape(shape), u.dtype)
  i = _index_arr(indices)
  ix = _nd_indices(i, out.shape, 'ScatterNd')
  want = i.shape[:-1] + out.shape[i.shape[-1]:]
  if u.shape != want:
    raise _IAE('ScatterNd: updates shape %s, expected %s' % (u.shape, want))
  if u.dtype.kind == 'b':
    _np.logical_or.at(out, ix, u)
  else:
    _np.add.at(out, ix, u)
  return _T(out)


def _tensor_scatter(fn):
  def op(tensor, indices, updates, name=None):
    out = _np.array(_arr(tensor))
    u = _arr(updates, as_dtype(out.dtype))
    i = _index_arr(indices)
    ix = _nd_indices(i, out.shape, 'TensorScatter')
    want = i.shape[:-1] + out.shape[i.shape[-1]:]
    if u.shape != want:
      raise _IAE('TensorScatter: updates shape %s, expected %s' % (u.shape, want))
    fn(out, ix, u)
    return _T(out)
  return op


def _assign_at(out, ix, u):
  out[ix] = u


tensor_scatter_nd_update = _tensor_scatter(_assign_at)
tensor_scatter_nd_add = _tensor_scatter(_np.add.at)
tensor_scatter_nd_sub = _tensor_scatter(_np.subtract.at)
tensor_scatter_nd_max = _tensor_scatter(_np.maximum.at)
tensor_scatter_nd_min = _tensor_scatter(_np.minimum.at)


def _unsorted(fn, init):
  def op(data, segment_ids, num_segments, name=None):
    d = _arr(data)
    s = _index_arr(segment_ids)
    n = _as_int(num_segments)
    if d.shape[:s.ndim] != s.shape:
      raise _IAE('data.shape = %s does not start with segment_ids.shape = %s' % (d.shape, s.shape))
    if s.size and s.max() >= n:
      raise _IAE('segment_ids out of range')
    out = _np.full((n,) + d.shape[s.ndim:], init(d.dtype), d.dtype)
    keep = s >= 0
    fn(out, s[keep], d[keep])
    return _T(out)
  return op


def _lowest(dt):
  return _np.finfo(dt).min if dt.kind == 'f' else _np.iinfo(dt).min


def _highest(dt):
  return _np.finfo(dt).max if dt.kind == 'f' else _np.iinfo(dt).max


unsorted_segment_sum = _unsorted(_np.add.at, lambda dt: 0)
unsorted_segment_prod = _unsorted(_np.multiply.at, lambda dt: 1)
unsorted_segment_max = _unsorted(_np.maximum.at, _lowest)
unsorted_segment_min = _unsorted(_np.minimum.at, _highest)


def unsorted_segment_mean(data, segment_ids, num_segments, name=None):
  d = _arr(data)
  s = unsorted_segment_sum(data, segment_ids, num_segments)._a
  n = unsorted_segment_sum(_np.ones_like(d), segment_ids, num_segments)._a
  return _T((s / _np.maximum(n, 1)).astype(d.dtype))


def _sorted_seg(op):
  def f(data, segment_ids, name=None):
    s = _index_arr(segment_ids)
    if _np.any(_np.diff(s) < 0):
      raise _IAE('segment ids are not increasing')
    n = int_(s[-1]) + 1 if s.size else 0
    r = op(data, segment_ids, n)._a.copy()
    miss = ~_np.isin(_np.arange(n), s)
    r[miss] = 0
    return _T(r)
  return f


segment_sum = _sorted_seg(unsorted_segment_sum)
segment_max = _sorted_seg(unsorted_segment_max)
segment_min = _sorted_seg(unsorted_segment_min)
segment_mean = _sorted_seg(unsorted_segment_mean)


def boolean_mask(tensor, mask, axis=None, name='boolean_mask'):
  a = _arr(tensor)
  m = _arr(mask)
  if m.dtype.kind != 'b':
    raise TypeError('boolean_mask needs a bool mask')
  if m.ndim == 0:
    raise ValueError('mask cannot be scalar.')
  ax = 0 if axis is None else _axis(axis)
  if ax < 0:
    ax += a.ndim
  if a.shape[ax:ax + m.ndim] != m.shape:
    raise ValueError('Shapes %s and %s are incompatible' % (a.shape[ax:ax + m.ndim], m.shape))
  return _T(a[(slice(None),) * ax + (m,)])


def where(condition, x=None, y=None, name=None):
  c = _arr(condition)
  if x is None and y is None:
    return _T(_np.argwhere(c).astype(_np.int64))
  if c.dtype.kind != 'b':
    raise _IAE('cannot compute SelectV2 as input #0 was expected to be a bool tensor')
  a, b = _pair(x, y, 'SelectV2')
  try:
    return _T(_np.where(c, a, b))
  except ValueError as e:
    raise _IAE(str(e))


def _where_v1(condition, x=None, y=None, name=None):
  c = _arr(condition)
  if x is None and y is None:
    return _T(_np.argwhere(c).astype(_np.int64))
  a, b = _pair(x, y, 'Select')
  if a.shape != b.shape:
    raise _IAE('Select: shapes of t and e differ: %s %s' % (a.shape, b.shape))
  if c.shape != a.shape:
    if c.ndim == 1 and a.ndim >= 1 and c.shape[0] == a.shape[0]:
      c = c.reshape((-1,) + (1,) * (a.ndim - 1))
    elif c.ndim != 0:
      raise _IAE('Select: bad cond shape %s for %s' % (c.shape, a.shape))
  return _T(_np.where(c, a, b))


_Unique = __import__('collections').namedtuple('Unique', ['y', 'idx'])
_UniqueC = __import__('collections').namedtuple('UniqueWithCounts', ['y', 'idx', 'count'])


def unique_with_counts(x, out_idx=int32, name=None):
  a = _arr(x)
  if a.ndim != 1:
    raise _IAE('unique expects a 1D vector.')
  seen, ys, idx = {}, [], []
  for v in a.tolist():
    if v not in seen:
      seen[v] = len(ys)
      ys.append(v)
    idx.append(seen[v])
  d = as_dtype(out_idx)._np
  cnt = _np.bincount(_np.array(idx, int), minlength=len(ys)) if ys else _np.zeros(0)
  return _UniqueC(_T(_np.array(ys, a.dtype)), _T(_np.array(idx, d)), _T(cnt.astype(d)))


def unique(x, out_idx=int32, name=None):
  y, i, _ = unique_with_counts(x, out_idx)
  return _Unique(y, i)


def invert_permutation(x, name=None):
  p = _arr(x)
  r = _np.empty_like(p)
  r[p] = _np.arange(len(p))
  return _T(r)


def searchsorted(sorted_sequence, values, side='left', out_type=int32, name=None):
  s, v = _arr(sorted_sequence), _arr(values)
  if s.ndim == 1:
    return _T(_np.searchsorted(s, v, side=side).astype(as_dtype(out_type)._np))
  s2, v2 = s.reshape(-1, s.shape[-1]), v.reshape(-1, v.shape[-1])
  return _T(_np.stack([_np.searchsorted(p, q, side=side) for p, q in zip(s2, v2)]
                      ).reshape(v.shape).astype(as_dtype(out_type)._np))


def histogram_fixed_width_bins(values, value_range, nbins=100, dtype=int32, name=None):
  v = _arr(values)
  lo, hi = _arr(value_range)
  n = _as_int(nbins)
  scaled = (v - lo) / (hi - lo)
  r = _np.clip(_np.floor(n * scaled), 0, n - 1)
  return _T(r.astype(as_dtype(dtype)._np))


def histogram_fixed_width(values, value_range, nbins=100, dtype=int32, name=None):
  b = histogram_fixed_width_bins(values, value_range, nbins)._a.ravel()
  return _T(_np.bincount(b, minlength=_as_int(nbins)).astype(as_dtype(dtype)._np))


def bincount(arr, minlength=None, maxlength=None, weights=None, dtype=int32, name=None):
  a = _arr(arr).ravel()
  r = _np.bincount(a, minlength=0 if minlength is None else _as_int(minlength))
  if maxlength is not None:
    r = r[:_as_int(maxlength)]
  return _T(r.astype(as_dtype(dtype)._np))


# ------------------------------------------------------------ linear algebra ---
def matmul(a, b, transpose_a=False, transpose_b=False, adjoint_a=False, adjoint_b=False, name=None,
           **k):
  x, y = _pair(a, b, 'BatchMatMulV2')
  if x.ndim < 2 or y.ndim < 2:
    raise _IAE('In[0] and In[1] ndims must be >= 2: %d %d' % (x.ndim, y.ndim))
  if transpose_a or adjoint_a:
    x = _np.swapaxes(x, -1, -2)
  if transpose_b or adjoint_b:
    y = _np.swapaxes(y, -1, -2)
  try:
    return _T(_np.matmul(x, y))
  except ValueError as e:
    raise _IAE(str(e))


def matvec(a, b, transpose_a=False, name=None, **k):
  x, y = _pair(a, b, 'MatVec')
  if transpose_a:
    x = _np.swapaxes(x, -1, -2)
  return _T(_np.matmul(x, y[..., None])[..., 0])


def tensordot(a, b, axes, name=None):
  x, y = _pair(a, b, 'Tensordot')
  if isinstance(axes, Tensor):
    axes = axes._a.tolist()
  return _T(_np.tensordot(x, y, axes))


def einsum(equation, *inputs, **kwargs):
  dt = None
  for v in inputs:
    if isinstance(v, Tensor):
      dt = v._a.dtype
      break
  if dt is None:
    dt = _arr(inputs[0]).dtype
  try:
    return _T(_np.einsum(equation, *[_arr(v, as_dtype(dt)) for v in inputs]).astype(dt))
  except ValueError as e:
    raise _IAE(str(e))


def norm(tensor, ord='euclidean', axis=None, keepdims=None, name=None):
  a = _arr(tensor)
  if a.dtype.kind != 'f':
    raise _IAE('norm needs floats')
  ax = _axis(axis)
  kd = _b.bool(keepdims)
  with _np.errstate(all='ignore'):
    if ord in ('euclidean', 'fro') or ord == 2:
      return _T(_np.sqrt(_np.sum(a * a, axis=ax, keepdims=kd)).astype(a.dtype))
    if ord == 1:
      return _T(_np.sum(_np.abs(a), axis=ax, keepdims=kd).astype(a.dtype))
    if ord == _np.inf:
      return _T(_np.max(_np.abs(a), axis=ax, keepdims=kd).astype(a.dtype))
  raise ShimMissing('norm ord %r' % (ord,))


def _inv(input, adjoint=False, name=None):
  a = _arr(input)
  try:
    r = _np.linalg.inv(a.astype(_np.float64))
  except _np.linalg.LinAlgError:
    raise _IAE('Input is not invertible.')
  return _T(r.astype(a.dtype))


def _diag(diagonal, k=0, name='diag', **kw):
  a = _arr(diagonal)
  n = a.shape[-1]
  out = _np.zeros(a.shape + (n,), a.dtype)
  out[..., _np.arange(n), _np.arange(n)] = a
  return _T(out)


def _diag_part(input, k=0, name='diag_part', **kw):
  return _T(_np.diagonal(_arr(input), axis1=-2, axis2=-1).copy())


def _set_diag(input, diagonal, name='set_diag', k=0, **kw):
  a = _np.array(_arr(input))
  n = _b.min(a.shape[-2:])
  a[..., _np.arange(n), _np.arange(n)] = _arr(diagonal, as_dtype(a.dtype))
  return _T(a)


def _band_part(input, num_lower, num_upper, name=None):
  a = _arr(input)
  i, j = _np.ogrid[:a.shape[-2], :a.shape[-1]]
  lo, up = _as_int(num_lower), _as_int(num_upper)
  m = ((lo < 0) | (i - j <= lo)) & ((up < 0) | (j - i <= up))
  return _T(_np.where(m, a, 0).astype(a.dtype))


def _cross(a, b, name=None):
  x, y = _pair(a, b, 'Cross')
  return _T(_np.cross(x, y).astype(x.dtype))


def _l2_normalize(x, axis=None, epsilon=1e-12, name=None, dim=None):
  a = _arr(x)
  s = _np.sum(a * a, axis=_axis(axis), keepdims=True)
  return _T((a / _np.sqrt(_np.maximum(s, epsilon))).astype(a.dtype))


def _solve(matrix, rhs, adjoint=False, name=None):
  a, b = _pair(matrix, rhs)
  return _T(_np.linalg.solve(a, b).astype(a.dtype))


# ------------------------------------------------------------- control flow ---
def cond(pred, true_fn=None, false_fn=None, name=None):
  return true_fn() if _b.bool(_arr(pred)) else false_fn()


def case(pred_fn_pairs, default=None, exclusive=False, strict=False, name='case'):
  for p, f in pred_fn_pairs:
    if _b.bool(_arr(p)):
      return f()
  return default()


def while_loop(cond, body, loop_vars, *a, **k):
  v = list(loop_vars)
  while _b.bool(_arr(cond(*v))):
    r = body(*v)
    v = list(r) if isinstance(r, (list, tuple)) else [r]
  return v


def _flatten(x):
  if isinstance(x, dict):
    return [z for k in sorted(x) for z in _flatten(x[k])]
  if isinstance(x, (list, tuple)):
    return [z for y in x for z in _flatten(y)]
  return [x]


def _pack_as(struct, it):
  if isinstance(struct, dict):
    vals = {k: _pack_as(struct[k], it) for k in sorted(struct)}
    return {k: vals[k] for k in struct}
  if isinstance(struct, tuple) and hasattr(struct, '_fields'):
    return type(struct)(*[_pack_as(y, it) for y in struct])
  if isinstance(struct, (list, tuple)):
    return type(struct)(_pack_as(y, it) for y in struct)
  return next(it)


def _map_structure(fn, *structs, **k):
  flats = [_flatten(s) for s in structs]
  return _pack_as(structs[0], iter([fn(*xs) for xs in zip(*flats)]))


nest = _NS(
    flatten=_flatten, map_structure=_map_structure,
    pack_sequence_as=lambda s, f: _pack_as(s, iter(f)),
    is_nested=lambda x: isinstance(x, (list, tuple, dict)))


def map_fn(fn, elems, dtype=None, parallel_iterations=None, back_prop=True, swap_memory=False,
           infer_shape=True, name=None, fn_output_signature=None):
  flat = [_arr(e) for e in _flatten(elems)]
  n = flat[0].shape[0]
  outs = []
  for i in _b.range(n):
    outs.append(fn(_pack_as(elems, iter([_T(f[i]) for f in flat]))))
  sig = fn_output_signature if fn_output_signature is not None else dtype
  if not n:
    if sig is None:
      return _pack_as(elems, iter([_T(f) for f in flat]))
    return _map_structure(lambda d: _T(_np.zeros((0,), as_dtype(getattr(d, 'dtype', d))._np)), sig)
  flats = [_flatten(o) for o in outs]
  if sig is not None:
    for d, t in zip(_flatten(sig), flats[0]):
      d = getattr(d, 'dtype', d)
      if _arr(t).dtype != as_dtype(d)._np:
        raise TypeError('map_fn: output dtype %s, declared %s' % (_arr(t).dtype, d))
  return _pack_as(outs[0], iter([stack(col) for col in zip(*flats)]))


vectorized_map = map_fn


def scan(fn, elems, initializer=None, **k):
  a = _arr(elems)
  acc = initializer if initializer is not None else _T(a[0])
  out = [] if initializer is not None else [acc]
  for i in _b.range(0 if initializer is not None else 1, a.shape[0]):
    acc = fn(acc, _T(a[i]))
    out.append(acc)
  return stack(out)


def foldl(fn, elems, initializer=None, **k):
  a = _arr(elems)
  acc = initializer if initializer is not None else _T(a[0])
  for i in _b.range(0 if initializer is not None else 1, a.shape[0]):
    acc = fn(acc, _T(a[i]))
  return acc


class TensorArray:
  def __init__(self, dtype, size=None, dynamic_size=None, **k):
    self._d, self._v = dtype, {}

  def write(self, i, v):
    self._v[_as_int(i)] = convert_to_tensor(v)
    return self

  def read(self, i):
    return self._v[_as_int(i)]

  def stack(self):
    return stack([self._v[i] for i in sorted(self._v)])

  def size(self):
    return constant(len(self._v))


def function(func=None, **kwargs):
  if func is None:
    return lambda f: f
  return func


def py_function(func=None, inp=None, Tout=None, name=None, **k):
  r = func(*[convert_to_tensor(i) for i in inp])
  if isinstance(Tout, (list, tuple)):
    return [convert_to_tensor(x, t) for x, t in zip(r, Tout)]
  return convert_to_tensor(r, Tout)


def numpy_function(func=None, inp=None, Tout=None, name=None, **k):
  r = func(*[_arr(i) for i in inp])
  if isinstance(Tout, (list, tuple)):
    return [convert_to_tensor(x, t) for x, t in zip(r, Tout)]
  return convert_to_tensor(r, Tout)


py_func = numpy_function


def identity(input, name=None):
  return Tensor(_np.array(_arr(input)))


def stop_gradient(input, name=None):
  return identity(input)


def ensure_shape(x, shape, name=None):
  t = convert_to_tensor(x)
  if not t.shape.is_compatible_with(shape):
    raise _IAE('Shape of tensor %s is not compatible with expected shape %s' % (t.shape, TensorShape(shape)))
  return t


class name_scope:
  def __init__(self, name=None, *a, **k):
    self.name = name

  def __enter__(self):
    return self.name or ''

  def __exit__(self, *a):
    return False

  def __call__(self, f):
    return f


class _Null:
  def __init__(self, *a, **k):
    pass

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False


control_dependencies = device = _Null


def group(*a, **k):
  return None


def no_op(name=None):
  return None


def executing_eagerly():
  return True


def print_(*a, **k):
  pass


globals()['print'] = print_


# --------------------------------------------------------------- assertions ---
def _msg(message, default):
  return '%s %s' % (message, default) if message else default


# Enum fields take eager scalars, as they do with the C++ protobuf runtime.
def _patch_enum_checker():
  from google.protobuf.internal import type_checkers
  c = type_checkers.EnumValueChecker
  old = c.CheckValue
  c.CheckValue = lambda self, v: old(self, int_(v) if isinstance(v, Tensor) else v)


_patch_enum_checker()


def _assert(fn, text):
  def op(x, y, message=None, summarize=None, name=None, data=None):
    a, b = _pair(x, y, text)
    if not _np.all(fn(a, b)):
      raise _IAE(_msg(message, 'Condition x %s y did not hold.' % text))
  return op


assert_equal = _assert(_np.equal, '==')
assert_less = _assert(_np.less, '<')
assert_less_equal = _assert(_np.less_equal, '<=')
assert_greater = _assert(_np.greater, '>')
assert_greater_equal = _assert(_np.greater_equal, '>=')
assert_none_equal = _assert(_np.not_equal, '!=')


def assert_non_negative(x, *a, message=None, **k):
  if not _np.all(_arr(x) >= 0):
    raise _IAE(_msg(message, 'Condition x >= 0 did not hold.'))


def assert_positive(x, *a, message=None, **k):
  if not _np.all(_arr(x) > 0):
    raise _IAE(_msg(message, 'Condition x > 0 did not hold.'))


def assert_near(x, y, rtol=None, atol=None, message=None, **k):
  if not _np.allclose(_arr(x), _arr(y), rtol=rtol or 1e-6, atol=atol or 1e-6):
    raise _IAE(_msg(message, 'x and y not equal to tolerance'))


def assert_rank(x, rank, message=None, name=None, **k):
  if _arr(x).ndim != _as_int(rank):
    raise ValueError(_msg(message, 'Tensor  must have rank %s.  Received rank %d, shape %s'
                          % (rank, _arr(x).ndim, _arr(x).shape)))


def assert_rank_at_least(x, rank, message=None, name=None, **k):
  if _arr(x).ndim < _as_int(rank):
    raise ValueError(_msg(message, 'Tensor must have rank at least %s' % rank))


def assert_rank_in(x, ranks, message=None, name=None, **k):
  if _arr(x).ndim not in [_as_int(r) for r in ranks]:
    raise ValueError(_msg(message, 'Tensor must have a rank in %s' % (ranks,)))


def assert_type(t, tf_type, message=None, name=None):
  if convert_to_tensor(t).dtype != tf_type:
    raise TypeError(_msg(message, 'tensor must be of type %s' % tf_type))


def assert_scalar(x, **k):
  if _arr(x).ndim:
    raise ValueError('expected scalar')


def assert_shapes(shapes, data=None, summarize=None, message=None, name=None):
  items = shapes.items() if isinstance(shapes, dict) else shapes
  sizes = {}
  for x, dims in items:
    if isinstance(x, _Ref):
      x = x.deref()
    a = _arr(x)
    if isinstance(dims, str):
      dims = tuple(dims)
    if not isinstance(dims, (list, tuple)):
      dims = (dims,)
    dims = list(dims)
    if dims and dims[0] is Ellipsis or dims and dims[0] == '...':
      dims = dims[1:]
      if a.ndim < len(dims):
        raise ValueError(_msg(message, 'rank too small'))
      actual = a.shape[a.ndim - len(dims):] if dims else ()
    elif dims and (dims[-1] is Ellipsis):
      dims = dims[:-1]
      actual = a.shape[:len(dims)]
      if a.ndim < len(dims):
        raise ValueError(_msg(message, 'rank too small'))
    else:
      if a.ndim != len(dims):
        raise ValueError(_msg(message, 'Tensor must have rank %d. Received rank %d' % (len(dims), a.ndim)))
      actual = a.shape
    for d, s in zip(dims, actual):
      if d is None or d == '*':
        continue
      if isinstance(d, str) and not d.isdigit():
        if sizes.setdefault(d, s) != s:
          raise ValueError(_msg(message, 'Specified with dims %s: dimension %s is %d, expected %d'
                                % (dims, d, s, sizes[d])))
      elif int_(d) != s:
        raise ValueError(_msg(message, 'Specified with dims %s: dimension is %d, expected %d' % (dims, s, int_(d))))


def Assert(condition, data, summarize=None, name=None):
  if not _b.bool(_arr(condition)):
    raise _IAE('assertion failed: %s' % (data,))


def check_numerics(tensor, message, name=None):
  a = _arr(tensor)
  if not _np.all(_np.isfinite(a)):
    raise _IAE('%s : Tensor had Inf or NaN values' % message)
  return Tensor(a)


def _module(name, **attrs):
  m = _types.ModuleType('tensorflow.' + name)
  for k, v in attrs.items():
    setattr(m, k, v)
  _sys.modules['tensorflow.' + name] = m
  return m


debugging = _module('debugging', assert_shapes=assert_shapes, assert_equal=assert_equal,
                    assert_less=assert_less, assert_less_equal=assert_less_equal,
                    assert_greater=assert_greater, assert_greater_equal=assert_greater_equal,
                    assert_none_equal=assert_none_equal, assert_rank=assert_rank,
                    assert_rank_at_least=assert_rank_at_least, assert_rank_in=assert_rank_in,
                    assert_type=assert_type, assert_scalar=assert_scalar,
                    assert_non_negative=assert_non_negative, assert_positive=assert_positive,
                    assert_near=assert_near, Assert=Assert, check_numerics=check_numerics,
                    is_numeric_tensor=lambda t: isinstance(t, Tensor) and t._a.dtype.kind in 'fiuc',
                    enable_check_numerics=lambda *a, **k: None)

_here = globals()
math = _module('math')
for _n in ('abs add argmax argmin sin cos tan asin acos atan atan2 tanh sinh cosh exp expm1 log log1p '
           'sqrt rsqrt square sign round floor ceil rint pow maximum minimum mod floormod floordiv '
           'multiply divide truediv subtract divide_no_nan multiply_no_nan is_nan is_inf is_finite '
           'reduce_sum reduce_mean reduce_max reduce_min reduce_prod reduce_any reduce_all '
           'reduce_variance reduce_std reduce_logsumexp reduce_euclidean_norm cumsum cumprod equal '
           'not_equal less less_equal greater greater_equal logical_and logical_or logical_not '
           'logical_xor unsorted_segment_sum unsorted_segment_prod unsorted_segment_max '
           'unsorted_segment_min unsorted_segment_mean segment_sum segment_max segment_min '
           'segment_mean add_n invert_permutation count_nonzero top_k sigmoid reciprocal negative '
           'squared_difference bincount searchsorted').split():
  setattr(math, _n, _here[_n])
math.softmax = lambda logits, axis=-1, name=None: nn.softmax(logits, axis)
math.l2_normalize = _l2_normalize
math.ceil = ceil
math.pi = _np.float32(_math.pi)


def _softmax(logits, axis=-1, name=None):
  a = _arr(logits)
  e = _np.exp(a - a.max(axis=axis, keepdims=True))
  return _T((e / e.sum(axis=axis, keepdims=True)).astype(a.dtype))


def _max_pool(input, ksize, strides, padding, **k):
  raise ShimMissing('max_pool')


nn = _module('nn', softmax=_softmax, relu=relu, l2_normalize=_l2_normalize, sigmoid=sigmoid,
             top_k=top_k, log_softmax=lambda x, axis=-1: log(_softmax(x, axis)))
linalg = _module('linalg', inv=_inv, norm=norm, matmul=matmul, diag=_diag, diag_part=_diag_part,
                 set_diag=_set_diag, band_part=_band_part, cross=_cross, eye=eye, einsum=einsum,
                 matvec=matvec, matrix_transpose=matrix_transpose, l2_normalize=_l2_normalize,
                 tensordot=tensordot, solve=_solve,
                 det=lambda x: _T(_np.linalg.det(_arr(x)).astype(_arr(x).dtype)),
                 trace=lambda x: _T(_np.trace(_arr(x), axis1=-2, axis2=-1)))
matrix_inverse = _inv


def _intop(fn):
  def op(x, y, name=None):
    a, b = _pair(x, y, 'Bitwise')
    if a.dtype.kind not in 'iu':
      raise _IAE('bitwise ops need integers')
    _bcheck(a, b)
    return _T(fn(a, b).astype(a.dtype))
  return op


bitwise = _module('bitwise', left_shift=_intop(_np.left_shift), right_shift=_intop(_np.right_shift),
                  bitwise_or=_intop(_np.bitwise_or), bitwise_and=_intop(_np.bitwise_and),
                  bitwise_xor=_intop(_np.bitwise_xor),
                  invert=lambda x, name=None: _T(~_arr(x)))


# ------------------------------------------------------------------ strings ---
def _as_string(input, precision=-1, **k):
  a = _arr(input)
  o = _np.empty(a.shape, object)
  for i in _np.ndindex(*a.shape):
    v = a[i]
    if a.dtype.kind == 'f':
      o[i] = ('%f' % v if precision < 0 else '%.*f' % (precision, v)).encode()
    elif a.dtype.kind == 'b':
      o[i] = b'true' if v else b'false'
    elif a.dtype == object:
      o[i] = v
    else:
      o[i] = str(int_(v)).encode()
  return Tensor(o)


def _str_join(inputs, separator='', name=None):
  parts = [_arr(x) for x in inputs]
  shape_ = _np.broadcast_shapes(*[p.shape for p in parts])
  parts = [_np.broadcast_to(p, shape_) for p in parts]
  o = _np.empty(shape_, object)
  for i in _np.ndindex(*shape_):
    o[i] = separator.encode().join(p[i] for p in parts)
  return Tensor(o)


def _str_length(input, unit='BYTE', name=None):
  a = _arr(input)
  o = _np.empty(a.shape, _np.int32)
  for i in _np.ndindex(*a.shape):
    o[i] = len(a[i])
  return Tensor(o)


strings = _module('strings', as_string=_as_string, join=_str_join, length=_str_length)
as_string = _as_string


# ----------------------------------------------------------------------- io ---
class _FixedLenFeature:
  def __init__(self, shape, dtype, default_value=None):
    self.shape, self.dtype, self.default_value = shape, as_dtype(dtype), default_value

  def __repr__(self):
    return 'FixedLenFeature(%r, %r)' % (self.shape, self.dtype)

  def __eq__(self, o):
    return isinstance(o, _FixedLenFeature) and list(self.shape) == list(o.shape) and self.dtype == o.dtype


class _VarLenFeature:
  def __init__(self, dtype):
    self.dtype = as_dtype(dtype)


def _make_example_protos():
  """tensorflow/core/example/{feature,example}.proto, declared dynamically."""
  from google.protobuf import descriptor_pb2, descriptor_pool, message_factory
  F = descriptor_pb2.FieldDescriptorProto
  fd = descriptor_pb2.FileDescriptorProto(name='shim/tensorflow/example.proto', package='tensorflow',
                                          syntax='proto3')

  def msg(parent, name, fields, oneof=None):
    m = parent.add(name=name)
    if oneof:
      m.oneof_decl.add(name=oneof)
    for i, (n, t, rep, tn) in enumerate(fields):
      f = m.field.add(name=n, number=i + 1, type=t, label=F.LABEL_REPEATED if rep else F.LABEL_OPTIONAL)
      if tn:
        f.type_name = tn
      if oneof:
        f.oneof_index = 0
    return m
  msg(fd.message_type, 'BytesList', [('value', F.TYPE_BYTES, True, None)])
  msg(fd.message_type, 'FloatList', [('value', F.TYPE_FLOAT, True, None)])
  msg(fd.message_type, 'Int64List', [('value', F.TYPE_INT64, True, None)])
  msg(fd.message_type, 'Feature', [('bytes_list', F.TYPE_MESSAGE, False, '.tensorflow.BytesList'),
                                   ('float_list', F.TYPE_MESSAGE, False, '.tensorflow.FloatList'),
                                   ('int64_list', F.TYPE_MESSAGE, False, '.tensorflow.Int64List')], 'kind')
  fs = msg(fd.message_type, 'Features', [('feature', F.TYPE_MESSAGE, True, '.tensorflow.Features.FeatureEntry')])
  e = msg(fs.nested_type, 'FeatureEntry', [('key', F.TYPE_STRING, False, None),
                                           ('value', F.TYPE_MESSAGE, False, '.tensorflow.Feature')])
  e.options.map_entry = True
  msg(fd.message_type, 'Example', [('features', F.TYPE_MESSAGE, False, '.tensorflow.Features')])
  pool = descriptor_pool.DescriptorPool()
  pool.Add(fd)
  fac = message_factory.MessageFactory(pool)
  return {n: fac.GetPrototype(pool.FindMessageTypeByName('tensorflow.' + n))
          for n in ('BytesList', 'FloatList', 'Int64List', 'Feature', 'Features', 'Example')}


_protos = _make_example_protos()
BytesList, FloatList, Int64List = (_protos[n] for n in ('BytesList', 'FloatList', 'Int64List'))
Feature, Features, Example = (_protos[n] for n in ('Feature', 'Features', 'Example'))


train = _module('train', Example=Example, Features=Features, Feature=Feature, Int64List=Int64List,
                FloatList=FloatList, BytesList=BytesList)


def _parse_one(ex, k, spec):
  if not isinstance(spec, _FixedLenFeature):
    raise ShimMissing('only FixedLenFeature')
  want = 'bytes_list' if spec.dtype is string else 'float_list' if spec.dtype.is_floating else 'int64_list'
  kind = ex.features.feature[k].WhichOneof('kind') if k in ex.features.feature else None
  n = int_(_np.prod(_shape(spec.shape)))
  if kind is None:
    if spec.default_value is None:
      raise _IAE('Feature: %s (data type: %s) is required but could not be found.' % (k, spec.dtype.name))
    return constant(spec.default_value, spec.dtype, spec.shape)
  if kind != want:
    raise _IAE('Key: %s.  Data types don\'t match.' % k)
  vals = list(getattr(ex.features.feature[k], kind).value)
  if len(vals) != n:
    raise _IAE('Key: %s.  Can\'t parse serialized Example.' % k)
  return reshape(constant(vals, spec.dtype), spec.shape)


def _parse_single_example(serialized, features, name=None):
  ex = Example.FromString(_arr(serialized)[()] if not isinstance(serialized, bytes) else serialized)
  return {k: _parse_one(ex, k, spec) for k, spec in features.items()}


def _parse_example(serialized, features, name=None):
  exs = [Example.FromString(x) for x in _arr(serialized).tolist()]
  return {k: stack([_parse_one(ex, k, spec) for ex in exs]) for k, spec in features.items()}


_PNG = b'\x89PNG\r\n\x1a\n'


def _encode_png_one(a):
  if a.dtype not in (_np.uint8, _np.uint16):
    raise _IAE('encode_png needs uint8 or uint16')
  h, w, c = a.shape
  ct = {1: 0, 2: 4, 3: 2, 4: 6}[c]
  raw = b''.join(b'\0' + row.astype(a.dtype.newbyteorder('>')).tobytes() for row in a)

  def chunk(t, d):
    return _struct.pack('>I', len(d)) + t + d + _struct.pack('>I', _zlib.crc32(t + d))
  return (_PNG + chunk(b'IHDR', _struct.pack('>IIBBBBB', w, h, a.dtype.itemsize * 8, ct, 0, 0, 0))
          + chunk(b'IDAT', _zlib.compress(raw, 1)) + chunk(b'IEND', b''))


def _encode_png(image, compression=-1, name=None):
  a = _arr(image)
  if a.ndim != 3:
    raise _IAE('image must be 3-dimensional%s' % list(a.shape))
  o = _np.empty((), object)
  o[()] = _encode_png_one(a)
  return Tensor(o)


def _decode_png(contents, channels=0, dtype=uint8, name=None):
  s = contents if isinstance(contents, bytes) else _arr(contents)[()]
  if not s.startswith(_PNG):
    raise _IAE('Unable to decode bytes as PNG.')
  pos, idat, hdr, plte = 8, b'', None, None
  while pos < len(s):
    n, = _struct.unpack('>I', s[pos:pos + 4])
    t, d = s[pos + 4:pos + 8], s[pos + 8:pos + 8 + n]
    if t == b'IHDR':
      hdr = _struct.unpack('>IIBBBBB', d)
    elif t == b'PLTE':
      plte = _np.frombuffer(d, _np.uint8).reshape(-1, 3)
    elif t == b'IDAT':
      idat += d
    pos += 12 + n
  w, h, bits, ct, _, _, inter = hdr
  if inter:
    raise ShimMissing('interlaced png')
  c = {0: 1, 4: 2, 2: 3, 6: 4, 3: 1}[ct]
  raw = _np.frombuffer(_zlib.decompress(idat), _np.uint8)
  stride = (w * c * bits + 7) // 8
  bpp = _b.max(1, c * bits // 8)
  raw = raw.reshape(h, stride + 1)
  out = _np.zeros((h, stride), _np.uint8)
  prev = _np.zeros(stride, _np.int64)
  for y in _b.range(h):
    f, line = raw[y, 0], raw[y, 1:].astype(_np.int64)
    if f == 0:
      cur = line
    elif f == 2:
      cur = (line + prev) & 255
    else:
      cur = _np.zeros(stride, _np.int64)
      for x in _b.range(stride):
        l = cur[x - bpp] if x >= bpp else 0
        u = prev[x]
        ul = prev[x - bpp] if x >= bpp else 0
        if f == 1:
          p = l
        elif f == 3:
          p = (l + u) // 2
        else:
          q = l + u - ul
          pa, pb, pc = _b.abs(q - l), _b.abs(q - u), _b.abs(q - ul)
          p = l if pa <= pb and pa <= pc else u if pb <= pc else ul
        cur[x] = (line[x] + p) & 255
    out[y] = cur
    prev = cur
  if bits == 16:
    img = out.reshape(h, -1).copy().view('>u2').astype(_np.uint16).reshape(h, w, c)
  elif bits == 8:
    img = out.reshape(h, w, c)
  else:
    b = _np.unpackbits(out, axis=1)[:, :w * bits].reshape(h, w, bits)
    img = _np.zeros((h, w, 1), _np.uint8)
    for k in _b.range(bits):
      img[..., 0] = img[..., 0] * 2 + b[..., k]
    if ct == 0:
      img = img * (255 // (2 ** bits - 1))
  if ct == 3:
    img = plte[img[..., 0]]
  want = as_dtype(dtype)._np
  if img.dtype == _np.uint8 and want == _np.uint16:
    img = img.astype(_np.uint16) * 257
  elif img.dtype == _np.uint16 and want == _np.uint8:
    img = (img >> 8).astype(_np.uint8)
  if channels == 1 and img.shape[2] >= 3:
    img = _np.round(img[..., :3].astype(_np.float64) @ [.299, .587, .114]).astype(img.dtype)[..., None]
  elif channels == 3 and img.shape[2] == 1:
    img = _np.repeat(img, 3, axis=2)
  elif channels == 3 and img.shape[2] == 4:
    img = img[..., :3]
  return _T(img)


def _decode_compressed(bytes, compression_type='', name=None):
  a = _arr(bytes)
  o = _np.empty(a.shape, object)
  for i in _np.ndindex(*a.shape):
    o[i] = _zlib.decompress(a[i], 15 + 32 if compression_type == 'GZIP' else 15) \
        if compression_type else a[i]
  return Tensor(o)


def _decode_raw(input_bytes, out_type, little_endian=True, name=None):
  a = _arr(input_bytes)
  if a.ndim:
    return stack([_decode_raw(x, out_type) for x in a])
  return _T(_np.frombuffer(a[()], as_dtype(out_type)._np))


def _read_file(filename, name=None):
  with open(filename if isinstance(filename, str) else _arr(filename)[()].decode(), 'rb') as f:
    o = _np.empty((), object)
    o[()] = f.read()
    return Tensor(o)


def _serialize_tensor(tensor, name=None):
  import pickle
  o = _np.empty((), object)
  o[()] = pickle.dumps(_arr(tensor))
  return Tensor(o)


def _parse_tensor(serialized, out_type, name=None):
  import pickle
  return _T(pickle.loads(_arr(serialized)[()]))


class _gfile:
  @staticmethod
  def GFile(name, mode='r'):
    return open(name, mode)

  Open = GFile

  @staticmethod
  def exists(p):
    import os
    return os.path.exists(p)

  @staticmethod
  def glob(p):
    import glob
    return glob.glob(p)

  @staticmethod
  def makedirs(p):
    import os
    os.makedirs(p, exist_ok=True)


io = _module('io', FixedLenFeature=_FixedLenFeature, VarLenFeature=_VarLenFeature,
             parse_single_example=_parse_single_example, parse_example=_parse_example, encode_png=_encode_png,
             decode_png=_decode_png, decode_compressed=_decode_compressed, decode_raw=_decode_raw,
             read_file=_read_file, gfile=_gfile, serialize_tensor=_serialize_tensor,
             parse_tensor=_parse_tensor)


def _hsv_to_rgb(images, name=None):
  a = _arr(images)
  h, s, v = a[..., 0], a[..., 1], a[..., 2]
  c = s * v
  m = v - c
  dh = h * 6
  fmodu = dh - 2 * _np.floor(dh / 2)
  x = c * (1 - _np.abs(fmodu - 1))
  i = _np.floor(dh)
  z = _np.zeros_like(c)
  rr = _np.select([i == 0, i == 1, i == 2, i == 3, i == 4, i == 5], [c, x, z, z, x, c], z)
  gg = _np.select([i == 0, i == 1, i == 2, i == 3, i == 4, i == 5], [x, c, c, x, z, z], z)
  bb = _np.select([i == 0, i == 1, i == 2, i == 3, i == 4, i == 5], [z, z, x, c, c, x], z)
  return _T(_np.stack([rr + m, gg + m, bb + m], -1).astype(a.dtype))


_RAW_JPEG = b'\xff\xd8\xffSHIM'   # lossless stand-in: magic, height, width, channels, bytes


def _encode_jpeg(image, *a, **k):
  x = _np.asarray(_arr(image))
  if x.dtype != _np.uint8 or x.ndim != 3:
    raise _IAE('encode_jpeg needs a uint8 image of rank 3')
  o = _np.empty((), object)
  o[()] = _RAW_JPEG + _np.array(x.shape, '<u4').tobytes() + x.tobytes()
  return Tensor(o)


def _decode_jpeg(contents, channels=0, **k):
  b = contents if isinstance(contents, bytes) else _arr(contents)[()]
  if not b.startswith(_RAW_JPEG):
    raise ShimMissing('JPEG decoding is not available in the shim')
  n = len(_RAW_JPEG)
  shape = _np.frombuffer(b[n:n + 12], '<u4')
  if channels not in (0, shape[2]):
    raise ShimMissing('JPEG channel conversion is not available in the shim')
  return _T(_np.frombuffer(b[n + 12:], _np.uint8).reshape(shape).copy())


def _decode_image(contents, channels=0, *a, **k):
  b = contents if isinstance(contents, bytes) else _arr(contents)[()]
  return (_decode_jpeg if b.startswith(b'\xff\xd8') else _decode_png)(contents, channels)


image = _module('image', decode_png=_decode_png, encode_png=_encode_png, hsv_to_rgb=_hsv_to_rgb,
                decode_jpeg=_decode_jpeg, encode_jpeg=_encode_jpeg, decode_image=_decode_image)
io.decode_jpeg = _decode_jpeg
io.encode_jpeg = _encode_jpeg
io.decode_image = _decode_image


# ------------------------------------------------------------------- random ---
_rng = _np.random.RandomState(0)


def _set_seed(s):
  _rng.seed(s)


def _uniform(shape, minval=0, maxval=None, dtype=float32, seed=None, name=None):
  d = as_dtype(dtype)
  if d.is_integer:
    return _T(_rng.randint(_as_int(minval), _as_int(maxval), size=_shape(shape)).astype(d._np))
  lo = float(_arr(minval))
  hi = 1. if maxval is None else float(_arr(maxval))
  return _T((lo + (hi - lo) * _rng.rand(*_shape(shape))).astype(d._np))


def _normal(shape, mean=0.0, stddev=1.0, dtype=float32, seed=None, name=None):
  return _T((float(mean) + float(stddev) * _rng.randn(*_shape(shape))).astype(as_dtype(dtype)._np))


def _shuffle(value, seed=None, name=None):
  a = _arr(value)
  return _T(a[_rng.permutation(a.shape[0])])


random = _module('random', set_seed=_set_seed, uniform=_uniform, normal=_normal, shuffle=_shuffle)
random_uniform = _uniform


# ------------------------------------------------------------------ dataset ---
class Dataset:
  def __init__(self, gen):
    self._gen = gen

  def __iter__(self):
    return iter(self._gen())

  @staticmethod
  def from_tensor_slices(t):
    if isinstance(t, list):
      t = convert_to_tensor(t)
    flat = [_arr(x) for x in _flatten(t)]
    def gen():
      for i in _b.range(flat[0].shape[0]):
        yield _pack_as(t, iter([_T(f[i]) for f in flat]))
    return Dataset(gen)

  @staticmethod
  def from_tensors(t):
    return Dataset(lambda: iter([_map_structure(convert_to_tensor, t)]))

  @staticmethod
  def range(*a):
    return Dataset(lambda: iter(_T(_np.array(i, _np.int64)) for i in _b.range(*a)))

  def map(self, fn, **k):
    def gen():
      for x in self:
        yield fn(*x) if isinstance(x, tuple) else fn(x)
    return Dataset(gen)

  def take(self, n):
    import itertools
    return Dataset(lambda: itertools.islice(iter(self), n))

  def batch(self, n, drop_remainder=False, **k):
    def gen():
      buf = []
      def flush():
        flats = [_flatten(b) for b in buf]
        return _pack_as(buf[0], iter([stack(c) for c in zip(*flats)]))
      for x in self:
        buf.append(x)
        if len(buf) == n:
          yield flush()
          buf = []
      if buf and not drop_remainder:
        yield flush()
    return Dataset(gen)

  def get_single_element(self, name=None):
    vals = list(self)
    if len(vals) != 1:
      raise _IAE('Dataset had %d elements' % len(vals))
    return vals[0]

  def repeat(self, count=None):
    def gen():
      n = 0
      while count is None or count < 0 or n < count:
        yield from self
        n += 1
    return Dataset(gen)

  def shuffle(self, *a, **k):
    return self

  def prefetch(self, *a, **k):
    return self

  def skip(self, n):
    import itertools
    return Dataset(lambda: itertools.islice(iter(self), n, None))

  def filter(self, fn):
    return Dataset(lambda: (x for x in self if _b.bool(fn(*x) if isinstance(x, tuple) else fn(x))))

  def as_numpy_iterator(self):
    for x in self:
      yield _map_structure(lambda t: t.numpy(), x)


class TFRecordDataset(Dataset):
  """Reads uncompressed TFRecord files."""

  def __init__(self, filenames, compression_type=None, **k):
    if isinstance(filenames, (str, bytes)):
      filenames = [filenames]
    def gen():
      for f in filenames:
        if isinstance(f, Tensor):
          f = f.numpy()
        with open(f, 'rb') as h:
          while True:
            hd = h.read(12)
            if len(hd) < 12:
              break
            n, = _struct.unpack('<Q', hd[:8])
            o = _np.empty((), object)
            o[()] = h.read(n)
            h.read(4)
            yield Tensor(o)
    super().__init__(gen)


data = _module('data', Dataset=Dataset, TFRecordDataset=TFRecordDataset)


# -------------------------------------------------------------------- keras ---
class _KMetric:
  def __init__(self, name=None, dtype=None, **k):
    self.name, self._dtype = name, dtype
    self._vars = []

  def add_weight(self, name=None, shape=(), initializer=None, dtype=None, aggregation=None, **k):
    init = 1.0 if initializer == 'ones' else 0.0
    v = Variable(_np.full(_shape(shape), init, as_dtype(dtype or 'float32')._np))
    v._init = init
    self._vars.append(v)
    return v

  def reset_states(self):
    self.reset_state()

  def reset_state(self):
    for v in getattr(self, '_vars', []):
      v.assign(_np.full(v._a.shape, v._init, v._a.dtype))

    def nested(x):  # Keras tracks metrics held in attributes, dicts and lists
      if isinstance(x, _KMetric):
        x.reset_state()
      elif isinstance(x, dict):
        for y in x.values():
          nested(y)
      elif isinstance(x, (list, tuple)):
        for y in x:
          nested(y)
    for k, x in list(self.__dict__.items()):
      if k != '_vars':
        nested(x)

  def __call__(self, *a, **k):
    self.update_state(*a, **k)
    return self.result()

  @property
  def dtype(self):
    return self._dtype or 'float32'


class _KMean(_KMetric):
  def __init__(self, name='mean', dtype=None):
    super().__init__(name, dtype)
    self._t = self._c = 0.0

  def update_state(self, values, sample_weight=None):
    v = _arr(values).astype(_np.float32)
    if sample_weight is not None:
      w = _arr(sample_weight).astype(_np.float32)
      while w.ndim < v.ndim:
        w = w[..., None]
      if w.ndim > v.ndim and w.shape[-1] == 1:
        w = w[..., 0]
      w = _np.broadcast_to(w, v.shape)
      self._t += float(_np.sum(v * w, dtype=_np.float64))
      self._c += float(_np.sum(w, dtype=_np.float64))
    else:
      self._t += float(_np.sum(v, dtype=_np.float64))
      self._c += float(v.size)

  def result(self):
    return constant(self._t / self._c if self._c else 0.0, float32)

  def reset_state(self):
    self._t = self._c = 0.0

  def reset_states(self):
    self.reset_state()


class _KPR(_KMetric):
  """Precision and Recall with one or several thresholds."""

  def __init__(self, thresholds=None, top_k=None, class_id=None, name=None, dtype=None):
    super().__init__(name, dtype)
    self._th = 0.5 if thresholds is None else thresholds
    self.reset_state()

  def reset_state(self):
    n = len(self._th) if isinstance(self._th, (list, tuple)) else 1
    self._tp = _np.zeros(n)
    self._fp = _np.zeros(n)
    self._fn = _np.zeros(n)

  reset_states = reset_state

  def update_state(self, y_true, y_pred, sample_weight=None):
    t = _arr(y_true).astype(_b.bool).ravel()
    p = _arr(y_pred).astype(_np.float64).ravel()
    if sample_weight is not None and _arr(y_pred).ndim - _arr(sample_weight).ndim == 1 and _arr(sample_weight).ndim:
      sample_weight = _arr(sample_weight)[..., None]      # as Keras
    w = _np.ones_like(p) if sample_weight is None else _np.broadcast_to(
        _arr(sample_weight), _arr(y_pred).shape).ravel().astype(_np.float64)
    ths = self._th if isinstance(self._th, (list, tuple)) else [self._th]
    for i, th in enumerate(ths):
      pos = p > th
      self._tp[i] += _np.sum(w * (pos & t))
      self._fp[i] += _np.sum(w * (pos & ~t))
      self._fn[i] += _np.sum(w * (~pos & t))

  def _out(self, num, den):
    r = _np.divide(num, den, out=_np.zeros_like(num), where=den > 0)
    r = r if isinstance(self._th, (list, tuple)) else r[0]
    return constant(r.astype(_np.float32), float32)


class _KPrecision(_KPR):
  def result(self):
    return self._out(self._tp, self._tp + self._fp)


class _KRecall(_KPR):
  def result(self):
    return self._out(self._tp, self._tp + self._fn)


class _KAUC(_KMetric):
  """Keras AUC; curve 'ROC' or 'PR', interpolation as in Keras."""

  def __init__(self, num_thresholds=200, curve='ROC', summation_method='interpolation', name=None,
               dtype=None, thresholds=None, **k):
    super().__init__(name, dtype)
    self._n, self._curve, self._sum = num_thresholds, curve, summation_method
    eps = 1e-7
    self._th = [0.0 - eps] + [(i + 1) * 1.0 / (num_thresholds - 1)
                              for i in _b.range(num_thresholds - 2)] + [1.0 + eps]
    self.reset_state()

  def reset_state(self):
    z = _np.zeros(self._n)
    self._tp, self._fp, self._tn, self._fn = z.copy(), z.copy(), z.copy(), z.copy()

  reset_states = reset_state

  def update_state(self, y_true, y_pred, sample_weight=None):
    t = _arr(y_true).astype(_b.bool).ravel()
    p = _arr(y_pred).astype(_np.float64).ravel()
    if p.size and (p.min() < 0 or p.max() > 1):
      raise _IAE('predictions must be in [0, 1]')
    if sample_weight is not None and _arr(y_pred).ndim - _arr(sample_weight).ndim == 1 and _arr(sample_weight).ndim:
      sample_weight = _arr(sample_weight)[..., None]      # as Keras
    w = _np.ones_like(p) if sample_weight is None else _np.broadcast_to(
        _arr(sample_weight), _arr(y_pred).shape).ravel().astype(_np.float64)
    for i, th in enumerate(_np.float32(self._th)):
      pos = p > th
      self._tp[i] += _np.sum(w * (pos & t))
      self._fp[i] += _np.sum(w * (pos & ~t))
      self._fn[i] += _np.sum(w * (~pos & t))
      self._tn[i] += _np.sum(w * (~pos & ~t))

  def result(self):
    def dnn(a, b):
      return _np.divide(a, b, out=_np.zeros_like(_np.asarray(a, float)), where=_np.asarray(b) != 0)
    if self._curve == 'PR' and self._sum == 'interpolation':
      tp, fp, fn = self._tp, self._fp, self._fn
      dtp = tp[:-1] - tp[1:]
      p = tp + fp
      dp = p[:-1] - p[1:]
      slope = dnn(dtp, _np.maximum(dp, 0))
      intercept = tp[1:] - slope * p[1:]
      safe = _np.where(_np.logical_and(p[:-1] > 0, p[1:] > 0),
                       dnn(p[:-1], _np.maximum(p[1:], 0)), _np.ones_like(p[1:]))
      inc = dnn(slope * (dtp + intercept * _np.log(safe)),
                _np.maximum(tp[1:] + fn[1:], 0))
      return constant(float(_np.sum(inc)), float32)
    rec = dnn(self._tp, self._tp + self._fn)
    if self._curve == 'ROC':
      x, y = dnn(self._fp, self._fp + self._tn), rec
    else:
      x, y = rec, dnn(self._tp, self._tp + self._fp)
    h = (y[:-1] + y[1:]) / 2 if self._sum == 'interpolation' else (
        _np.minimum(y[:-1], y[1:]) if self._sum == 'minoring' else _np.maximum(y[:-1], y[1:]))
    return constant(float(_np.sum((x[:-1] - x[1:]) * h)), float32)


class _KSum(_KMetric):
  def __init__(self, name=None, dtype=None):
    super().__init__(name, dtype)
    self._s = 0.0

  def update_state(self, v, sample_weight=None):
    self._s += float(_np.sum(_arr(v)))

  def result(self):
    return constant(self._s, float32)


keras = _module('keras')
keras.metrics = _module('keras.metrics', Metric=_KMetric, Mean=_KMean, Precision=_KPrecision,
                        Recall=_KRecall, AUC=_KAUC, Sum=_KSum)
keras.backend = _module('keras.backend', epsilon=lambda: 1e-7)


class _StubLayer:
  def __init__(self, *a, **k):
    raise ShimMissing('keras layers are not available in the shim')


keras.layers = _module('keras.layers', Layer=_StubLayer, Dense=_StubLayer)
keras.Model = _StubLayer


# ------------------------------------------------------------------- compat ---
compat = _module('compat')


class _GraphKeys:
  LOCAL_VARIABLES = 'local_variables'
  METRIC_VARIABLES = 'metric_variables'
  GLOBAL_VARIABLES = 'variables'


_v1 = _module('compat.v1', where=_where_v1, name_scope=name_scope, assert_equal=assert_equal,
              assert_less=assert_less, assert_less_equal=assert_less_equal,
              assert_greater=assert_greater, assert_greater_equal=assert_greater_equal,
              assert_non_negative=assert_non_negative, assert_positive=assert_positive,
              assert_rank=assert_rank, GraphKeys=_GraphKeys, AUTO_REUSE='auto',
              enable_eager_execution=lambda *a, **k: None, enable_v2_behavior=lambda *a, **k: None,
              disable_eager_execution=lambda *a, **k: None, variable_scope=name_scope,
              logging=_NS(info=lambda *a, **k: None, warning=lambda *a, **k: None),
              gfile=_gfile, train=train, set_random_seed=_set_seed)
compat.v1 = _v1
compat.as_bytes = lambda s: s if isinstance(s, bytes) else s.encode()
compat.as_str = lambda s: s.decode() if isinstance(s, bytes) else s
compat.as_text = compat.as_str


def _v1_getattr(name):
  g = globals()
  if name in g and not name.startswith('_'):
    return g[name]
  if name.startswith('__'):
    raise AttributeError(name)
  raise ShimMissing("the TensorFlow stand-in lacks compat.v1.%s" % name)


_v1.__getattr__ = _v1_getattr
v1 = _v1
logging = _v1.logging
types = _NS(experimental=_NS(TensorLike=object, Callable=object))
enable_eager_execution = lambda *a, **k: None


class TensorSpec:
  def __init__(self, shape, dtype=float32, name=None):
    self.shape, self.dtype, self.name = TensorShape(shape), as_dtype(dtype), name


config = _NS(run_functions_eagerly=lambda *a: None,
                                list_physical_devices=lambda *a: [])


_graph_mode = []


def _use_graphs():
  """Graph mode (placeholders, variables of sessions) is set up when first used."""
  if not _graph_mode:
    from tensorflow import _graph
    _graph_mode.append(_graph)
    _graph.install()
  return _graph_mode[0]


def Graph():  # pylint: disable=invalid-name
  return _use_graphs().Graph()


_v1.placeholder = lambda dtype, shape=None, name=None: _use_graphs().Placeholder(dtype, shape, name)
_v1.Session = lambda *a, **k: _use_graphs().Session(*a, **k)
_v1.get_local_variable = lambda *a, **k: _use_graphs().get_local_variable(*a, **k)
_v1.get_variable = lambda *a, **k: _use_graphs().get_variable(*a, **k)


class Module:
  pass


autograph = _NS(experimental=_NS(
    do_not_convert=lambda f=None, **k: f if f else (lambda g: g)))


# ------------------------------------------------------------------ testing ---
def _np_tree(x):
  if isinstance(x, Tensor):
    return x._a
  if isinstance(x, dict):
    return {k: _np_tree(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)) and _has_tensor(x):
    return [_np_tree(v) for v in x]
  return x


def _make_test_case():
  from absl.testing import absltest

  class TestCase(absltest.TestCase):
    def setUp(self):
      super().setUp()
      _set_seed(0)

    def evaluate(self, x):
      if isinstance(x, dict):
        return {k: self.evaluate(v) for k, v in x.items()}
      if isinstance(x, (list, tuple)):
        if hasattr(x, '_fields'):
          return type(x)(*[self.evaluate(v) for v in x])
        return type(x)(self.evaluate(v) for v in x)
      return x.numpy() if isinstance(x, Tensor) else x

    def session(self, graph=None, *a, **k):
      case_ = self
      if _graph_mode and isinstance(graph, _graph_mode[0].Graph):
        return _graph_mode[0].Session(graph=graph)

      class S(_Null):
        def run(self, f, *a, **k):
          return case_.evaluate(f)
      return S()

    test_session = cached_session = session

    def get_temp_dir(self):
      return self.create_tempdir().full_path

    def _arrs(self, a, b):
      return _np.asarray(_np_tree(a)), _np.asarray(_np_tree(b))

    def assertAllClose(self, a, b, rtol=1e-6, atol=1e-6, msg=None):
      a, b = _np_tree(a), _np_tree(b)
      if hasattr(a, '_asdict'):
        a = a._asdict()
      if hasattr(b, '_asdict'):
        b = b._asdict()
      if isinstance(a, dict):
        self.assertEqual(set(a), set(b), msg)
        for k in a:
          self.assertAllClose(a[k], b[k], rtol, atol, msg)
        return
      try:
        x, y = _np.asarray(a), _np.asarray(b)
        ragged = x.dtype == object or y.dtype == object
      except ValueError:
        ragged = True
      if ragged:
        self.assertEqual(len(a), len(b))
        for p, q in zip(a, b):
          self.assertAllClose(p, q, rtol, atol, msg)
        return
      self.assertEqual(x.shape, y.shape, msg)
      _np.testing.assert_allclose(x.astype(_np.float64), y.astype(_np.float64), rtol=rtol, atol=atol,
                                  err_msg=msg or '')

    def assertNotAllClose(self, a, b, rtol=1e-6, atol=1e-6, msg=None):
      try:
        self.assertAllClose(a, b, rtol, atol, msg)
      except AssertionError:
        return
      self.fail('the two values are close at all elements')

    def assertAllEqual(self, a, b, msg=None):
      x, y = self._arrs(a, b)
      if x.dtype.kind in 'SU':
        x = x.astype('S')
      if y.dtype.kind in 'SU':
        y = y.astype('S')
      self.assertEqual(x.shape, y.shape, msg)
      self.assertTrue(_np.all((x == y) | ((x != x) & (y != y))), msg or '%r != %r' % (x, y))

    def assertNotAllEqual(self, a, b, msg=None):
      x, y = self._arrs(a, b)
      self.assertFalse(x.shape == y.shape and _np.all(x == y), msg)

    def assertAllInRange(self, t, lo, hi, *a, **k):
      x = _np.asarray(_np_tree(t))
      self.assertTrue(_np.all((x >= lo) & (x <= hi)))

    def assertAllGreaterEqual(self, a, v):
      self.assertTrue(_np.all(_np.asarray(_np_tree(a)) >= v))

    def assertAllLessEqual(self, a, v):
      self.assertTrue(_np.all(_np.asarray(_np_tree(a)) <= v))

    def assertAllGreater(self, a, v):
      self.assertTrue(_np.all(_np.asarray(_np_tree(a)) > v))

    def assertAllLess(self, a, v):
      self.assertTrue(_np.all(_np.asarray(_np_tree(a)) < v))

    def assertNear(self, a, b, err, msg=None):
      self.assertTrue(_math.fabs(float(a) - float(b)) <= err,
                      msg or '%r != %r +/- %r' % (a, b, err))

    def assertShapeEqual(self, a, b, msg=None):
      self.assertEqual(tuple(a.shape), tuple(b.shape), msg)

    def assertDTypeEqual(self, t, dtype):
      self.assertEqual(_np.asarray(_np_tree(t)).dtype, as_dtype(dtype)._np)

    def assertProtoEquals(self, expected, message, msg=None):
      if isinstance(expected, (str, bytes)):
        from google.protobuf import text_format
        m = type(message)()
        text_format.Parse(expected, m)
        expected = m
      self.assertEqual(str(expected), str(message), msg)

    def assertStartsWith(self, a, p, msg=None):
      self.assertTrue(a.startswith(p), msg)

    def assertRaisesOpError(self, text):
      return self.assertRaisesRegex(_OpError, text)

    def assertRaisesIncompatibleShapesError(self):
      return self.assertRaises(_IAE)
  return TestCase


class _Test(_types.ModuleType):
  def __getattr__(self, name):
    if name == 'TestCase':
      self.TestCase = _make_test_case()
      return self.TestCase
    raise AttributeError(name)


test = _Test('tensorflow.test')
_sys.modules['tensorflow.test'] = test


def _test_main(argv=None):
  from absl.testing import absltest
  absltest.main()


test.main = _test_main


# ----------------------------------------------------------- tensor methods ---
def _method(op, swap=False):
  if swap:
    return lambda self, o: op(o, self)
  return lambda self, o: op(self, o)


for _n, _op in (('add', add), ('sub', subtract), ('mul', multiply), ('truediv', truediv),
                ('floordiv', floordiv), ('mod', floormod), ('pow', pow), ('matmul', matmul)):
  setattr(Tensor, '__%s__' % _n, _method(_op))
  setattr(Tensor, '__r%s__' % _n, _method(_op, True))
for _n, _op in (('lt', less), ('le', less_equal), ('gt', greater), ('ge', greater_equal)):
  setattr(Tensor, '__%s__' % _n, _method(_op))


def _eq(self, o):
  if o is None:
    return False
  try:
    a, b = _pair(self, o)
    _bcheck(a, b)
  except (_IAE, TypeError, ValueError):
    if isinstance(o, Tensor) and o.dtype == self.dtype:
      return _T(_np.array(False))
    raise
  return _T(a == b)


def _ne(self, o):
  if o is None:
    return True
  return logical_not(_eq(self, o))


Tensor.__eq__ = _eq
Tensor.__ne__ = _ne


def _logic(bop, iop):
  def f(self, o):
    return bop(self, o) if self._a.dtype.kind == 'b' else iop(self, o)
  def r(self, o):
    return bop(o, self) if self._a.dtype.kind == 'b' else iop(o, self)
  return f, r


Tensor.__and__, Tensor.__rand__ = _logic(logical_and, bitwise.bitwise_and)
Tensor.__or__, Tensor.__ror__ = _logic(logical_or, bitwise.bitwise_or)
Tensor.__xor__, Tensor.__rxor__ = _logic(logical_xor, bitwise.bitwise_xor)
Tensor.__invert__ = lambda self: logical_not(self) if self._a.dtype.kind == 'b' else bitwise.invert(self)
Tensor.__neg__ = lambda self: negative(self)
Tensor.__abs__ = lambda self: abs(self)
Tensor.__pos__ = lambda self: self


# ---------------------------------------------------------------- op library ---
_OPS = {}


class _OpLibrary:
  """What tf.load_op_library returns: ops are looked up when they are called."""

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    def op(*a, **k):
      if not _OPS and __import__('os').environ.get('WOD_OPS_SERVER'):
        import opsbridge  # pylint: disable=unused-import
      if name not in _OPS:
        raise ShimMissing('op %s is not available in the shim' % name)
      return _OPS[name](*a, **k)
    return op


def load_op_library(path):
  return _OpLibrary()


_v1.resource_loader = _NS(get_path_to_datafile=lambda p: p)


# --------------------------------------------------------- what is not here ---
def _seal():
  def getter(mod):
    def f(name):
      if name.startswith('__'):
        raise AttributeError(name)
      raise ShimMissing('the TensorFlow stand-in lacks %s.%s' % (mod, name))
    return f
  for n, m in list(_sys.modules.items()):
    if (n == 'tensorflow' or n.startswith('tensorflow.')) and '__getattr__' not in m.__dict__:
      m.__getattr__ = getter(n)


_seal()

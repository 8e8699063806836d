"""Stand-in for the few pyarrow declarations the v2 code uses: type objects and schemas."""
__version__ = "0.0.1"  # pandas must not use it


class DataType:
  def __init__(self, name, *args):
    self._k = (name,) + args

  def __eq__(self, o):
    return isinstance(o, DataType) and self._k == o._k

  def __hash__(self):
    return hash(self._k)

  def __repr__(self):
    return self._k[0] if len(self._k) == 1 else '%s<%s>' % (self._k[0], ', '.join(map(str, self._k[1:])))

  __str__ = __repr__


class ListType(DataType):
  def __init__(self, value_type, size=-1):
    super().__init__('list' if size < 0 else 'fixed_size_list', value_type, size)
    self.value_type, self.list_size = value_type, size


class DictionaryType(DataType):
  pass


class FixedSizeListType(ListType):
  pass


def _mk(name):
  return lambda: DataType(name)


for _n in ('bool_ int8 int16 int32 int64 uint8 uint16 uint32 uint64 float16 float32 float64 string '
           'utf8 large_string large_binary null date32').split():
  globals()[_n] = _mk(_n.rstrip('_'))


def binary(length=-1):
  return DataType('binary') if length < 0 else DataType('fixed_size_binary', length)


def list_(value_type, list_size=-1):
  return ListType(value_type, list_size)


def dictionary(index_type, value_type, ordered=False):
  return DictionaryType('dictionary', index_type, value_type, ordered)


class Field:
  def __init__(self, name, type, nullable=True):
    self.name, self.type, self.nullable = name, type, nullable

  def __eq__(self, o):
    return isinstance(o, Field) and (self.name, self.type) == (o.name, o.type)

  def __repr__(self):
    return 'pyarrow.Field<%s: %s>' % (self.name, self.type)


def field(name, type, nullable=True):
  return Field(name, type, nullable)


class Schema:
  def __init__(self, fields):
    self._f = list(fields)

  @property
  def names(self):
    return [f.name for f in self._f]

  @property
  def types(self):
    return [f.type for f in self._f]

  def field(self, k):
    return self._f[k] if isinstance(k, int) else [f for f in self._f if f.name == k][0]

  def __iter__(self):
    return iter(self._f)

  def __len__(self):
    return len(self._f)

  def __eq__(self, o):
    return isinstance(o, Schema) and self._f == o._f

  def to_string(self):
    return '\n'.join('%s: %s' % (f.name, f.type) for f in self._f)


def schema(fields):
  out = []
  for f in fields.items() if isinstance(fields, dict) else fields:
    if not isinstance(f, Field):
      if f[1] is None:
        raise TypeError('DataType expected, got NoneType')
      f = Field(f[0], f[1])
    out.append(f)
  return Schema(out)

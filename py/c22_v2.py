"""C22: v2 components as flat columns, and joins of component tables."""
import dataclasses
import itertools
import math
import os
import sys
import typing

import numpy as np
import pandas as pd
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcpy
import pyarrow as pa
from waymo_open_dataset import v2
from waymo_open_dataset.v2 import component
from waymo_open_dataset.v2 import dataframe_utils


def inner(t):
  if typing.get_origin(t) is typing.Union:
    return typing.get_args(t)[0]
  return t


def optional(t):
  return typing.get_origin(t) is typing.Union


def leaves(cls, prefix):
  """[(column, path, arrow type)] by the documented naming rule."""
  out = []
  for f in dataclasses.fields(cls):
    t = inner(f.type)
    rep = '[*]' if f.metadata.get('is_repeated') else ''
    name = f.name + rep
    if prefix == [] and not (isinstance(t, type) and issubclass(t, component.Key)):
      name = '[%s].%s' % (cls.__name__, name)
    if dataclasses.is_dataclass(t):
      out += [(c, [f.name] + p, a) for c, p, a in leaves(t, prefix + [name])]
    else:
      out.append(('.'.join(prefix + [name]), [f.name], f.metadata.get('arrow_type')))
  return out


def optionals(cls):
  """Paths of optional nested dataclasses."""
  out = []
  for f in dataclasses.fields(cls):
    t = inner(f.type)
    if dataclasses.is_dataclass(t):
      if optional(f.type) or f.default is None:
        out.append([f.name])
      out += [[f.name] + p for p in optionals(t)]
  return out


def build(cls, val, absent, path=()):
  kw = {}
  for f in dataclasses.fields(cls):
    t, p = inner(f.type), path + (f.name,)
    if p in absent:
      kw[f.name] = None
    elif dataclasses.is_dataclass(t):
      kw[f.name] = build(t, val, absent, p)
    else:
      kw[f.name] = val(p)
  return cls(**kw)


def get(obj, path):
  for p in path:
    obj = None if obj is None else getattr(obj, p)
  return obj


def check_class(c, key, cls, absent, arrange, extra):
  """Names, values, schema and both directions of the conversion."""
  ls = leaves(cls, [])
  names = [n for n, _, _ in ls]
  vals = {tuple(p): ('v', i) if i % 3 else [i, i + 1] for i, (_, p, _) in enumerate(ls)}
  obj = build(cls, lambda p: vals[p], absent)
  what = '%s without %s' % (cls.__name__, sorted(absent))
  flat = obj.to_flatten_dict()
  want = {n: (None if any(tuple(p[:k]) in absent for k in range(1, len(p) + 1)) else vals[tuple(p)]) for n, p, _ in ls}
  if dict(flat) != want:
    return c.fail(key, '%s: columns %s, expected %s' % (what, dict(flat), want))
  if len(set(names)) != len(names):
    return c.fail(key, '%s: column names repeat' % what)
  sch = cls.schema()
  got = [(f.name, f.type) for f in sch]
  if sorted(got, key=lambda x: x[0]) != sorted([(n, a) for n, _, a in ls], key=lambda x: x[0]):
    return c.fail(key, '%s: schema %s does not describe the columns' % (what, got))
  if [n for n, _ in got] != list(flat):
    return c.fail(key, '%s: schema and columns are ordered differently' % what)
  cols = dict(flat)
  cols.update({k: ('other', k) for k in extra if k not in cols})
  items = list(cols.items())
  if arrange == 1:
    items.reverse()
  elif arrange == 2:
    items = items[len(items) // 2:] + items[:len(items) // 2]
  row = dict(items)
  before = dict(row)
  back = cls.from_dict(row)
  if type(back) is not cls or row != before:
    return c.fail(key, '%s: from_dict returned %s or changed its input' % (what, type(back)))
  for n, p, _ in ls:
    if get(back, p) != want[n]:
      return c.fail(key, '%s with other columns %s (order %d): %s read back as %r, expected %r' % (what, sorted(set(cols) - set(flat))[:4], arrange, n, get(back, p), want[n]))
  if dict(back.to_flatten_dict()) != want:
    return c.fail(key, what + ': flattening the read object gives other columns')
  if not absent and back != obj:
    return c.fail(key, what + ': the object read back differs')
  if arrange == 0:
    ser = cls.from_dict(pd.Series(list(row.values()), index=list(row), dtype=object))
    if any(get(ser, p) != want[n] for n, p, _ in ls):
      return c.fail(key, what + ': reading a table row gives other values')


REAL = sorted(v2.ALL_COMPONENTS, key=lambda x: x.__name__)


def fam_real(c):
  cls = c.pick(REAL)
  opt = [tuple(p) for p in optionals(cls)]
  absent = {p for p in opt if c.flip()}
  other = c.pick([None] + REAL)
  arrange = c.choose(3)
  if other is cls or not c.go():
    return
  extra = [n for n, _, _ in leaves(other, [])] if other else []
  c.state((cls.__name__, sorted(absent), other and other.__name__, arrange))
  c.sample(lambda: '%s without %s next to %s: %s' % (cls.__name__, sorted(absent), other, [n for n, _, _ in leaves(cls, [])]))
  c.outcome(cls.__name__)
  check_class(c, 'real', cls, absent, arrange, extra)


def fam_tags(c):
  if not c.go():
    return
  if len(set(v2.ALL_TAGS)) != len(v2.ALL_TAGS) or set(v2.TAG_BY_COMPONENT) != set(v2.ALL_COMPONENTS) or list(v2.TAG_BY_COMPONENT.values()) != list(v2.ALL_TAGS):
    c.fail('tags', 'component tags are not unique: %s' % v2.ALL_TAGS)
  pre = [x.__name__ for x in v2.ALL_COMPONENTS]
  if len(set(pre)) != len(pre):
    c.fail('tags', 'component names are not unique')
  c.state('tags')
  c.sample(lambda: str(v2.ALL_TAGS))
  c.outcome('unique')


# ------------------------------------------------ components a user could define
LEAF = [pa.int32(), pa.list_(pa.float32()), pa.string()]


@dataclasses.dataclass(frozen=True)
class SynKey(component.Key):
  context: str = component.create_column(arrow_type=pa.string())
  frame: int = component.create_column(arrow_type=pa.int64())


@dataclasses.dataclass(frozen=True)
class SynBase(component.Component):
  key: SynKey


def field(name, typ, arrow, rep, opt):
  kw = {'default': None} if opt else {}
  return (name, typing.Optional[typ] if opt else typ, component.create_column(arrow_type=arrow, is_repeated=rep, **kw))


def pick_node(c, alphabet, depth, tag, top):
  """A dataclass whose fields are named from the alphabet, or None (no field)."""
  fs = []
  for i, n in enumerate(alphabet):
    k = c.choose(3 if depth > 1 else 2)
    if k == 1:
      fs.append(field(n, int, LEAF[(i + depth) % 3], False, False))
    elif k == 2:
      sub = pick_node(c, alphabet, depth - 1, tag + n, top)
      if sub is None:
        return None
      fs.append(field(n, sub, None, depth == top and c.flip(), False))
  if not fs:
    return None
  return dataclasses.make_dataclass('N' + tag, fs, frozen=True)


def synthetic(alphabet, top=3):
  def body(c):
    node = pick_node(c, alphabet, top, '', top)
    if node is None:
      return
    optn = c.flip()
    if not c.go():
      return
    fs = []
    for f in dataclasses.fields(node):
      col = component.create_column(arrow_type=f.metadata['arrow_type'], is_repeated=f.metadata['is_repeated'], **({'default': None} if optn else {}))
      fs.append((f.name, typing.Optional[f.type] if optn else f.type, col))
    cls = dataclasses.make_dataclass('Syn', fs, bases=(SynBase,), frozen=True)
    ls = leaves(cls, [])
    c.state((sorted((n, str(a)) for n, _, a in ls), optn))
    c.sample(lambda: str([n for n, _, _ in ls]))
    c.outcome('%d columns' % len(ls))
    for absent in [set()] + ([{(f[0],)} for f in fs if dataclasses.is_dataclass(inner(f[1]))] if optn else []):
      for arrange in range(3):
        check_class(c, 'synthetic', cls, absent, arrange, ['[Other].' + n for n in alphabet] + ['key.other'])
        c.step()
  return body


# ------------------------------------------------------------------------- joins
def ref_group(rows, cols, common):
  groups = {}
  for r in rows:
    groups.setdefault(tuple(r[k] for k in common), []).append(r)
  return [dict(list(zip(common, g)) + [(x, [r[x] for r in rs]) for x in cols if x not in common]) for g, rs in groups.items()]


def ref_merge(lrows, lcols, rrows, rcols, ln, rn, lg, rg):
  lk, rk = [x for x in lcols if x.startswith('key.')], [x for x in rcols if x.startswith('key.')]
  common = [k for k in lk if k in rk]
  if lg and set(lk) != set(common):
    lrows = ref_group(lrows, lcols, common)
  if rg and set(rk) != set(common):
    rrows = ref_group(rrows, rcols, common)
  lonly, ronly = [x for x in lcols if x not in common], [x for x in rcols if x not in common]
  out, usedr = [], set()
  for l in lrows:
    hit = False
    for j, r in enumerate(rrows):
      if all(l[k] == r[k] for k in common):
        hit = True
        usedr.add(j)
        out.append(dict(l, **{x: r[x] for x in ronly}))
    if not hit and rn:      # right columns may be null
      out.append(dict(l, **{x: None for x in ronly}))
  if ln:                    # left columns may be null
    for j, r in enumerate(rrows):
      if j not in usedr:
        out.append(dict({x: None for x in lonly}, **r))
  return out


def canon(v):
  if isinstance(v, (list, np.ndarray)):
    return [canon(x) for x in v]
  if v is None or (isinstance(v, float) and v != v):
    return 'null'
  if isinstance(v, (bool, np.bool_)):
    return bool(v)
  if isinstance(v, (int, float, np.integer, np.floating)):
    return float(v)
  return v


def ms(rows):
  return sorted(repr(sorted((k, canon(v)) for k, v in r.items())) for r in rows)


SHAPES = [(['key.a'], ['key.a']), (['key.a', 'key.b'], ['key.a']), (['key.a'], ['key.c', 'key.a']),
          (['key.b', 'key.a'], ['key.a', 'key.b']), (['key.a', 'key.b'], ['key.a', 'key.c'])]
KEYDT = {'key.a': np.int8, 'key.b': object, 'key.c': np.int64}
KEYVAL = {'key.a': [1, 2], 'key.b': ['u', 'v'], 'key.c': [10, 20]}


def table(c, keys, prefix, nmax, col):
  n = c.choose(nmax + 1)
  rows = []
  for i in range(n):
    r = {k: c.pick(KEYVAL[k]) for k in keys}
    r['[%s].x' % prefix] = prefix + str(i)
    rows.append(r)
  return rows, keys + ['[%s].x' % prefix]


def frame(rows, cols, order, prefix='key.'):
  cols = cols[::-1] if order else cols
  df = pd.DataFrame({k: pd.Series([r[k] for r in rows], dtype=KEYDT.get(k, object)) for k in cols})
  if prefix != 'key.':
    df = df.rename(columns={k: prefix + k[4:] for k in cols if k.startswith('key.')})
  df.index = df.index + 5
  return df


def fam_merge(c):
  lk, rk = c.pick(SHAPES)
  big = 3 if m.thorough() else 2
  lr, lc = table(c, lk, 'L', big if len(lk) == 1 or len(rk) == 1 else 2, 0)
  rr, rc = table(c, rk, 'R', big if len(lk) == 1 or len(rk) == 1 else 2, 0)
  ln, rn, lg, rg = c.flip(), c.flip(), c.flip(), c.flip()
  order = c.flip()
  if order and (not lr or not rr or ln != lg or rn != rg):
    return
  prefix = 'id_' if order and len(lk) == 1 else 'key.'
  if not c.go():
    return
  if (not lr and lg) or (not rr and rg):
    return   # grouping an empty table is not judged
  left, right = frame(lr, lc, order, prefix), frame(rr, rc, order, prefix)
  l0, r0 = left.copy(), right.copy()
  kw = {} if prefix == 'key.' else {'key_prefix': prefix}
  if ln or lg or order:
    got = v2.merge(left, right, left_nullable=ln, right_nullable=rn, left_group=lg, right_group=rg, **kw)
  else:
    got = dataframe_utils.merge(left, right, ln, rn, lg, rg)
  what = 'left %s %s right %s %s nullable %d%d group %d%d order %d' % (lc, [tuple(r.values()) for r in lr], rc, [tuple(r.values()) for r in rr], ln, rn, lg, rg, order)
  want = ref_merge(lr, lc, rr, rc, ln, rn, lg, rg)
  rename = lambda k: 'key.' + k[3:] if k.startswith('id_') else k
  rows = [{rename(k): v for k, v in zip(got.columns, r)} for r in got.values.tolist()]
  c.state(what)
  c.sample(lambda: what + ' -> %s' % rows)
  c.outcome('%d rows' % len(want))
  if sorted(rename(k) for k in got.columns) != sorted(set(lc) | set(rc)):
    c.fail('columns', '%s: columns %s' % (what, list(got.columns)))
  elif ms(rows) != ms(want):
    c.fail('rows', '%s: rows %s, expected %s' % (what, rows, want))
  elif not ln and not rn and lr and rr:
    for k in set(lk) & set(rk):
      if got.dtypes[prefix + k[4:]] != np.dtype(KEYDT[k]):
        c.fail('types', '%s: key %s became %s' % (what, k, got.dtypes[prefix + k[4:]]))
  try:
    pd.testing.assert_frame_equal(left, l0)
    pd.testing.assert_frame_equal(right, r0)
  except AssertionError:
    c.fail('inputs', what + ': an input table was changed')


def fam_merge_large(c):
  """Tables the size of a segment: many rows per key, keys of one side only, big keys."""
  lk, rk = c.pick(SHAPES[:4])
  nl, nr = c.pick([(40, 40), (200, 30), (17, 150), (200, 200)])
  per = c.pick([(1, 1), (4, 1), (1, 5), (3, 2)])
  skip = c.pick([0, 3])
  ln, rn, lg, rg = c.flip(), c.flip(), c.flip(), c.flip()
  shuffle = c.flip()
  if not m.thorough() and (ln + 2 * rn + 4 * lg + 8 * rg + nl // 10 + shuffle + per[0]) % 3:
    return
  if not c.go():
    return

  def rows(keys, n, every, prefix, odd):
    out = []
    for i in range(n):
      j = i // every
      if skip and j % skip == odd:
        j += 1000000 * (odd + 1)
      v = {'key.a': j % 100 + (27 if j > 1000 else 0), 'key.b': 's%d_%d' % (j % 3, j // 7), 'key.c': 1 + 2**52 + j}
      r = {k: v[k] for k in keys}
      r['[%s].x' % prefix] = prefix + str(i)
      out.append(r)
    if shuffle:
      out = [out[(i * 67 + 5) % n] for i in range(n)] if math.gcd(n, 67) == 1 else out[::-1]
    return out

  lr, rr = rows(lk, nl, per[0], 'L', 0), rows(rk, nr, per[1], 'R', 1)
  lc, rc = lk + ['[L].x'], rk + ['[R].x']
  left, right = frame(lr, lc, False), frame(rr, rc, False)
  got = v2.merge(left, right, left_nullable=ln, right_nullable=rn, left_group=lg, right_group=rg)
  what = '%d rows of %s (%d per key) with %d rows of %s (%d per key) skip %d nullable %d%d group %d%d shuffled %d' % (nl, lc, per[0], nr, rc, per[1], skip, ln, rn, lg, rg, shuffle)
  want = ref_merge(lr, lc, rr, rc, ln, rn, lg, rg)
  rows = [dict(zip(got.columns, r)) for r in got.values.tolist()]
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%d00s of rows' % (len(want) // 100))
  if sorted(got.columns) != sorted(set(lc) | set(rc)):
    c.fail('columns', '%s: columns %s' % (what, list(got.columns)))
    return
  a, b = ms(rows), ms(want)
  if a != b:
    x, y = set(a) - set(b), set(b) - set(a)
    c.fail('rows', '%s: %d rows, expected %d; unexpected %s, lacking %s' % (what, len(a), len(b), sorted(x)[:1], sorted(y)[:1]))


m = mcpy.Main()
m.family('components', 'every published component x every subset of absent optional parts x the columns of every other component x 3 column orders', fam_real)
m.family('tags', 'the published component list', fam_tags)
m.family('definable', 'every component with fields a, b nested to depth 3, repeated or not, optional or not, x 3 column orders', synthetic(['a', 'b']))
m.family('definable-names', 'the same with fields a, aa, aaa at depth 2', synthetic(['a', 'aa', 'aaa'], 2))
m.family('merge', '5 key layouts x all tables of up to 2 (thorough 3) rows over 2 values per key x nullable x group x column order', fam_merge)
m.family('merge-large', '4 key layouts x tables of 17 to 200 rows x repeats x nullable x group x order', fam_merge_large)
raise SystemExit(m.run())

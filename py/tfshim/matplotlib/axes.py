from matplotlib import lines as _lines
from matplotlib import patches as _patches
from matplotlib import transforms


class Axes:
  def __init__(self, fig=None):
    self.figure = fig
    self._all = []
    self.transData = transforms.DataTransform()
    self.calls = []

  def _add(self, a):
    if a.axes is not None:
      raise ValueError('artist already belongs to an axes')
    a.axes = self
    self._all.append(a)
    return a

  def _drop(self, a):
    self._all = [x for x in self._all if x is not a]

  def _of(self, kind):
    return _View(self, kind)

  patches = property(lambda self: self._of('patches'))
  lines = property(lambda self: self._of('lines'))
  collections = property(lambda self: self._of('collections'))
  artists = property(lambda self: self._of('artists'))

  def add_patch(self, p):
    if not isinstance(p, _patches.Patch):
      raise TypeError('add_patch needs a Patch')
    return self._add(p)

  def add_collection(self, c, autolim=True):
    return self._add(c)

  def add_line(self, l):
    return self._add(l)

  def add_artist(self, a):
    return self._add(a)

  def plot(self, *args, **kw):
    out = []
    args = list(args)
    while args:
      y = args.pop(0)
      if args and not isinstance(args[0], str):
        x, y = y, args.pop(0)
      else:
        x = range(len(y))
      k = dict(kw)
      if args and isinstance(args[0], str):
        for n, v in _lines.parse_fmt(args.pop(0)).items():
          if v is not None:
            k.setdefault(n, v)
      out.append(self._add(_lines.Line2D(list(x), list(y), **k)))
    return out

  def clear(self):
    for a in self._all:
      a.axes = None
    self._all = []

  cla = clear

  def __getattr__(self, name):
    if name.startswith('set_') or name in ('axis', 'grid', 'imshow', 'legend', 'autoscale', 'relim', 'autoscale_view', 'margins', 'text'):
      return lambda *a, **k: self.calls.append((name, a, k))
    raise AttributeError(name)


class _View:
  """A live view of the artists of one kind, as in matplotlib."""

  def __init__(self, ax, kind):
    self._ax, self._k = ax, kind

  def _l(self):
    return [a for a in self._ax._all if a._kind == self._k]

  def __len__(self):
    return len(self._l())

  def __getitem__(self, i):
    return self._l()[i]

  def __iter__(self):
    i = 0
    while True:   # removing while iterating skips, as with a live sequence
      l = self._l()
      if i >= len(l):
        return
      yield l[i]
      i += 1

  def __add__(self, o):
    return self._l() + list(o)

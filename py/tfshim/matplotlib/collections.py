import numpy as np
from matplotlib import colors as _c
from matplotlib.artist import Artist


def _list(v):
  return [v] if isinstance(v, str) or np.ndim(v) == 0 else list(v)


class Collection(Artist):
  _kind = 'collections'

  def __init__(self, edgecolors=None, facecolors=None, linewidths=None, antialiaseds=None, offsets=None, offset_transform=None, transOffset=None, linestyles=None,
               edgecolor=None, facecolor=None, linewidth=None, antialiased=None, color=None, linestyle=None, **kw):
    super().__init__(**kw)
    self._ec = edgecolor if edgecolors is None else edgecolors
    self._fc = facecolor if facecolors is None else facecolors
    if color is not None:
      self._ec = self._fc = color
    self._lw = linewidth if linewidths is None else linewidths
    self._offsets = None if offsets is None else np.asarray(offsets, float).reshape(-1, 2)
    self.offset_transform = offset_transform if transOffset is None else transOffset

  def get_offsets(self):
    return np.zeros((1, 2)) if self._offsets is None else self._offsets

  def get_facecolor(self):
    return np.array([self.rgba(c) for c in _list(self._fc)]).reshape(-1, 4)

  def get_edgecolor(self):
    return np.array([self.rgba(c) for c in _list(self._ec)]).reshape(-1, 4)

  get_facecolors, get_edgecolors = get_facecolor, get_edgecolor

  def get_linewidth(self):
    return [float(x) for x in _list(1.0 if self._lw is None else self._lw)]

  get_linewidths = get_linewidth


class LineCollection(Collection):
  def __init__(self, segments, *, colors=None, **kw):
    super().__init__(**kw)
    self._segments = [np.asarray(s, float) for s in segments]
    if colors is not None:
      self._ec = colors

  def get_segments(self):
    return self._segments

  def get_colors(self):
    return self.get_edgecolor()

  get_color = get_colors


class EllipseCollection(Collection):
  def __init__(self, widths, heights, angles, *, units='points', **kw):
    super().__init__(**kw)
    self._widths, self._heights = 0.5 * np.asarray(widths, float).ravel(), 0.5 * np.asarray(heights, float).ravel()
    self._angles = np.deg2rad(angles).ravel()
    self._units = units

  def get_widths(self):
    return self._widths * 2

  def get_heights(self):
    return self._heights * 2

  def get_angles(self):
    return np.rad2deg(self._angles)


class CircleCollection(Collection):
  def __init__(self, sizes, **kw):
    super().__init__(**kw)
    self._sizes = np.asarray(sizes, float)


class PatchCollection(Collection):
  def __init__(self, patches, match_original=False, **kw):
    super().__init__(**kw)
    self.patches = list(patches)

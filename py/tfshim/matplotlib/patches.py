import numpy as np
from matplotlib import transforms
from matplotlib.artist import Artist


class Patch(Artist):
  _kind = 'patches'

  def __init__(self, edgecolor=None, facecolor=None, color=None, linewidth=None, linestyle=None, fill=True, ec=None, fc=None, lw=None, ls=None, **kw):
    super().__init__(**kw)
    if self.kw:
      raise AttributeError('Patch.set() got an unexpected keyword argument %r' % sorted(self.kw)[0])
    fc, ec = fc if facecolor is None else facecolor, ec if edgecolor is None else edgecolor
    self._fc, self._ec = (color, color) if color is not None else (fc, ec)
    self.fill, self.linewidth, self.linestyle = fill, linewidth if lw is None else lw, linestyle if ls is None else ls

  def set_color(self, c):
    self._fc = self._ec = c

  def set_facecolor(self, c):
    self._fc = c

  def set_edgecolor(self, c):
    self._ec = c

  def set_linewidth(self, w):
    self.linewidth = w

  def get_facecolor(self):
    return self.rgba(self._fc if self._fc is not None else '#1f77b4')

  def get_edgecolor(self):
    return self.rgba(self._ec if self._ec is not None else '#000000')

  def get_corners(self):
    p = self._points()
    return p if self.transform is None else self.transform.transform(p)


class Rectangle(Patch):
  def __init__(self, xy, width, height, *, angle=0.0, rotation_point='xy', **kw):
    super().__init__(**kw)
    self._xy = [float(xy[0]), float(xy[1])]
    self._width, self._height, self.angle, self.rotation_point = float(width), float(height), float(angle), rotation_point

  def _points(self):
    x, y = self._xy
    p = np.array([[x, y], [x + self._width, y], [x + self._width, y + self._height], [x, y + self._height]])
    if isinstance(self.rotation_point, str) and self.rotation_point == 'xy':
      c = np.array([x, y])
    elif isinstance(self.rotation_point, str) and self.rotation_point == 'center':
      c = np.array([x + self._width / 2, y + self._height / 2])
    else:
      c = np.array([float(self.rotation_point[0]), float(self.rotation_point[1])])
    return transforms.Affine2D().rotate_deg_around(c[0], c[1], self.angle).transform(p)

  def get_xy(self):
    return tuple(self._xy)

  def get_width(self):
    return self._width

  def get_height(self):
    return self._height

  def get_angle(self):
    return self.angle

  def set_xy(self, xy):
    self._xy = [float(xy[0]), float(xy[1])]

  def set_width(self, w):
    self._width = float(w)

  def set_height(self, h):
    self._height = float(h)

  def set_angle(self, a):
    self.angle = float(a)

  xy = property(get_xy, set_xy)


class Polygon(Patch):
  def __init__(self, xy, *, closed=True, **kw):
    super().__init__(**kw)
    self._xy, self.closed = np.array(xy, float), closed

  def _points(self):
    return self._xy

  def get_xy(self):
    return np.concatenate([self._xy, self._xy[:1]]) if self.closed else self._xy

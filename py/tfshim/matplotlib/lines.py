import re
import numpy as np
from matplotlib.artist import Artist


class Line2D(Artist):
  _kind = 'lines'

  def __init__(self, xdata, ydata, color=None, linestyle=None, marker=None, linewidth=None, c=None, ls=None, lw=None, **kw):
    super().__init__(**kw)
    self._x, self._y = np.asarray(xdata, float), np.asarray(ydata, float)
    self.color = c if color is None else color
    self.linestyle = ls if linestyle is None else linestyle
    self.marker = marker
    self.linewidth = lw if linewidth is None else linewidth

  def get_xdata(self):
    return self._x

  def get_ydata(self):
    return self._y

  def get_xydata(self):
    return np.stack([self._x, self._y], -1)

  def get_color(self):
    return self.color

  def get_linestyle(self):
    return self.linestyle


def parse_fmt(f):
  c = re.search(r'[kbrgwcmy]', f)
  s = re.search(r'--|-\.|-|:', f)
  m = re.search(r'[ov^<>s*+xD.]$', f)
  return dict(color=c.group(0) if c else None, linestyle=s.group(0) if s else ('' if m else None), marker=m.group(0) if m else None)

from matplotlib import colors as _c


class Artist:
  _kind = 'artists'

  def __init__(self, **kw):
    self.axes = None
    self.alpha = kw.pop('alpha', None)
    self.zorder = kw.pop('zorder', None)
    self.transform = kw.pop('transform', None)
    self.label = kw.pop('label', None)
    self.kw = kw
    self.visible = kw.pop('visible', True)

  def remove(self):
    if self.axes is None:
      raise NotImplementedError('cannot remove artist')
    self.axes._drop(self)
    self.axes = None

  def set_alpha(self, a):
    self.alpha = a

  def get_alpha(self):
    return self.alpha

  def set_visible(self, v):
    self.visible = v

  def get_visible(self):
    return self.visible

  def set_zorder(self, z):
    self.zorder = z

  def set_transform(self, t):
    self.transform = t

  def set(self, **kw):
    for k, v in kw.items():
      getattr(self, 'set_' + k)(v)

  def rgba(self, c):
    return _c.to_rgba(c, self.alpha)

class Figure:
  def __init__(self, *a, **k):
    self.axes = []
    self.closed = False

  def add_subplot(self, *a, **k):
    from matplotlib.axes import Axes
    x = Axes(self)
    self.axes.append(x)
    return x

  gca = add_subplot

  def __getattr__(self, name):
    if name.startswith('set_') or name in ('tight_layout', 'subplots_adjust', 'savefig', 'colorbar', 'suptitle'):
      return lambda *a, **k: None
    raise AttributeError(name)

from matplotlib.axes import Axes
from matplotlib.figure import Figure

closed = []


def subplots(nrows=1, ncols=1, **kw):
  f = Figure()
  if nrows * ncols == 1:
    return f, f.add_subplot()
  import numpy as np
  a = np.empty((nrows, ncols), object)
  for i in range(nrows):
    for j in range(ncols):
      a[i, j] = f.add_subplot()
  return f, a.squeeze()


def figure(*a, **k):
  return Figure()


def close(fig=None):
  closed.append(fig)
  if isinstance(fig, Figure):
    fig.closed = True


def show(*a, **k):
  pass

def to_rgba(c, alpha=None):
  if isinstance(c, str):
    n = {'k': '#000000', 'b': '#0000ff', 'r': '#ff0000', 'g': '#008000', 'w': '#ffffff', 'black': '#000000', 'white': '#ffffff', 'red': '#ff0000'}
    h = n.get(c, c).lstrip('#')
    if len(h) == 3:
      h = ''.join(x * 2 for x in h)
    v = [int(h[i:i + 2], 16) / 255 for i in range(0, len(h), 2)]
  else:
    v = [float(x) for x in c]
  if len(v) == 3:
    v.append(1.0)
  if len(v) != 4:
    raise ValueError('not a color: %r' % (c,))
  if alpha is not None:
    v[3] = float(alpha)
  return tuple(v)


def to_rgba_array(c, alpha=None):
  import numpy as np
  return np.array([to_rgba(x, alpha) for x in c]).reshape(-1, 4)


def to_rgb(c):
  return to_rgba(c)[:3]


def to_hex(c):
  return '#' + ''.join('%02x' % round(x * 255) for x in to_rgba(c)[:3])

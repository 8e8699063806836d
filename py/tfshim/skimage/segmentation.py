"""Label boundaries ('thick' mode, connectivity 1)."""
import numpy as np


def find_boundaries(label_img, connectivity=1, mode='thick', background=0):
  a = np.asarray(label_img)
  out = np.zeros(a.shape, bool)
  for ax in range(a.ndim):
    d = np.diff(a, axis=ax) != 0
    lo = [slice(None)] * a.ndim
    hi = [slice(None)] * a.ndim
    lo[ax], hi[ax] = slice(None, -1), slice(1, None)
    out[tuple(lo)] |= d
    out[tuple(hi)] |= d
  return out


class _ArrayMap:
  def __init__(self, i, o):
    self.in_values, self.out_values = i, o

  def __getitem__(self, x):
    x = np.asarray(x)
    out = np.zeros(x.shape, self.out_values.dtype)
    for i, o in zip(self.in_values, self.out_values):
      out[x == i] = o
    return out

  def __call__(self, x):
    return self[x]


def relabel_sequential(label_field, offset=1):
  """Relabels to offset, offset+1, ... in increasing order; 0 stays 0."""
  a = np.asarray(label_field)
  if offset <= 0:
    raise ValueError('Offset must be strictly positive.')
  if a.size and a.min() < 0:
    raise ValueError('Cannot relabel array that contains negative values.')
  old = np.unique(a)
  old = old[old != 0]
  fw = np.zeros(int(a.max()) + 1 if a.size else 1, a.dtype if a.dtype.kind in 'iu' else int)
  fw[old] = np.arange(offset, offset + len(old))
  inv = np.zeros(offset + len(old), a.dtype)
  inv[offset:] = old
  keep = np.unique(a)
  return fw[a], _ArrayMap(keep, fw[keep]), _ArrayMap(fw[keep], keep)

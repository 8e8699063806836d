"""Exact linear sum assignment (shortest augmenting paths), as scipy's."""
import numpy as np


def linear_sum_assignment(cost_matrix, maximize=False):
  c = np.asarray(cost_matrix, dtype=np.float64)
  if c.ndim != 2:
    raise ValueError('expected a matrix (2-D array), got a %r array' % (c.shape,))
  if np.any(np.isnan(c)) or np.any(c == (np.inf if maximize else -np.inf)):
    raise ValueError('matrix contains invalid numeric entries')
  if maximize:
    c = -c
  tr = c.shape[0] > c.shape[1]
  if tr:
    c = c.T
  n, m = c.shape
  u, v = np.zeros(n + 1), np.zeros(m + 1)
  p = np.zeros(m + 1, int)
  way = np.zeros(m + 1, int)
  for i in range(1, n + 1):
    p[0] = i
    j0 = 0
    minv = np.full(m + 1, np.inf)
    used = np.zeros(m + 1, bool)
    while True:
      used[j0] = True
      i0, delta, j1 = p[j0], np.inf, -1
      for j in range(1, m + 1):
        if not used[j]:
          cur = c[i0 - 1, j - 1] - u[i0] - v[j]
          if cur < minv[j]:
            minv[j] = cur
            way[j] = j0
          if minv[j] < delta:
            delta, j1 = minv[j], j
      if j1 < 0 or not np.isfinite(delta):
        raise ValueError('cost matrix is infeasible')
      for j in range(m + 1):
        if used[j]:
          u[p[j]] += delta
          v[j] -= delta
        else:
          minv[j] -= delta
      j0 = j1
      if p[j0] == 0:
        break
    while j0:
      j1 = way[j0]
      p[j0] = p[j1]
      j0 = j1
  pairs = sorted((p[j] - 1, j - 1) for j in range(1, m + 1) if p[j])
  if tr:
    pairs = sorted((j, i) for i, j in pairs)
  rows = np.array([a for a, _ in pairs], np.int64)
  cols = np.array([b for _, b in pairs], np.int64)
  return rows, cols

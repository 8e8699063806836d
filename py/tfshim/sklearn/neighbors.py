"""Exact kernel density estimate with a Gaussian kernel."""
import numpy as np


class KernelDensity:
  def __init__(self, bandwidth=1.0, kernel='gaussian', **k):
    assert kernel == 'gaussian'
    self.bandwidth = bandwidth

  def fit(self, X, y=None):
    self._x = np.asarray(X, np.float64)
    if self._x.ndim != 2:
      raise ValueError('Expected 2D array')
    if not np.all(np.isfinite(self._x)):
      raise ValueError('Input X contains NaN or infinity')
    return self

  def score_samples(self, X):
    q = np.asarray(X, np.float64)
    if not np.all(np.isfinite(q)):
      raise ValueError('Input X contains NaN or infinity')
    n, d = self._x.shape
    z = -0.5 * ((q[:, None, :] - self._x[None]) ** 2).sum(-1) / self.bandwidth ** 2
    m = z.max(1)
    return m + np.log(np.exp(z - m[:, None]).sum(1)) - np.log(n) - d * np.log(
        self.bandwidth * np.sqrt(2 * np.pi))

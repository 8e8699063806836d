"""PCA by singular value decomposition."""
import numpy as np


class PCA:
  def __init__(self, n_components=None, **k):
    self.n_components = n_components

  def fit(self, X, y=None):
    X = np.asarray(X)
    self.mean_ = X.mean(0)
    u, s, vt = np.linalg.svd(X - self.mean_, full_matrices=False)
    # svd_flip: the largest loading of every component is positive in u.
    sg = np.sign(u[np.abs(u).argmax(0), range(u.shape[1])])
    sg[sg == 0] = 1
    n = self.n_components or min(X.shape)
    self.components_ = (vt * sg[:, None])[:n]
    var = s ** 2 / max(1, len(X) - 1)
    self.explained_variance_ = var[:n]
    self.explained_variance_ratio_ = (var / var.sum())[:n]
    return self

  def transform(self, X):
    return (np.asarray(X) - self.mean_) @ self.components_.T

  def fit_transform(self, X, y=None):
    return self.fit(X).transform(X)

  def inverse_transform(self, X):
    return np.asarray(X) @ self.components_ + self.mean_

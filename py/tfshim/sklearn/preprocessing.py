import numpy as np


class StandardScaler:
  def __init__(self, with_mean=True, with_std=True, **k):
    self.with_mean, self.with_std = with_mean, with_std

  def fit(self, X, y=None):
    X = np.asarray(X)
    self.mean_ = X.mean(0)
    self.var_ = X.var(0)
    self.scale_ = np.where(self.var_ > 0, np.sqrt(self.var_), 1)
    return self

  def transform(self, X):
    X = np.asarray(X)
    if self.with_mean:
      X = X - self.mean_
    return X / self.scale_ if self.with_std else X

  def fit_transform(self, X, y=None):
    return self.fit(X).transform(X)

  def inverse_transform(self, X):
    X = np.asarray(X)
    if self.with_std:
      X = X * self.scale_
    return X + self.mean_ if self.with_mean else X

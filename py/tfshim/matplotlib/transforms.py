import numpy as np


class Affine2D:
  def __init__(self, m=None):
    self.m = np.eye(3) if m is None else np.array(m, float)

  def translate(self, x, y):
    self.m = np.array([[1, 0, x], [0, 1, y], [0, 0, 1.0]]) @ self.m
    return self

  def rotate(self, a):
    c, s = np.cos(a), np.sin(a)
    self.m = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]]) @ self.m
    return self

  def rotate_deg(self, a):
    return self.rotate(np.deg2rad(a))

  def rotate_around(self, x, y, a):
    return self.translate(-x, -y).rotate(a).translate(x, y)

  def rotate_deg_around(self, x, y, a):
    return self.rotate_around(x, y, np.deg2rad(a))

  def scale(self, x, y=None):
    self.m = np.diag([x, x if y is None else y, 1.0]) @ self.m
    return self

  def transform(self, p):
    p = np.asarray(p, float)
    return p @ self.m[:2, :2].T + self.m[:2, 2]

  def __add__(self, other):
    return self if getattr(other, 'is_data', False) else Affine2D(other.m @ self.m)


class DataTransform(Affine2D):
  is_data = True

  def __add__(self, other):
    return other

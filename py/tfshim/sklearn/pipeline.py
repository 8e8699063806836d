class Pipeline:
  def __init__(self, steps):
    self.steps = list(steps)

  @property
  def named_steps(self):
    return dict(self.steps)

  def __getitem__(self, k):
    return self.steps[k][1] if isinstance(k, int) else self.named_steps[k]

  def fit(self, X, y=None):
    for _, s in self.steps:
      X = s.fit(X).transform(X)
    return self

  def transform(self, X):
    for _, s in self.steps:
      X = s.transform(X)
    return X

  def inverse_transform(self, X):
    for _, s in reversed(self.steps):
      X = s.inverse_transform(X)
    return X


def make_pipeline(*steps, **k):
  return Pipeline([(type(s).__name__.lower(), s) for s in steps])

"""tfp.stats.histogram and tfp.distributions.Categorical."""
import types
import numpy as np
import tensorflow as tf


def _histogram(x, edges, axis=None, weights=None, extend_lower_interval=False,
               extend_upper_interval=False, dtype=None, name=None):
  """Counts of x in the intervals between edges; the last one is closed. Values
  outside are not counted. The interval dimension comes first."""
  a = tf._arr(x)
  e = tf._arr(edges, a.dtype)
  if axis is None:
    axis = tuple(range(a.ndim))
  axis = axis if isinstance(axis, (list, tuple)) else (axis,)
  axis = tuple(i % a.ndim for i in axis)
  n = len(e) - 1
  ix = np.searchsorted(e, a, side='right') - 1
  ix[a == e[-1]] = n - 1
  if extend_lower_interval:
    ix[a < e[0]] = 0
  if extend_upper_interval:
    ix[a > e[-1]] = n - 1
  out = np.stack([(ix == k).sum(axis=axis) for k in range(n)], 0)
  return tf.Tensor(np.asarray(out.astype(a.dtype if dtype is None else tf.as_dtype(dtype)._np)))


class _Categorical:
  def __init__(self, logits=None, probs=None, dtype=tf.int32, **k):
    self._logits = tf._arr(logits) if logits is not None else None
    self._probs = tf._arr(probs) if probs is not None else None
    if self._probs is not None and self._probs.dtype.kind != 'f':
      raise TypeError('probs must be floating')

  def log_prob(self, value):
    v = tf._arr(value).astype(np.int64)
    with np.errstate(all='ignore'):
      lp = np.log(self._probs) if self._probs is not None else self._logits
      # Categorical normalises: log_prob = -sparse softmax cross entropy.
      m = lp.max(-1, keepdims=True)
      lp = lp - m - np.log(np.exp(lp - m).sum(-1, keepdims=True))
    shape = np.broadcast_shapes(v.shape, lp.shape[:-1])
    lp = np.broadcast_to(lp, shape + lp.shape[-1:])
    v = np.broadcast_to(v, shape)
    return tf.Tensor(np.take_along_axis(lp, v[..., None], -1)[..., 0].copy())

  def prob(self, value):
    return tf.exp(self.log_prob(value))


stats = types.SimpleNamespace(histogram=_histogram)
distributions = types.SimpleNamespace(Categorical=_Categorical)

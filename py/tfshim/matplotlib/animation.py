class FuncAnimation:
  def __init__(self, fig, func, frames=None, init_func=None, fargs=None, save_count=None, **kw):
    self._fig, self._func, self._frames, self._init_func, self._fargs, self.kw = fig, func, frames, init_func, tuple(fargs or ()), kw

  def frame_seq(self):
    f = self._frames
    if callable(f):
      return list(f())
    return list(range(f)) if hasattr(f, '__index__') else list(f)

  new_frame_seq = frame_seq

  def draw(self, frame):
    return self._func(frame, *self._fargs)

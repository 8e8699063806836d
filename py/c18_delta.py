"""C18: the delta encoder's round trip, byte format and treatment of its argument."""
import itertools
import zlib
import mcpy
import numpy as np
from waymo_open_dataset.protos import compressed_lidar_pb2 as pb
from waymo_open_dataset.utils.compression import delta_encoder as de

m = mcpy.Main()
TH = m.thorough()


# ---- the published format, read and written independently ---------------------------
def ref_decode(data):
  """zlib(DeltaEncodedData): channel-major run lengths, filled first; filled pixels as running sums."""
  p = pb.DeltaEncodedData.FromString(zlib.decompress(data))
  h, w, ch = p.metadata.shape
  steps, pix, filled = [], 0, True
  res, ri, acc = list(p.residual), 0, 0
  for run in p.mask:
    for _ in range(run):
      if filled:
        acc += res[ri]
        ri += 1
      steps.append(acc if filled else 0)
    filled = not filled
  assert len(steps) == h * w * ch and ri == len(res), "runs cover %d of %d pixels, %d of %d residuals used" % (len(steps), h * w * ch, ri, len(res))
  return steps, (h, w, ch), list(p.metadata.quant_precision)


def ref_encode(steps, shape, prec):
  mask, res, last, filled, run = [], [], 0, True, 0
  for s in steps:
    if (s != 0) != filled:
      mask.append(run)
      run, filled = 0, not filled
    run += 1
    if s != 0:
      res.append(s - last)
      last = s
  mask.append(run)
  p = pb.DeltaEncodedData(residual=res, mask=mask)
  p.metadata.shape.extend(shape)
  p.metadata.quant_precision.extend(prec)
  return zlib.compress(p.SerializeToString())


# ---- oracle ---------------------------------------------------------------------------
def judge(c, tag, desc, truth, shape, prec, arg, image):
  """truth: flat row-major float values; prec: one step per channel; image: the array handed over."""
  before = image.copy()
  data = de.compress(image, arg)
  c.step()
  if not np.array_equal(image, before):
    c.fail(tag + ":argument-changed", "%s: the caller's image changed from %s to %s" % (desc(), before.ravel()[:8].tolist(), image.ravel()[:8].tolist()))
    return
  if not isinstance(data, bytes):
    c.fail(tag + ":type", desc())
    return
  if de.compress(image, arg) != data:
    c.fail(tag + ":bytes-differ", "%s: compressing the same image again gives other bytes" % desc())
  out = de.decompress(data)
  c.step(2)
  if tuple(out.shape) != shape:
    c.fail(tag + ":shape", "%s: decoded shape %s" % (desc(), out.shape))
    return
  flat = out.reshape(-1).tolist()
  nch = shape[2]
  for i, (v, d) in enumerate(zip(truth, flat)):
    p = prec[i % nch]
    n = round(d / p)
    if abs(n - v / p) > 0.5 + 1e-6 * max(1.0, abs(v / p)) or abs(d - n * p) > 1e-6 * max(abs(d), p):
      c.fail(tag + ":value", "%s: pixel %d channel %d holds %r, decoded %r (step %g)" % (desc(), i // nch, i % nch, v, d, p))
      return
    if v == 0 and d != 0:
      c.fail(tag + ":not-empty", "%s: empty pixel %d channel %d decoded as %r" % (desc(), i // nch, i % nch, d))
      return
  try:
    steps, fshape, fprec = ref_decode(data)
  except Exception as e:  # noqa: BLE001
    c.fail(tag + ":format", "%s: not in the published format: %s" % (desc(), e))
    return
  plane = shape[0] * shape[1]
  exp = [round(flat[px * nch + ch] / prec[ch]) for ch in range(nch) for px in range(plane)]
  if steps != exp or fshape != shape or any(abs(a - b) > 1e-6 * b for a, b in zip(fprec, prec)):
    c.fail(tag + ":format", "%s: a reader of the published format sees %s %s, expected %s" % (desc(), fshape, steps[:12], exp[:12]))
  c.outcome("filled %s" % ("none" if not any(exp) else "all" if all(exp) else "some"))
  c.state((shape, tuple(exp), tuple(prec)))


def arr(vals, shape, dtype=np.float64):
  return np.array(vals, dtype=dtype).reshape(shape)


# ---- families --------------------------------------------------------------------------
VALS = [0.0, 0.1, 0.04, -0.3, 75.0]
SHAPES = [(1, 5, 1), (5, 1, 1), (2, 2, 1), (1, 2, 2), (2, 1, 2), (1, 1, 4), (1, 1, 5), (1, 1, 1)] + ([(2, 3, 1), (1, 2, 3), (3, 1, 2), (1, 3, 2), (2, 1, 3)] if TH else [])


def values(c):
  shape = c.pick(SHAPES)
  v = [c.pick(VALS) for _ in range(shape[0] * shape[1] * shape[2])]
  if not c.go():
    return
  judge(c, "values", lambda: "%s %s step .1" % (shape, v), v, shape, [.1] * shape[2], .1, arr(v, shape))
  c.sample(lambda: "%s %s" % (shape, v))


def occupancy(c):
  """Every pattern of filled pixels; each pixel has its own value, so any misplacement shows."""
  shape = c.pick([(3, 4, 1), (2, 3, 2), (2, 2, 3), (1, 4, 3), (4, 1, 3), (12, 1, 1), (1, 1, 12)])
  n = shape[0] * shape[1] * shape[2]
  bits = [c.flip() for _ in range(n)]
  sign = c.choose(2)
  if not c.go():
    return
  prec = [.05, .5, .01][:shape[2]] if shape[2] <= 3 else [.05] * shape[2]
  v = [(prec[i % shape[2]] * (i * i + 3) * (-1 if sign and i % 3 == 1 else 1)) if b else 0.0 for i, b in enumerate(bits)]
  judge(c, "occupancy", lambda: "%s pattern %s" % (shape, "".join("01"[b] for b in bits)), v, shape, prec, prec, arr(v, shape))
  c.sample(lambda: "%s %s" % (shape, "".join("01"[b] for b in bits)))


DT = [np.float64, np.float32, np.float16, np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint16]
LAYOUT = ["C", "F", "strided", "reversed", "readonly", "offset view"]


def lay(a, how):
  if how == "C":
    return a
  if how == "F":
    return np.asfortranarray(a)
  if how == "strided":
    big = np.full((a.shape[0], a.shape[1] * 2, a.shape[2]), 9, a.dtype)
    big[:, ::2] = a
    return big[:, ::2]
  if how == "reversed":
    return a[::-1].copy()[::-1]
  if how == "offset view":
    big = np.full((a.shape[0] + 1, a.shape[1], a.shape[2] + 1), 9, a.dtype)
    big[1:, :, 1:] = a
    return big[1:, :, 1:]
  b = a.copy()
  b.flags.writeable = False
  return b


def dtypes(c):
  dt = c.pick(DT)
  how = c.pick(LAYOUT)
  prec = c.pick([.1, .5, 1.0, 2, .001])
  form = c.pick(["scalar", "list", "tuple", "array"])
  v = [c.pick([0, 1, 2, 100] + ([-3] if dt not in (np.uint8, np.uint16) else [7])) for _ in range(3 if TH else 2)]
  shape = (1, len(v), 1) if not c.flip() else (len(v), 1, 1)
  if not c.go():
    return
  arg = {"scalar": prec, "list": [prec], "tuple": (prec,), "array": np.array([prec])}[form]
  judge(c, "types", lambda: "%s %s %s step %s as %s" % (dt.__name__, how, v, prec, form), [float(x) for x in v], shape, [float(prec)], arg, lay(arr(v, shape, dt), how))
  c.sample(lambda: "%s %s %s step %s as %s" % (dt.__name__, how, v, prec, form))


PREC = [.1, 1e-4, .003, 2.0, 1.0]


def steps(c):
  """Steps per channel and magnitudes, including values next to half a step and very long strides."""
  nch = c.pick([1, 2, 3])
  prec = [c.pick(PREC) for _ in range(nch)]
  npx = 2 if nch < 3 or TH else 1
  k = [c.pick([0, .49, .51, -.49, -.51, 1.49, 12345.0, -3e6, 7.0] if nch < 3 else [0, .51, -.49, 12345.0]) for _ in range(nch * npx)]
  if not c.go():
    return
  v = [x * prec[i % nch] for i, x in enumerate(k)]
  judge(c, "steps", lambda: "%s in steps %s" % (k, prec), v, (1, npx, nch), prec, list(prec), arr(v, (1, npx, nch)))
  c.sample(lambda: "%s in steps %s" % (k, prec))


def read(c):
  """Streams written by an independent encoder of the published format."""
  shape = c.pick([(1, 4, 1), (2, 2, 1), (2, 1, 2), (1, 2, 2), (1, 1, 4), (3, 1, 2), (1, 3, 2)])
  n = shape[0] * shape[1] * shape[2]
  st = [c.pick([0, 1, -5, 70000] if n == 4 else [0, 2, -9]) for _ in range(n)]
  prec = [[.1], [.01, .5], [.01, .5, 2], [.25, 1, .5, 2]][shape[2] - 1]
  tail = c.flip()   # a zero-length run at the end means nothing
  if not c.go():
    return
  data = ref_encode(st, shape, prec)
  if tail:
    p = pb.DeltaEncodedData.FromString(zlib.decompress(data))
    p.mask.append(0)
    data = zlib.compress(p.SerializeToString(), 1)
  out = de.decompress(data)
  c.step()
  plane = shape[0] * shape[1]
  exp = np.array([[st[ch * plane + px] * prec[ch] for ch in range(shape[2])] for px in range(plane)]).reshape(shape)
  if out.shape != exp.shape or not np.allclose(out, exp, rtol=1e-6, atol=1e-12):
    c.fail("read:value", "%s steps %s prec %s decoded as %s" % (shape, st, prec, np.asarray(out).tolist()))
  c.state((shape, tuple(st)))
  c.outcome("ok")
  c.sample(lambda: "%s steps %s prec %s" % (shape, st, prec))


def sequence(c):
  """Nothing is remembered between calls."""
  ims = []
  for _ in range(3):
    shape = c.pick([(1, 2, 1), (1, 1, 2), (2, 2, 1)])
    ims.append((shape, [c.pick([0.0, .2, -3.0] if TH else [0.0, -3.0]) for _ in range(2)] * (shape[0] * shape[1] * shape[2] // 2), c.pick([.1, .5])))
  if not c.go():
    return
  datas = [de.compress(arr(v, s), p) for s, v, p in ims]
  outs = [de.decompress(d) for d in datas]
  alone = []
  for s, v, p in ims:
    o = de.decompress(de.compress(arr(v, s), p))
    alone.append(o)
    keep = o.copy()
    o2 = de.decompress(de.compress(arr(v, s), p))
    o2 += 1  # the result belongs to the caller
    if not np.array_equal(o, keep):
      c.fail("sequence:shared", "%s: two results share memory" % (ims,))
  c.step(9)
  for i, (a, b) in enumerate(zip(outs, alone)):
    if a.shape != b.shape or not np.array_equal(a, b):
      c.fail("sequence:memory", "%s: image %d decodes differently in a sequence" % (ims, i))
  c.outcome("ok")
  c.state(ims)
  c.sample(lambda: "%s" % (ims,))


def invalid(c):
  """Unusable steps and sizes are rejected, never encoded."""
  kind = c.choose(4)
  nch = 1 + c.choose(3)
  bad = c.pick([0, 0.0, -1, -.1])
  pos = c.choose(nch) if kind == 1 else 0
  ln = c.pick([x for x in range(0, 5) if x != nch]) if kind == 2 else 0
  ax = c.choose(2) if kind == 3 else 0
  if not c.go():
    return
  im = np.ones((2, 2, nch))
  if kind == 0:
    arg = bad
  elif kind == 1:
    arg = [.1] * nch
    arg[pos] = bad
  elif kind == 2:
    arg = [.1] * ln
  else:
    im, arg = np.zeros([(65536, 1, nch), (1, 65536, nch)][ax]), .1
  keep = im.copy()
  try:
    de.compress(im, arg)
    c.fail("invalid:accepted", "shape %s step %s was encoded" % (im.shape, arg))
  except ValueError:
    c.outcome("rejected")
  if not np.array_equal(im, keep):
    c.fail("invalid:argument-changed", "shape %s step %s" % (im.shape, arg))
  c.step()
  c.state((kind, nch, bad, pos, ln, ax))
  c.sample(lambda: "shape %s step %s" % (im.shape, arg))


LENS = [1, 255, 256, 65535, 65536, 70000]


def runs(c):
  """Long runs of filled and empty pixels in large images; step counts far beyond 32 bits."""
  lens = [c.pick(LENS) for _ in range(1 + c.choose(3 if TH else 2))]
  first = c.flip()
  content = c.choose(3)   # all different, one constant, huge steps
  nch = c.pick([1, 2])
  n = sum(lens)
  cols = c.pick([x for x in (1, 5, 256, 2650, 65535) if n * (1 if nch == 1 else 2) % (x * nch) == 0 and n // x <= 65535 and (nch == 1 or n % x == 0)] or [0])
  if not cols or (content and nch == 2) or (cols == 1 and n < 60000 and len(lens) > 1):
    return
  if not c.go():
    return
  flat = np.zeros(n)
  at, filled = 0, first
  for l in lens:
    if filled:
      i = np.arange(at, at + l)
      flat[at:at + l] = (i % 997 + 1) * .5 * (1 - 2 * (i % 2)) if content == 0 else 20. if content == 1 else (i % 2 * 2 - 1) * (2.**33 + i)
    at, filled = at + l, not filled
  chans = [flat] if nch == 1 else [flat, flat[::-1]]
  im = np.stack([x.reshape(n // cols, cols) for x in chans], axis=-1)
  keep, step = im.copy(), [.5, .25][:nch]
  data = de.compress(im, step if nch > 1 else .5)
  c.step()
  what = "runs %s first %s content %d of %s" % (lens, "filled" if first else "empty", content, im.shape)
  c.state(what)
  if not np.array_equal(im, keep):
    return c.fail("runs:argument-changed", what)
  out = de.decompress(data)
  if out.shape != im.shape or not np.array_equal(out, im):
    return c.fail("runs:value", "%s: decoded shape %s, %d pixels differ" % (what, out.shape, (out != im).sum() if out.shape == im.shape else -1))
  p = pb.DeltaEncodedData.FromString(zlib.decompress(data))
  steps = np.concatenate([x / q for x, q in zip(chans, step)]).astype(np.int64)
  got, filled, at, acc, res = np.zeros(len(steps), np.int64), True, 0, 0, np.cumsum(np.array(list(p.residual), np.int64))
  for l in p.mask:
    if filled:
      got[at:at + l] = res[acc:acc + l]
      acc += l
    at, filled = at + l, not filled
  if at != len(steps) or not np.array_equal(got, steps):
    return c.fail("runs:format", "%s: not in the published format" % what)
  c.outcome("%d runs" % len(lens))
  c.sample(lambda: what)


m.family("runs", "images of one or two (thorough three) runs of 1..70000 filled or empty pixels, three contents (steps beyond 32 bits included), 1-2 channels, 1 to 65535 columns", runs)
m.family("values", "all images of 1-5 (thorough 6) numbers over {0, one step, below half a step, negative, large}, %d shapes" % len(SHAPES), values)
m.family("occupancy", "all 2^12 patterns of filled pixels in 7 shapes, signs alternating or not, one distinct value per pixel", occupancy)
m.family("types and layouts", "9 element types x 6 memory layouts x 5 steps x 4 ways to pass the step x values^2 (thorough ^3)", dtypes)
m.family("steps", "1-3 channels, all assignments of 5 steps, values next to half a step, large and negative", steps)
m.family("published format", "all streams of 4-6 pixels over 3-4 step counts written by an independent encoder", read)
m.family("call sequences", "all sequences of three images over 3 shapes, 4 (thorough 9) contents, 2 steps", sequence)
m.family("rejections", "non-positive steps, wrong numbers of steps, oversized dimensions", invalid)
raise SystemExit(m.run())

"""C30: compressed object assets: tiles, PCA codec, ray and box geometry."""
import itertools
import math
import os
import sys

import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcpy
import pandas as pd
import tensorflow as tf
from waymo_open_dataset.utils.compression import pca_codec
from waymo_open_dataset.utils.compression import tiling
from waymo_open_dataset.v2 import column_types
from waymo_open_dataset.v2.perception import base
from waymo_open_dataset.v2.perception import object_asset
from waymo_open_dataset.v2.perception.utils import object_asset_codec
from waymo_open_dataset.v2.perception.utils import object_asset_utils as utils


def near(a, b, tol=1e-5):
  a, b = np.asarray(a, float), np.asarray(b, float)
  return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def reflect(i, n):
  return i if i < n else 2 * (n - 1) - i


def small(h, w, tile):
  """The border cannot be filled by one reflection: the codec may refuse."""
  return -(-h // tile) * tile - h > h - 1 or -(-w // tile) * tile - w > w - 1


def grid(h, w, d, salt=0):
  a = np.arange(h * w * d, dtype=np.float64).reshape(h, w, d)
  return (np.sin(a * 1.7 + salt) * 3 + a * 0.01).astype(np.float32)


def ref_tiles(a, tile):
  h, w, d = a.shape
  out = []
  for ty in range(-(-h // tile)):
    for tx in range(-(-w // tile)):
      out.append([a[reflect(ty * tile + i, h), reflect(tx * tile + j, w), k] for i in range(tile) for j in range(tile) for k in range(d)])
  return np.array(out)


# ------------------------------------------------------------------ tiles
def fam_tiles(c):
  top = 20 if m.thorough() else 12
  h, w = 1 + c.choose(top), 1 + c.choose(top)
  d = 1 + c.choose(3)
  tile = 1 + c.choose(5)
  if not c.go():
    return
  what = '%dx%dx%d in tiles of %d' % (h, w, d, tile)
  c.state((h, w, d, tile))
  c.sample(lambda: what)
  c.outcome('tile divides' if not h % tile and not w % tile else 'border')
  a = grid(h, w, d)
  try:
    t = tiling.extract_tiles(tf.constant(a), tile)
  except Exception as e:
    if mcpy.is_shim_missing(e) or not small(h, w, tile):
      raise
    c.outcome('refused')
    return
  if not small(h, w, tile) and not np.array_equal(t.numpy(), ref_tiles(a, tile)):
    c.fail('tiles', '%s: tiles %s' % (what, t.numpy().tolist()))
  back = tiling.combine_tiles(t, orig_height=h, orig_width=w, tile_size=tile)
  if back.numpy().dtype != np.float32 or not np.array_equal(back.numpy(), a):
    c.fail('tiles', '%s: not the same after extracting and combining: %s' % (what, back.numpy().tolist()))
  # Tiles of any content go to their place.
  t2 = grid(t.shape[0], t.shape[1], 1, 7)[..., 0]
  back = tiling.combine_tiles(tf.constant(t2), orig_height=h, orig_width=w, tile_size=tile).numpy()
  nx = -(-w // tile)
  for y in range(h):
    for x in range(w):
      o = ((y % tile) * tile + x % tile) * d
      if not np.array_equal(back[y, x], t2[(y // tile) * nx + x // tile, o:o + d]):
        return c.fail('tiles', '%s: place %d %d is %s' % (what, y, x, back[y, x].tolist()))
  if tile > 1:
    try:
      tiling.combine_tiles(tf.constant(t2[:, :-1]), orig_height=h, orig_width=w, tile_size=tile)
      if (t2.shape[1] - 1) % (tile * tile):
        c.fail('tiles', '%s: tiles of a wrong size accepted' % what)
    except ValueError:
      pass


# ------------------------------------------------------------------ codec
def basis(n, k, kind):
  """k orthonormal vectors of n values."""
  if kind == 0:
    e = np.eye(n)[::-1]
  elif kind == 1:
    # Cosine basis.
    e = np.array([[math.sqrt((1 if i == 0 else 2) / n) * math.cos(math.pi * i * (2 * j + 1) / (2 * n)) for j in range(n)] for i in range(n)])
  else:
    v = np.arange(1, n + 1, dtype=float)
    v /= np.linalg.norm(v)
    e = np.eye(n) - 2 * np.outer(v, v)
  return e[:k]


def config(tile, d, k, kind, q, flat=False):
  n = tile * tile * d
  i = np.arange(n)
  return pca_codec.CodecConfig(
      pca=pca_codec.PcaParams(mean=(0.3 * np.cos(i) if not flat else 0.0 * i).tolist(), std=(1.0 + 0.2 * (i % 3) if not flat else 1.0 + 0.0 * i).tolist(), eigen_vectors=basis(n, k, kind).tolist(), eigen_values=(1.0 / (1 + np.arange(k))).tolist()),
      quantization=[q * (1 + 0.5 * (j % 2)) for j in range(k)], tile_size=tile)


def fam_codec(c):
  top = 9 if m.thorough() else 6
  h, w = 1 + c.choose(top), 1 + c.choose(top)
  d = c.pick([1, 2, 6])
  tile = 1 + c.choose(3)
  n = tile * tile * d
  k = c.pick(sorted({1, (n + 1) // 2, n}))
  kind = c.choose(3)
  q = c.pick([1e-4, 0.05, 1.0])
  scale = c.pick([1.0, 1e9])
  if scale > 1 and (q != 1.0 or k < n):
    return
  if not c.go():
    return
  if small(h, w, tile):
    c.outcome('too small')
    return
  cfg = config(tile, d, k, kind, q)
  what = '%dx%dx%d tiles of %d, %d components of basis %d, step %g, values to %g' % (h, w, d, tile, k, kind, q, 4 * scale)
  c.state((h, w, d, tile, k, kind, q, scale))
  c.sample(lambda: what)
  c.outcome('%d of %d' % (k, n))
  a = grid(h, w, d, 2) * np.float32(scale)
  kept = a.copy()
  js = cfg.to_json()
  again = pca_codec.CodecConfig.from_json(js)
  if again != cfg:
    c.fail('config', '%s: configuration changes by way of JSON' % what)
  codec = pca_codec.Codec(again)
  if codec.quantization_dims != k:
    c.fail('codec', '%s: %d quantization steps' % (what, codec.quantization_dims))
  code = codec.encode(tf.constant(a))
  ref = a.astype(np.float64).mean((0, 1))
  if not near(code.reference.numpy(), ref, 1e-4) or list(code.shape) != [h, w, d] or code.quantized_values.dtype != tf.int32:
    c.fail('codec', '%s: reference %s shape %s' % (what, code.reference.numpy().tolist(), code.shape))
  mean, std, ev, st = (np.array(x) for x in (cfg.pca.mean, cfg.pca.std, cfg.pca.eigen_vectors, cfg.quantization))
  t = ref_tiles(a.astype(np.float64) - code.reference.numpy().astype(np.float64), tile)
  coef = ((t - mean) / std) @ ev.T
  want = coef / st
  qv = code.quantized_values.numpy()
  lim = 2.0 ** 31
  clip = np.clip(want, -lim, lim - 1)
  if qv.shape != want.shape or np.abs(qv - clip).max() > 0.5 + 1e-6 * np.abs(clip).max() + 2e-6 / q:
    return c.fail('codec', '%s: codes %s, expected %s' % (what, qv.tolist(), want.tolist()))
  # Decoding: the field the codes stand for.
  dec = codec.decode(code).numpy()
  vals = (qv * st) @ ev * std + mean
  back = np.zeros((h, w, d))
  nx = -(-w // tile)
  for y in range(h):
    for x in range(w):
      o = ((y % tile) * tile + x % tile) * d
      back[y, x] = vals[(y // tile) * nx + x // tile, o:o + d] + code.reference.numpy()
  if dec.dtype != np.float32 or not near(dec, back, 1e-5 * max(1.0, scale)):
    c.fail('codec', '%s: decodes to %s, expected %s' % (what, dec.tolist(), back.tolist()))
  if k == n and scale == 1:
    # A full basis: every value within the steps it was rounded with.
    e = np.abs(dec - a).max()
    bound = 0.5 * max(st) * math.sqrt(n) * max(std) + 1e-4
    if e > bound:
      c.fail('codec', '%s: error %g over %g' % (what, e, bound))
  if not np.array_equal(a, kept):
    c.fail('codec', '%s: the input changed' % what)


def fam_rays_codec(c):
  h, w = c.pick([(2, 2), (3, 4), (5, 2), (4, 6)])
  tile = 1 + c.choose(2)
  kind = c.choose(3)
  cam = c.choose(6)
  ident = c.pick(['a', 'B-7'])
  if not c.go():
    return
  if small(h, w, tile):
    return
  c.state((h, w, tile, kind, cam, ident))
  c.outcome('%dx%d' % (h, w))
  what = 'rays %dx%d tiles of %d basis %d' % (h, w, tile, kind)
  n = tile * tile * 6
  codec = object_asset_codec.ObjectAssetRayCodec(config(tile, 6, n, kind, 1e-5))
  a = grid(h, w, 6, cam)
  key = base.ObjectAssetKey(segment_context_name='seg', frame_timestamp_micros=17 + cam, laser_object_id=ident, camera_name=cam)
  ray = lambda x: object_asset.CameraRayImage(values=x.ravel().tolist(), shape=list(x.shape))
  src = object_asset.ObjectAssetRayComponent(key=key, ray_origin=ray(a[..., :3]), ray_direction=ray(a[..., 3:]))
  comp = codec.encode(src)
  if comp.key != key or not isinstance(comp, object_asset.ObjectAssetRayCompressedComponent):
    c.fail('rays', '%s: key %s' % (what, comp.key))
  if list(comp.shape) != [h, w, 6] or not all(isinstance(x, int) for x in comp.quantized_values) or not all(isinstance(x, float) for x in comp.reference):
    c.fail('rays', '%s: compressed shape %s' % (what, comp.shape))
  # The compressed component as it comes back from a table.
  comp = object_asset.ObjectAssetRayCompressedComponent(key=comp.key, reference=list(comp.reference), quantized_values=list(comp.quantized_values), shape=list(comp.shape))
  out = codec.decode(comp)
  if out.key != key:
    c.fail('rays', '%s: decoded key %s' % (what, out.key))
  for name, want in (('ray_origin', a[..., :3]), ('ray_direction', a[..., 3:])):
    g = getattr(out, name)
    if list(g.shape) != [h, w, 3] or not near(g.numpy, want, 2e-4) or not near(g.tensor.numpy(), want, 2e-4) or not near(getattr(src, name).numpy, want, 1e-7):
      c.fail('rays', '%s: %s is %s, expected %s' % (what, name, g.numpy.tolist(), want.tolist()))
  for half in ('ray_origin', 'ray_direction'):
    bad = object_asset.ObjectAssetRayComponent(**{'key': key, half: getattr(src, half)})
    try:
      codec.encode(bad)
      refused = False
    except Exception:  # pylint: disable=broad-except
      refused = True
    if not refused:
      c.fail('rays', '%s: encoded without the other half of %s' % (what, half))
  P = '[ObjectAssetRayComponent].'
  b = grid(w, h, 6, cam + 3)
  df = pd.DataFrame({P + 'ray_origin.values': [x[..., :3].ravel().tolist() for x in (a, b)], P + 'ray_origin.shape': [[h, w, 3], [w, h, 3]],
                     P + 'ray_direction.values': [x[..., 3:].ravel().tolist() for x in (a, b)], P + 'ray_direction.shape': [[h, w, 3], [w, h, 3]]})
  got = list(object_asset_codec.iter_ray_samples(df))
  if len(got) != 2 or not near(got[0], a, 1e-7) or not near(got[1], b, 1e-7):
    c.fail('rays', '%s: samples differ' % what)


def fam_fit(c):
  n, f = c.pick([(3, 2), (6, 3), (8, 4), (12, 4)])
  k = 1 + c.choose(f)
  const = c.flip()
  salt = c.choose(6 if m.thorough() else 3)
  if not c.go():
    return
  c.state((n, f, k, const, salt))
  c.outcome('%d of %d' % (k, f))
  what = 'fit of %d samples of %d values to %d components, constant %s salt %d' % (n, f, k, const, salt)
  x = np.sin(np.arange(n * f).reshape(n, f) * (1.1 + 0.3 * salt) + salt) * np.arange(1, f + 1) + np.arange(f)
  if const:
    x[:, f - 1] = 2.5
  if np.linalg.matrix_rank(x - x.mean(0)) < k or n <= k:
    return
  pipe, par = pca_codec.fit_pca(x, num_components=k)
  std = np.where(x.std(0) > 1e-12, x.std(0), 1.0)
  ev = np.array(par.eigen_vectors)
  if not near(par.mean, x.mean(0), 1e-9) or not near(par.std, std, 1e-9) or ev.shape != (k, f) or len(par.eigen_values) != k:
    c.fail('fit', '%s: %s' % (what, par))
    return
  # Principal directions: orthonormal, most variance first, uncorrelated.
  y = (x - x.mean(0)) / std
  cov = y.T @ y / (n - 1)
  if not near(ev @ ev.T, np.eye(k), 1e-7) or not near(ev @ cov @ ev.T, np.diag(par.eigen_values), 1e-7):
    c.fail('fit', '%s: directions %s' % (what, ev.tolist()))
  top = np.sort(np.linalg.eigvalsh(cov))[::-1][:k]
  if not near(par.eigen_values, top, 1e-7):
    c.fail('fit', '%s: eigenvalues %s, expected %s' % (what, par.eigen_values, top.tolist()))
  p = pca_codec.Pca(par)
  z = p.transform(tf.constant(x.astype(np.float32)))
  if not near(z.numpy(), y @ ev.T, 1e-4) or not near(z.numpy(), pipe.transform(x), 1e-4):
    c.fail('fit', '%s: transform %s' % (what, z.numpy().tolist()))
  back = p.inverse_transform(z).numpy()
  want = (y @ ev.T) @ ev * std + x.mean(0)
  if not near(back, want, 1e-4):
    c.fail('fit', '%s: inverse transform %s' % (what, back.tolist()))
  buckets = [2 + j for j in range(f)]
  got = pca_codec.bucketed_quantization(x, buckets)
  if not near(got, [np.abs(x[:, j]).max() / buckets[j] for j in range(f)], 1e-9):
    c.fail('fit', '%s: quantization %s' % (what, got))


# ------------------------------------------------------------------ rays and boxes
def ref_ray(o, d, size):
  """(hit, first, second), hit None when the ray grazes the box."""
  lo, hi = -math.inf, math.inf
  clear = True
  for a in range(3):
    b = size[a] / 2
    if d[a] == 0:
      if abs(abs(o[a]) - b) < 1e-6:
        clear = False
      elif abs(o[a]) > b:
        return False, None, None
      continue
    t = sorted([(-b - o[a]) / d[a], (b - o[a]) / d[a]])
    lo, hi = max(lo, t[0]), min(hi, t[1])
  if not clear or abs(hi - lo) < 1e-6 or (lo < hi and abs(hi) < 1e-6):
    return None, None, None
  return lo < hi and hi > 0, lo, hi


DIRS = [d for d in itertools.product([-1.0, 0.0, 0.5, 1.0], repeat=3) if any(d)]


def fam_ray_box(c):
  size = c.pick([(4.0, 2.0, 1.5), (1.0, 1.0, 1.0), (0.5, 6.0, 3.0)])
  ax = [-3.3, -0.6, -0.4, 0.0, 0.45, 0.8, 2.7] if m.thorough() else [-3.3, -0.4, 0.0, 0.45, 2.7]
  o = [c.pick(ax) for _ in range(3)]
  kind = c.choose(3)      # float64 unit, float32, not unit length
  if not c.go():
    return
  dirs = []
  for d in DIRS:
    n = math.sqrt(sum(x * x for x in d)) if kind < 2 else 0.7
    dirs.append([x / n for x in d])
  dt = np.float32 if kind == 1 else np.float64
  O, D, S = np.array([o] * len(dirs), dt), np.array(dirs, dt), np.array(size, dt)
  c.state((size, tuple(o), kind))
  c.outcome('inside' if all(abs(x) < s / 2 for x, s in zip(o, size)) else 'outside')
  flag, lo, hi = utils.get_ray_box_intersects(O, D, S)
  if flag.shape != (len(dirs),) or lo.shape != flag.shape or hi.shape != flag.shape or flag.dtype != bool:
    return c.fail('ray', 'shapes %s %s %s' % (flag.shape, lo.shape, hi.shape))
  for i, d in enumerate(D.astype(float).tolist()):
    h, a, b = ref_ray(O[i].astype(float), d, S.astype(float))
    what = 'ray from %s along %s, box %s' % (o, d, size)
    if h is None:
      continue
    if bool(flag[i]) != h:
      c.fail('ray', '%s: hit %s, expected %s' % (what, flag[i], h))
    elif h and (abs(lo[i] - a) > 1e-4 * (1 + abs(a)) or abs(hi[i] - b) > 1e-4 * (1 + abs(b))):
      c.fail('ray', '%s: distances %s %s, expected %s %s' % (what, lo[i], hi[i], a, b))
    elif not h and (lo[i] >= 0 or hi[i] >= 0):
      c.fail('ray', '%s: distances %s %s of a ray that misses, expected negative ones' % (what, lo[i], hi[i]))


POINTS = [(0.0, 0.0, 0.0), (1.0, 0.0, 0.5), (-2.5, 3.0, -1.0), (0.3, -7.0, 2.0)]


def fam_frames(c):
  yaw = c.pick([0.0, 0.7, 1.5707963, 3.1, -2.0, -3.1415926, 7.0])
  at = c.pick([(0.0, 0.0, 0.0), (5.0, -2.0, 1.0), (-3000.5, 4000.25, 20.0)])
  tilt = c.pick([0.0, 0.4])
  dt = c.pick([np.float64, np.float32])
  bdt = c.pick([np.float64, np.float32])
  n = c.choose(len(POINTS) + 1)
  if not c.go():
    return
  c.state((yaw, at, tilt, dt.__name__, bdt.__name__, n))
  c.outcome('%d points' % n)
  what = 'yaw %s at %s tilt %s %s box %s %d points' % (yaw, at, tilt, dt.__name__, bdt.__name__, n)
  p = np.array(POINTS[:n], dt).reshape(n, 3)
  world = (p + np.array(at) * (0.9 if at[0] < -100 else 1)).astype(dt)
  keep = (p.copy(), world.copy())
  box = np.array([*at, 4.0, 2.0, 1.5, yaw], bdt)
  big = dt is np.float32 and at[0] < -100
  tol = 3e-3 if big else 2e-6 if dt is np.float32 or bdt is np.float32 else 1e-9
  ch, sh = math.cos(float(box[6])), math.sin(float(box[6]))
  into = lambda q: [(ch * q[0] + sh * q[1]), (-sh * q[0] + ch * q[1]), q[2]]
  out = lambda q: [(ch * q[0] - sh * q[1]), (sh * q[0] + ch * q[1]), q[2]]
  A = np.array(at)
  Rx = np.array([[1, 0, 0], [0, math.cos(tilt), -math.sin(tilt)], [0, math.sin(tilt), math.cos(tilt)]])
  Rz = np.array([[math.cos(yaw), -math.sin(yaw), 0], [math.sin(yaw), math.cos(yaw), 0], [0, 0, 1]])
  M = np.eye(4)
  M[:3, :3], M[:3, 3] = Rz @ Rx, at
  M = M.astype(bdt)
  M64 = M.astype(np.float64)
  cases = [
      ('transform_points_to_box_coord', utils.transform_points_to_box_coord(world, box), [into(np.asarray(q, float) - A) for q in world]),
      ('transform_directions_to_box_coord', utils.transform_directions_to_box_coord(p, box), [into(q) for q in p.astype(float)]),
      ('transform_points_to_box_coord_reverse', utils.transform_points_to_box_coord_reverse(p, box), [np.array(out(q)) + A for q in p.astype(float)]),
      ('rotate_points_along_z', utils.rotate_points_along_z(p, float(box[6])), [out(q) for q in p.astype(float)]),
      ('transform_points_to_frame', utils.transform_points_to_frame(p, M), [M64[:3, :3] @ q + M64[:3, 3] for q in p.astype(float)]),
      ('transform_directions_to_frame', utils.transform_directions_to_frame(p, M), [M64[:3, :3] @ q for q in p.astype(float)]),
  ]
  for name, got, want in cases:
    want = np.array(want, float).reshape(n, 3)
    if got.dtype != dt or got.shape != (n, 3) or (n and np.abs(got.astype(float) - want).max() > tol * (10 + (np.abs(want).max() if not big else 0))):
      c.fail('frames', '%s: %s is %s %s, expected %s' % (what, name, got.dtype, got.tolist(), want.tolist()))
  there = utils.transform_points_to_box_coord_reverse(utils.transform_points_to_box_coord(world, box), box)
  if n and np.abs(there.astype(float) - world.astype(float)).max() > tol * 10 * (1 if big else 1 + np.abs(world).max()):
    c.fail('frames', '%s: %s after going to the box and back, expected %s' % (what, there.tolist(), world.tolist()))
  if not np.array_equal(p, keep[0]) or not np.array_equal(world, keep[1]):
    c.fail('frames', '%s: the points changed' % what)


def fam_views(c):
  k = c.choose(4)
  h, w = 1 + c.choose(3), 1 + c.choose(3)
  if not c.go():
    return
  c.state((k, h, w))
  c.outcome(str(k))
  if k < 3:
    cls, shape = ((object_asset.LidarDistanceImage, [h, w]), (object_asset.CameraRayImage, [h, w, 3]), (object_asset.PointCoordinates, [h * w, 3]))[k]
    v = (np.arange(int(np.prod(shape))) * 0.37 - 1).astype(np.float32)
    x = cls(values=v.tolist(), shape=shape)
    for got in (x.tensor.numpy(), x.numpy):
      if list(got.shape) != shape or not near(got.ravel(), v, 1e-6):
        c.fail('views', '%s of %s: %s' % (cls.__name__, shape, got.tolist()))
    return
  key = base.ObjectAssetKey(segment_context_name='s', frame_timestamp_micros=1, laser_object_id='o', camera_name=2)
  im = [(np.arange(h * w * d) * f % (256 if t == np.uint8 else 65536)).astype(t).reshape(h, w, d) for d, f, t in ((3, 37, np.uint8), (1, 91, np.uint8), (1, 7001, np.uint16), (1, 53, np.uint8), (1, 255, np.uint8))]
  png = [tf.io.encode_png(tf.constant(x)).numpy() for x in im]
  cam = object_asset.ObjectAssetCameraSensorComponent(key=key, rgb_image=png[0], proj_points_mask=png[4])
  lab = object_asset.ObjectAssetAutoLabelComponent(key=key, semantic_mask=png[1], instance_mask=png[2], object_mask=png[3])
  for name, got, want in (('rgb', cam.rgb_image_numpy, im[0]), ('mask', cam.proj_points_mask_numpy, im[4]), ('semantic', lab.semantic_mask_numpy, im[1]), ('instance', lab.instance_mask_numpy, im[2]), ('object', lab.object_mask_numpy, im[3])):
    if got.shape != want.shape or not np.array_equal(got.astype(int), want.astype(int)):
      c.fail('views', '%s of %dx%d: %s, expected %s' % (name, h, w, got.tolist(), want.tolist()))
  v = column_types.Vec3d(x=1.0 + h, y=2.0 * w, z=-3.0)
  s = column_types.Vec3d(x=4.0, y=2.0 + h, z=1.5)
  b = column_types.Box3d(center=v, size=s, heading=0.3 * w)
  for dt in (np.float32, np.float64):
    g = b.numpy(dtype=dt)
    if g.dtype != dt or not near(g, [1.0 + h, 2.0 * w, -3.0, 4.0, 2.0 + h, 1.5, 0.3 * w], 1e-6):
      c.fail('views', 'box %s as %s' % (b, g.tolist()))
  if not near(v.numpy, [1.0 + h, 2.0 * w, -3.0]):
    c.fail('views', 'vector %s as %s' % (v, v.numpy.tolist()))


def fam_large(c):
  """Images, rays and points of real size."""
  h, w = c.pick([(64, 85), (33, 300), (257, 130), (512, 40)] + ([(640, 960)] if m.thorough() else []))
  d = c.pick([1, 3, 6])
  tile = c.pick([7, 8, 16])
  k = c.pick([1, 20, 32])
  salt = c.choose(2)
  if not c.go():
    return
  what = '%dx%dx%d in tiles of %d, %d components' % (h, w, d, tile, k)
  c.state((h, w, d, tile, k, salt))
  c.sample(lambda: what)
  c.outcome('tiles of %d' % tile)
  a = grid(h, w, d, salt)
  ny, nx = -(-h // tile), -(-w // tile)
  n = tile * tile * d

  def cut(x):
    p = x[[reflect(i, h) for i in range(ny * tile)]][:, [reflect(i, w) for i in range(nx * tile)]]
    return p.reshape(ny, tile, nx, tile, d).transpose(0, 2, 1, 3, 4).reshape(ny * nx, n)

  def join(x):
    return x.reshape(ny, nx, tile, tile, d).transpose(0, 2, 1, 3, 4).reshape(ny * tile, nx * tile, d)[:h, :w]
  t = tiling.extract_tiles(tf.constant(a), tile)
  if not np.array_equal(t.numpy(), cut(a)):
    return c.fail('tiles', what + ': other tiles')
  if not np.array_equal(tiling.combine_tiles(t, orig_height=h, orig_width=w, tile_size=tile).numpy(), a):
    return c.fail('tiles', what + ': not the same after extracting and combining')
  t2 = (np.arange(ny * nx * n) % 8191).astype(np.float32).reshape(ny * nx, n)
  if not np.array_equal(tiling.combine_tiles(tf.constant(t2), orig_height=h, orig_width=w, tile_size=tile).numpy(), join(t2)):
    return c.fail('tiles', what + ': tiles in other places')
  k = min(k, n)
  if k == 20 or n > 900:
    return
  cfg = config(tile, d, k, 1, .05)
  codec = pca_codec.Codec(pca_codec.CodecConfig.from_json(cfg.to_json()))
  code = codec.encode(tf.constant(a))
  c.step()
  ref = code.reference.numpy().astype(np.float64)
  if not near(ref, a.astype(np.float64).mean((0, 1)), 1e-4):
    return c.fail('codec', '%s: reference %s' % (what, ref.tolist()))
  mean, std, ev, st = (np.array(x) for x in (cfg.pca.mean, cfg.pca.std, cfg.pca.eigen_vectors, cfg.quantization))
  want = ((cut(a.astype(np.float64) - ref) - mean) / std) @ ev.T / st
  qv = code.quantized_values.numpy()
  if qv.shape != want.shape or np.abs(qv - want).max() > .5 + 1e-4 * (1 + np.abs(want).max()):
    return c.fail('codec', '%s: other codes' % what)
  if not near(codec.decode(code).numpy(), join((qv * st) @ ev * std + mean) + ref, 1e-4):
    c.fail('codec', '%s: decodes to something else' % what)


def fam_many_rays(c):
  """Thousands of rays and points in one call; one box each way."""
  n = c.pick([400, 5000])
  size = c.pick([(4.0, 2.0, 1.5), (1.0, 1.0, 1.0), (0.5, 6.0, 3.0)])
  dt = c.pick([np.float32, np.float64])
  near_ = c.pick([1.0, 6.0])
  yaw = c.pick([0.3, -2.9])
  if not c.go():
    return
  i = np.arange(n, dtype=np.float64)
  O = np.stack([np.sin(i * 1.31) * 4, np.cos(i * .77) * 4 - .1, np.sin(i * .53 + 1) * 2], 1) * near_ / 3
  D = np.stack([np.cos(i * 2.1), np.sin(i * 2.9), np.cos(i * .61 + 2) * .5], 1)
  D /= np.linalg.norm(D, axis=1, keepdims=True)
  D[::3] = -O[::3] / np.linalg.norm(O[::3], axis=1, keepdims=True)     # a third of them towards the middle
  O, D, S = O.astype(dt), D.astype(dt), np.array(size, dt)
  what = '%d rays around %s, distance %g, %s' % (n, size, near_, dt.__name__)
  c.state((n, size, near_, dt.__name__, yaw))
  c.sample(lambda: what)
  flag, lo, hi = utils.get_ray_box_intersects(O, D, S)
  c.step()
  hits = 0
  for j in range(n):
    h, a, b = ref_ray(O[j].astype(float), D[j].astype(float), S.astype(float))
    if h is None or (h and b - a < 1e-3) or (a is not None and (abs(a - b) < 1e-3 or abs(b) < 1e-3)):
      continue
    hits += h
    if bool(flag[j]) != h:
      return c.fail('ray', '%s: ray %d hit %s, expected %s' % (what, j, flag[j], h))
    if h and (abs(lo[j] - a) > 1e-3 * (1 + abs(a)) or abs(hi[j] - b) > 1e-3 * (1 + abs(b))):
      return c.fail('ray', '%s: ray %d distances %s %s, expected %s %s' % (what, j, lo[j], hi[j], a, b))
    if not h and (lo[j] >= 0 or hi[j] >= 0):
      return c.fail('ray', '%s: ray %d misses with distances %s %s' % (what, j, lo[j], hi[j]))
  c.outcome('some hit' if hits else 'none hits')
  box = np.array([30., -20., 1., *size, yaw], dt)
  p = (O * 5 + np.array([30, -20, 1])).astype(dt)
  ch, sh = math.cos(float(box[6])), math.sin(float(box[6]))
  q = p.astype(float) - [30, -20, 1]
  want = np.stack([ch * q[:, 0] + sh * q[:, 1], -sh * q[:, 0] + ch * q[:, 1], q[:, 2]], 1)
  got = utils.transform_points_to_box_coord(p, box)
  if got.shape != (n, 3) or np.abs(got - want).max() > 1e-3:
    return c.fail('frames', what + ': other points in the box frame')
  back = utils.transform_points_to_box_coord_reverse(got, box)
  if np.abs(back.astype(float) - p).max() > 1e-3:
    c.fail('frames', what + ': not the same points after going to the box and back')


m = mcpy.Main()
m.family('large', 'four (thorough five) image sizes from 64x85 to 512x40 (640x960) x 1 / 3 / 6 channels x tiles of 7 / 8 / 16 x components', fam_large)
m.family('many-rays', '400 / 5000 rays and points in one call x boxes x distances', fam_many_rays)
m.family('tiles', 'all small grids and tile sizes', fam_tiles)
m.family('codec', 'grids, bases, numbers of components, steps, overflow', fam_codec)
m.family('rays-codec', 'ray components through the codec', fam_rays_codec)
m.family('fit', 'fitted parameters', fam_fit)
m.family('ray-box', 'rays from and to everywhere around a box, along axes too', fam_ray_box)
m.family('frames', 'points and directions between frames and boxes', fam_frames)
m.family('views', 'arrays and images of components', fam_views)
raise SystemExit(m.run())

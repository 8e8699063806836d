"""C24: lidar range images and point clouds: every path agrees with exact geometry."""
import itertools
import math
import os
import sys
import zlib

import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcpy
import tensorflow as tf
from waymo_open_dataset import dataset_pb2
from waymo_open_dataset.protos import compressed_lidar_pb2
from waymo_open_dataset.utils import frame_utils
from waymo_open_dataset.utils import range_image_utils as riu
from waymo_open_dataset.utils import transform_utils
from waymo_open_dataset.utils import womd_lidar_utils
from waymo_open_dataset.utils.compression import delta_encoder
from waymo_open_dataset.v2.perception.compat_v1 import context as v2_context
from waymo_open_dataset.v2.perception.compat_v1 import interfaces
from waymo_open_dataset.v2.perception.compat_v1 import lidar as v2_lidar
from waymo_open_dataset.v2.perception.compat_v1 import pose as v2_pose
from waymo_open_dataset.v2.perception.utils import lidar_utils

PI = math.pi


# ------------------------------------------------------------------ reference
def rx(a):
  return np.array([[1, 0, 0], [0, math.cos(a), -math.sin(a)], [0, math.sin(a), math.cos(a)]])


def ry(a):
  return np.array([[math.cos(a), 0, math.sin(a)], [0, 1, 0], [-math.sin(a), 0, math.cos(a)]])


def rz(a):
  return np.array([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1]])


def pose(roll, pitch, yaw, x, y, z):
  t = np.eye(4)
  t[:3, :3] = rz(yaw) @ ry(pitch) @ rx(roll)
  t[:3, 3] = x, y, z
  return t


EXTR = [pose(0, 0, 0, 0, 0, 0), pose(0, 0, 2.5, 1.43, 0.0, 2.18), pose(0.3, -0.2, -1.9, -1.1, 2.0, 0.9),
        pose(0.05, 0.7, PI, 4.0, -1.0, 0.7), pose(-0.1, 0.02, 0.4, 0, 0, 1.0)]
PIX = [(0.01, -0.02, 0.5, 20.0, -31.0, 2.0), (0.0, 0.0, 0.0, 0.0, 0.0, 0.0), (0.3, 0.2, -2.8, -5.5, 8.0, -1.0),
       (-0.4, 0.1, 1.1, 21.0, -30.5, 2.5)]


def incl_of(height, kind):
  """Row inclinations, row 0 on top (highest)."""
  if kind == 0:
    lo, hi = -0.3, 0.05
    return [hi - (i + 0.5) * (hi - lo) / height for i in range(height)]
  return sorted([0.12 - 0.1 * i - 0.03 * i * i for i in range(height)], reverse=True)


def ref_cart(ri, extr, incl, pix=None, frame=None):
  h, w = ri.shape
  corr = math.atan2(extr[1, 0], extr[0, 0])
  out = np.zeros((h, w, 3))
  for i in range(h):
    for j in range(w):
      az = PI - (j + 0.5) * 2 * PI / w - corr
      r = ri[i, j]
      p = np.array([math.cos(az) * math.cos(incl[i]) * r, math.sin(az) * math.cos(incl[i]) * r, math.sin(incl[i]) * r, 1.0])
      p = extr @ p
      if pix is not None:
        p = np.linalg.inv(frame) @ (pix[i][j] @ p)
      out[i, j] = p[:3]
  return out


def near(a, b, tol=2e-3):
  a, b = np.asarray(a, float), np.asarray(b, float)
  return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + 0.02 * np.abs(b))))


RANGES = [0.0, 7.5, 33.25, 1.0, -1.0, 74.0]


# ------------------------------------------------------------- transform matrices
def fam_transform(c):
  ang = [0.0, 0.4, -1.2, PI / 2, PI, 2.9]
  r, p, y = c.pick(ang), c.pick(ang), c.pick(ang)
  shape = c.choose(3)
  if not c.go():
    return
  f = [lambda v: tf.constant(v), lambda v: tf.constant([v, 0.25]), lambda v: tf.constant([[v], [0.5]])][shape]
  got = transform_utils.get_rotation_matrix(f(r), f(p), f(y)).numpy().reshape(-1, 3, 3)
  other = [None, 0.25, 0.5][shape]
  want = [rz(y) @ ry(p) @ rx(r)] + ([rz(other) @ ry(other) @ rx(other)] if other else [])
  c.state((r, p, y, shape))
  c.sample(lambda: 'rotation %s' % ((r, p, y),))
  c.outcome('rotation')
  if not near(got, want, 1e-5):
    c.fail('rotation', 'roll %g pitch %g yaw %g: %s, expected %s' % (r, p, y, got.tolist(), want))
  yaw = transform_utils.get_yaw_rotation(f(y)).numpy().reshape(-1, 3, 3)
  yaw2 = transform_utils.get_yaw_rotation_2d(f(y)).numpy().reshape(-1, 2, 2)
  wy = [rz(y)] + ([rz(other)] if other else [])
  if not near(yaw, wy, 1e-5) or not near(yaw2, [w[:2, :2] for w in wy], 1e-5):
    c.fail('yaw', 'yaw %g: %s' % (y, yaw.tolist()))
  for rot, n in ((got, 3), (yaw2, 2)):
    t = np.arange(1, n + 1, dtype=np.float32) * (r + 1)
    t = np.stack([t] * len(rot))
    tr = transform_utils.get_transform(tf.constant(rot.astype(np.float32)), tf.constant(t)).numpy()
    exp = np.zeros((len(rot), n + 1, n + 1))
    exp[:, :n, :n], exp[:, :n, n], exp[:, n, n] = rot, t, 1
    if not near(tr, exp, 1e-6):
      c.fail('transform', 'transform of %s and %s: %s' % (rot.tolist(), t.tolist(), tr.tolist()))


# -------------------------------------------------------------------- extraction
def fam_extract(c):
  b, h, w = c.pick([(1, 1, 1), (1, 2, 3), (1, 3, 2), (2, 2, 4), (1, 1, 7)])
  e = [c.choose(len(EXTR)) for _ in range(b)]
  ik = c.choose(2)
  mode = c.choose(3)
  base = c.choose(len(RANGES))
  dt = c.choose(2)
  if not c.go():
    return
  ri = np.array([RANGES[(base + i * (1 + i // 3)) % len(RANGES)] for i in range(b * h * w)], np.float32).reshape(b, h, w)
  extr = np.stack([EXTR[i] for i in e])
  incl = np.stack([incl_of(h, (ik + i) % 2) for i in range(b)])
  pix6 = np.array([PIX[(base + i) % len(PIX)] for i in range(b * h * w)]).reshape(b, h, w, 6)
  pixm = np.array([[[pose(*pix6[x, i, j]) for j in range(w)] for i in range(h)] for x in range(b)])
  frame = np.stack([pose(*PIX[(base + x) % 4]) for x in range(b)])
  kw = {}
  f = tf.constant if dt == 0 else (lambda v: tf.constant(v, dtype=tf.float64))
  g = lambda v: tf.constant(v.astype(np.float32)) if dt == 0 else tf.constant(v)
  if mode:
    kw = dict(pixel_pose=g(pixm), frame_pose=g(frame))
  if dt:
    kw['dtype'] = tf.float64
  want = np.stack([ref_cart(ri[x], extr[x], incl[x], pixm[x] if mode else None, frame[x]) for x in range(b)])
  what = 'extrinsics %s inclinations %d ranges %s pose %d type %d' % (e, ik, ri.tolist(), mode, dt)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('extract pose %d' % mode)
  if mode == 2:
    polar = riu.compute_range_image_polar(tf.constant(ri), g(extr), g(incl), **({'dtype': tf.float64} if dt else {}))
    got = riu.compute_range_image_cartesian(polar, g(extr), **kw)
    wantp = np.zeros((b, h, w, 3))
    for x in range(b):
      corr = math.atan2(extr[x][1, 0], extr[x][0, 0])
      for i in range(h):
        for j in range(w):
          wantp[x, i, j] = PI - (j + 0.5) * 2 * PI / w - corr, incl[x][i], ri[x, i, j]
    if not near(polar.numpy(), wantp, 1e-4):
      c.fail('polar', '%s: polar %s, expected %s' % (what, polar.numpy().tolist(), wantp.tolist()))
  else:
    got = riu.extract_point_cloud_from_range_image(tf.constant(ri), g(extr), g(incl), **kw)
  if not near(got.numpy(), want):
    c.fail('extract', '%s: %s, expected %s' % (what, got.numpy().tolist(), want.tolist()))
  if mode == 1:
    try:
      kw.pop('frame_pose')
      riu.extract_point_cloud_from_range_image(tf.constant(ri), g(extr), g(incl), **kw)
      c.fail('frame-pose', what + ': pixel poses without a frame pose are accepted')
    except ValueError:
      pass


# ----------------------------------------------------------- building range images
Q = 0.00585532144


def fam_build(c):
  n = c.choose(4)
  h, w = c.pick([(1, 1), (2, 1), (1, 2), (2, 3), (3, 4), (2, 5), (2, 8)])
  e = c.choose(len(EXTR))
  ik = c.choose(2)
  dirs = [PI, -PI, -PI + 1e-8, PI - 1e-7, 0.0, 0.9, -2.2, PI / 2]
  pts = [(c.pick(dirs if n < 3 else dirs[1:7:2]), c.choose(2) if n < 3 else i % 2, c.choose(2)) for i in range(n)]
  feat = c.choose(2)
  pad = c.choose(2)
  batch = c.choose(2) if n == 1 else 0
  if not m.thorough() and n == 2 and (feat != pad or ik != e % 2 or pts[1][0] in dirs[::2]):
    return
  if (n == 3 and (h, w) not in ((2, 3), (2, 8))) or (n == 0 and not pad) or not c.go():
    return
  incl = incl_of(h, ik)
  extr = EXTR[e]
  inv = np.linalg.inv(extr)
  corr = math.atan2(extr[1, 0], extr[0, 0])
  P, F = [], []
  for i, (az, row, far) in enumerate(pts):
    a, r, inc = az - corr, [5.0, 60.0][far], incl[min(row, h - 1)] + 0.004
    s = np.array([math.cos(a) * math.cos(inc) * r, math.sin(a) * math.cos(inc) * r, math.sin(inc) * r, 1])
    if e == 0 and az in (PI, -PI, -PI + 1e-8):
      s[1] = {PI: 0.0, -PI: -0.0}.get(az, -1e-7)
    P.append((extr @ s)[:3] if e else s[:3])
    F.append((1.5 + i, 0.25 * i))
  for i in range(2 * pad):
    P.append((0.25, 0.5, 0.1))
    F.append((9, 1))
  P, F = np.array(P, np.float32).reshape(1, -1, 3), np.array(F, np.float32).reshape(1, -1, 2)
  nb = 1
  counts = [n]
  if batch:
    P, F, nb, counts = np.concatenate([P, P]), np.concatenate([F, F]), 2, [n, 0]
  tile = lambda v: tf.constant(np.stack([np.asarray(v, np.float32)] * nb))
  what = '%dx%d image extrinsic %d inclinations %d points %s features %d padding %d batch %d' % (h, w, e, ik, pts, feat, pad, batch)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%d points' % n)
  img, idx, rng = riu.build_range_image_from_point_cloud(tf.constant(P), tf.constant(counts, dtype=tf.int32), tile(extr), tile(incl), [h, w], **({'point_features': tf.constant(F)} if feat else {}))
  img, idx, rng = img.numpy(), idx.numpy(), rng.numpy()
  if img.shape != ((nb, h, w, 3) if feat else (nb, h, w)) or idx.shape != (nb, P.shape[1], 2) or rng.shape != (nb, P.shape[1]):
    return c.fail('shape', '%s: shapes %s %s %s' % (what, img.shape, idx.shape, rng.shape))
  for x in range(nb):
    cells = {}
    for i in range(counts[x]):
      s = inv @ np.append(P[x, i].astype(float), 1)
      r = math.sqrt(s[0]**2 + s[1]**2 + s[2]**2)
      if abs(r - rng[x, i]) > 1e-4 * (1 + r):
        c.fail('range', '%s: point %d has range %g, expected %g' % (what, i, rng[x, i], r))
      inc = math.atan2(s[2], math.hypot(s[0], s[1]))
      best = min(abs(inc - q) for q in incl)
      row, col = int(idx[x, i, 0]), int(idx[x, i, 1])
      if not 0 <= row < h or abs(inc - incl[row]) > best + 2e-6:
        c.fail('row', '%s: point %d in row %d' % (what, i, row))
      f = (PI - (math.atan2(s[1], s[0]) + corr)) / (2 * PI) * w
      d = abs((f - (col + 0.5) + w / 2) % w - w / 2)
      if not 0 <= col < w or d > 0.5 + 1e-4 * w:
        c.fail('column', '%s: point %d in column %d, position %g' % (what, i, col, f))
      cells.setdefault((row, col), []).append(i)
    for i in range(h):
      for j in range(w):
        inside = cells.get((i, j), [])
        if not inside:
          ok = not np.any(img[x, i, j])
        elif not feat:
          ok = abs(img[x, i, j] - min(rng[x, k] for k in inside)) < 1e-4
        else:
          r0 = min(rng[x, k] for k in inside)
          ok = -1e-4 <= r0 - img[x, i, j, 0] <= Q + 1e-4 and any(
              abs(img[x, i, j, 1] - F[x, k, 0]) <= F[x, k, 0] / 128 and -1e-4 <= F[x, k, 1] - img[x, i, j, 2] <= Q + 1e-4
              for k in inside if rng[x, k] <= r0 + Q + 1e-4)
        if not ok:
          c.fail('image', '%s: pixel %d %d is %s, points there %s' % (what, i, j, img[x, i, j].tolist(), [(float(rng[x, k]), F[x, k].tolist()) for k in inside]))


def fam_inverse(c):
  h, w = c.pick([(1, 3), (2, 2), (2, 4), (3, 5), (1, 6), (2, 7)])
  e = c.choose(len(EXTR))
  ik = c.choose(2)
  base = c.choose(4)
  feat = c.flip()
  if not c.go():
    return
  ri = np.array([[3.0 + ((i * w + j) * (base + 1) * 3.7) % 60 for j in range(w)] for i in range(h)], np.float32)
  incl, extr = incl_of(h, ik), EXTR[e]
  pts = riu.extract_point_cloud_from_range_image(tf.constant(ri[None]), tf.constant(extr[None].astype(np.float32)), tf.constant(np.array([incl], np.float32)))
  flat = tf.reshape(pts, [1, h * w, 3])
  f = np.stack([ri.reshape(-1) / 100, ri.reshape(-1) / 80], -1)[None].astype(np.float32)
  img, idx, _ = riu.build_range_image_from_point_cloud(flat, tf.constant([h * w]), tf.constant(extr[None].astype(np.float32)), tf.constant(np.array([incl], np.float32)), [h, w], **({'point_features': tf.constant(f)} if feat else {}))
  what = 'image %s extrinsic %d inclinations %d features %s' % (ri.tolist(), e, ik, feat)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('inverse')
  want = np.array([[i, j] for i in range(h) for j in range(w)])
  if not np.array_equal(idx.numpy()[0], want):
    return c.fail('inverse', '%s: points come back at %s' % (what, idx.numpy()[0].tolist()))
  got = img.numpy()[0]
  if feat:
    ok = np.all(np.abs(got[..., 0] - ri) < Q + 1e-3) and np.all(np.abs(got[..., 1] - ri / 100) <= ri / 100 / 128) and np.all(np.abs(got[..., 2] - ri / 80) < Q + 1e-4)
  else:
    ok = near(got, ri)
  if not ok:
    c.fail('inverse', '%s: rebuilt image %s' % (what, got.tolist()))


def fam_large(c):
  """Images of real size, extracted, rebuilt from shuffled points with farther points beside them."""
  h, w = c.pick([(64, 2650), (200, 600), (5, 3601), (300, 7)])
  e = c.choose(len(EXTR))
  mode = c.choose(3)                 # no pixel poses; pixel poses; rebuild
  feat = c.flip() if mode == 2 else False
  base = c.choose(3 if m.thorough() else 2)
  if not m.thorough() and (e + mode + feat + base + h) % 2:
    return
  if not c.go():
    return
  c.step()
  what = '%dx%d image extrinsic %d mode %d features %s base %d' % (h, w, e, mode, feat, base)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%dx%d' % (h, w))
  extr = EXTR[e]
  incl = np.array([0.06 - 0.3 * (i + 0.5) / h - 0.2 * ((i + 0.5) / h)**2 for i in range(h)])
  i, j = np.meshgrid(np.arange(h), np.arange(w), indexing='ij')
  ri = (3.0 + ((i * 31 + j * (2 * base + 1)) * 3.7) % 60).astype(np.float32)
  if mode < 2:
    ri[(i + j) % 13 == base] = 0
    ri[(i * j) % 29 == 3] = -1.0
  az = PI - (j + 0.5) * 2 * PI / w - math.atan2(extr[1, 0], extr[0, 0])
  inc = incl[i]
  r = ri.astype(float)
  want = np.stack([np.cos(az) * np.cos(inc) * r, np.sin(az) * np.cos(inc) * r, np.sin(inc) * r], -1) @ extr[:3, :3].T + extr[:3, 3]
  t = lambda v: tf.constant(np.asarray(v, np.float32)[None])
  kw = {}
  if mode == 1:
    poses = np.array([pose(*[a * (1 + 0.01 * (k % 5)) for a in PIX[base]]) for k in range(h)])
    frame = pose(*PIX[(base + 1) % 4])
    pp = np.broadcast_to(poses[:, None], (h, w, 4, 4))
    want = np.einsum('hij,hwj->hwi', poses[:, :3, :3], want) + poses[:, None, :3, 3]
    inv = np.linalg.inv(frame)
    want = want @ inv[:3, :3].T + inv[:3, 3]
    kw = dict(pixel_pose=t(pp), frame_pose=t(frame))
  got = riu.extract_point_cloud_from_range_image(t(ri), t(extr), t(incl), **kw).numpy()[0]
  if not near(got, want):
    bad = np.argwhere(np.abs(got - want).max(-1) > 2e-3 * (1 + 0.02 * np.abs(want).max(-1)))[:1].tolist() if got.shape == want.shape else got.shape
    return c.fail('extract', '%s: wrong points, first at pixel %s' % (what, bad))
  if mode < 2:
    return
  n = h * w
  pts = want.reshape(n, 3)
  far = (pts - extr[:3, 3]) * 1.5 + extr[:3, 3]
  pts = np.concatenate([pts, far[::3]])
  order = np.argsort((np.arange(len(pts)) * 7919) % 1000003, kind='stable')
  pix = np.concatenate([np.stack([i.reshape(-1), j.reshape(-1)], -1), np.stack([i.reshape(-1), j.reshape(-1)], -1)[::3]])[order]
  rr = np.concatenate([r.reshape(-1), 1.5 * r.reshape(-1)[::3]])[order]
  F = np.stack([rr / 100, rr % 1.3], -1)
  img, idx, rng = riu.build_range_image_from_point_cloud(t(pts[order]), tf.constant([len(pts)], dtype=tf.int32), t(extr), t(incl), [h, w], **({'point_features': t(F)} if feat else {}))
  if not np.array_equal(idx.numpy()[0], pix):
    k = int(np.argmax((idx.numpy()[0] != pix).any(-1)))
    return c.fail('inverse', '%s: a point of pixel %s comes back at %s' % (what, pix[k].tolist(), idx.numpy()[0][k].tolist()))
  if not near(rng.numpy()[0], rr):
    c.fail('range', '%s: ranges differ' % what)
  g = img.numpy()[0]
  if feat:
    ok = np.all(np.abs(g[..., 0] - r) < Q + 1e-3) and np.all(np.abs(g[..., 1] - r / 100) <= r / 100 / 128) and np.all(np.abs(g[..., 2] - r % 1.3) < Q + 1e-3)
  else:
    ok = near(g, r)
  if not ok:
    c.fail('inverse', '%s: the rebuilt image differs' % what)


def fam_features(c):
  """Encoding of (range, intensity, elongation): precision and order."""
  kind = c.choose(3)
  block = c.choose(64)
  if not c.go():
    return
  k = np.arange(block * 1024, (block + 1) * 1024)
  r = (k * Q + 0.001).astype(np.float32) if kind == 0 else np.full(1024, 20.0 + block, np.float32)
  if kind == 1:
    bits = (k.astype(np.uint32) << 16) | np.uint32(0x1234)
    bits = np.where((bits & 0x7f800000) == 0x7f800000, np.uint32(0x3f800000), bits)   # no inf / nan
    inten = np.abs(bits.astype(np.uint32).view(np.float32))
  else:
    inten = np.linspace(0, 3, 1024, dtype=np.float32)
  elong = ((k % 256) * Q + 0.002).astype(np.float32) if kind == 2 else np.linspace(0, 1.4, 1024, dtype=np.float32)
  elong = np.minimum(elong, 255 * Q)
  r = np.minimum(r, 65535 * Q)
  x = np.stack([r, inten, elong], -1)
  enc = riu.encode_lidar_features(tf.constant(x)).numpy()
  dec = riu.decode_lidar_features(tf.constant(enc)).numpy()
  c.state((kind, block))
  c.sample(lambda: 'features %d block %d' % (kind, block))
  c.outcome('features %d' % kind)
  if not (np.all(np.abs(dec[:, 0] - r) <= Q * 1.001 + 1e-4) and np.all(np.abs(dec[:, 2] - elong) <= Q * 1.001 + 1e-4) and np.all(np.abs(dec[:, 1] - inten) <= inten / 127.9 + 1e-38)):
    bad = int(np.argmax(np.abs(dec - x).max(-1)))
    c.fail('precision', '%s decodes as %s' % (x[bad].tolist(), dec[bad].tolist()))
  o = np.argsort(r, kind='stable')
  rr, ee = r[o], enc[o]
  for ch in range(3):
    step = np.nonzero(rr[1:] - rr[:-1] > Q * 1.01)[0]
    if np.any(ee[1:, ch][step] <= ee[:-1, ch][step]):
      c.fail('order', 'channel %d of the encoded features is not ordered by range (kind %d block %d)' % (ch, kind, block))


def fam_scatter(c):
  n = c.choose(4)
  idx = [(c.choose(2), c.choose(3)) for _ in range(n)]
  two = c.flip()
  pool = c.choose(2)
  vs = [c.pick([-2.5, 3.0, 7.0]) for _ in range(n)]
  if n == 0 or not c.go():
    return
  val = np.array([[v, -v] if two else v for v in vs], np.float32)
  got = riu.scatter_nd_with_pool(tf.constant(np.array(idx, np.int32)), tf.constant(val), [2, 3], **({'pool_method': tf.math.unsorted_segment_min} if pool else {})).numpy()
  want = np.zeros((2, 3) + ((2,) if two else ()), np.float32)
  for cell in set(idx):
    want[cell] = (np.min if pool else np.max)([val[i] for i in range(n) if idx[i] == cell], axis=0)
  what = 'scatter %s at %s pool %d' % (val.tolist(), idx, pool)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('scatter')
  if not near(got, want, 1e-6):
    c.fail('scatter', '%s: %s, expected %s' % (what, got.tolist(), want.tolist()))


def fam_depth(c):
  b = 1 + c.choose(2)
  e = [c.choose(3) for _ in range(b)]
  cam = 1 + c.choose(3)
  n = 3
  proj = [[c.pick([(0, 0, 0, 0, 0, 0), (1, 0, 1, 0, 0, 0), (2, 1, 1, 1, 2, 0), (1, 2, 0, 1, 0, 0), (3, 0, 1, 1, 0, 1)]) for _ in range(n)] for _ in range(b if b == 1 else 1)]
  if not c.go():
    return
  if b == 2:
    proj.append(list(reversed(proj[0])))
  pts = np.array([[[[3.0 + i + 5 * x, -2.0 + i * i, 0.5 * i + x] for i in range(n)]] for x in range(b)])
  cp = np.array([[p] for p in proj], np.int32)
  extr = np.stack([EXTR[i] for i in e])
  got = riu.build_camera_depth_image(tf.constant(pts.astype(np.float32)), tf.constant(extr.astype(np.float32)), tf.constant(cp), [2, 3], cam).numpy()
  want = np.zeros((b, 2, 3))
  for x in range(b):
    for i in range(n):
      p = proj[x][i]
      at = (p[2], p[1]) if p[0] == cam else (p[5], p[4]) if p[3] == cam else None
      if at:
        d = np.linalg.norm((np.linalg.inv(extr[x]) @ np.append(pts[x, 0, i], 1))[:3])
        want[x][at] = d if want[x][at] == 0 else min(d, want[x][at])
  what = 'camera %d extrinsics %s projections %s' % (cam, e, proj)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%d depths' % np.count_nonzero(want))
  if not near(got, want):
    c.fail('depth', '%s: depth image %s, expected %s' % (what, got.tolist(), want.tolist()))


def fam_crop(c):
  b, w = 1 + c.choose(2), 1 + c.choose(6)
  nw = c.choose(7)
  shift = c.pick([None, 'list'])
  sh = [c.choose(5) - 2 for _ in range(b)] if shift else [0] * b
  rank = c.choose(2)
  if not c.go():
    return
  x = np.arange(b * 2 * w * (3 if rank else 1)).reshape((b, 2, w) + ((3,) if rank else ()))
  what = 'crop %s to %d shift %s' % (x.shape, nw, sh if shift else None)
  c.state(what)
  c.sample(lambda: what)
  left = [(w - nw) // 2 + s for s in sh]
  legal = nw == w or (1 <= nw < w and all(0 <= l and l + nw <= w for l in left))
  c.outcome('legal' if legal else 'refused')
  try:
    got = riu.crop_range_image(tf.constant(x), nw, sh if shift else None).numpy()
  except ValueError:
    if legal:
      c.fail('crop', what + ': refused')
    return
  if not legal:
    return c.fail('crop', what + ': accepted')
  want = x if nw == w else np.stack([x[i, :, left[i]:left[i] + nw] for i in range(b)])
  if not np.array_equal(got, want):
    c.fail('crop', '%s: %s' % (what, got.tolist()))


# ----------------------------------------------------------------------- frames
def matrix(cls, a):
  r = cls()
  r.data.extend(a.reshape(-1).tolist())
  r.shape.dims.extend(a.shape)
  return zlib.compress(r.SerializeToString())


def frame_of(c, lasers, size, kind, seg):
  """A frame with the given lasers: contents decided by kind; returns truth per laser."""
  f = dataset_pb2.Frame()
  f.context.name = 's'
  f.timestamp_micros = 77
  fp = pose(*PIX[kind % 4])
  f.pose.transform.extend(fp.reshape(-1))
  truth = {}
  for n, (name, uniform, miss) in enumerate(lasers):
    h, w = size if n == 0 else (size[1], size[0])
    rets = []
    for r in range(2):
      a = np.zeros((h, w, 4), np.float32)
      cp = np.zeros((h, w, 6), np.int32)
      for i in range(h):
        for j in range(w):
          k = i * w + j
          gone = (miss >> ((k + 2 * r) % 4)) & 1
          a[i, j] = [-1.0 if (k + r) % 2 else 0.0, -1, -1, 0] if gone else [4 + 3 * k + 10 * r + 20 * n, 0.25 * k + r, 0.125 * k, k % 2]
          cp[i, j] = [1 + k % 5, 100 * n + k, 10 * r + k, (k + 1) % 6, k, 7 * k]
      rets.append((a, cp, np.stack([cp[..., 1], cp[..., 2] % 23], -1)))
    pix = np.array([[PIX[(kind + i * w + j) % 4] for j in range(w)] for i in range(h)], np.float32)
    z = f.lasers.add()
    z.name = name
    for ret, (a, cp, sg) in zip((z.ri_return1, z.ri_return2), rets):
      ret.range_image_compressed = matrix(dataset_pb2.MatrixFloat, a)
      ret.camera_projection_compressed = matrix(dataset_pb2.MatrixInt32, cp)
      if name == 1 and seg:
        ret.segmentation_label_compressed = matrix(dataset_pb2.MatrixInt32, sg)
    if name == 1:
      z.ri_return1.range_image_pose_compressed = matrix(dataset_pb2.MatrixFloat, pix)
    k = dataset_pb2.LaserCalibration()
    k.name = name
    e = EXTR[(kind + n) % len(EXTR)]
    k.extrinsic.transform.extend(e.reshape(-1))
    incl = incl_of(h, 0 if uniform else 1)
    k.beam_inclination_min, k.beam_inclination_max = -0.3, 0.05
    if not uniform:
      k.beam_inclinations.extend(incl[::-1])
    pm = [[pose(*pix[i, j]) for j in range(w)] for i in range(h)] if name == 1 else None
    cart = [ref_cart(a[..., 0], e, incl, pm, fp) for a, _, _ in rets]
    truth[name] = dict(rets=rets, cart=cart, laser=z, calib=k, pix=pix, incl=incl, pm=pm, frame=fp)
  return f, truth


LAYOUT = [[1], [1, 3], [4, 1], [1, 5, 2], [5, 2, 1, 3]]


def pick_frame(c):
  names = c.pick(LAYOUT)
  rev = c.flip() if len(names) > 1 else False
  uni = c.choose(2)
  miss = c.choose(16)
  size = c.pick([(2, 3), (1, 4), (3, 2)])
  kind = c.choose(5)
  return names, rev, uni, miss, size, kind


def make_frame(c, names, rev, uni, miss, size, kind, seg):
  f, truth = frame_of(c, [(n, (uni + i) % 2 == 0, (miss * (i + 1)) % 16) for i, n in enumerate(names)], size, kind, seg)
  ks = [truth[n]['calib'] for n in names]
  for k in (ks[::-1] if rev else ks):
    f.context.laser_calibrations.add().CopyFrom(k)
  return f, truth


def fam_frame(c):
  names, rev, uni, miss, size, kind = pick_frame(c)
  if (size != (2, 3) and kind > 1) or not c.go():
    return
  seg = miss % 2 == 0
  f, truth = make_frame(c, names, rev, uni, miss, size, kind, seg)
  what = 'lasers %s reversed calibrations %s uniform %d missing %d size %s kind %d' % (names, rev, uni, miss, size, kind)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%d lasers' % len(names))
  before = f.SerializeToString()
  ris, cps, segs, tp = frame_utils.parse_range_image_and_camera_projection(f)
  if set(ris) != set(names) or set(cps) != set(names) or set(segs) != ({1} if seg else set()):
    return c.fail('parse', '%s: parsed %s %s %s' % (what, sorted(ris), sorted(cps), sorted(segs)))
  for n in names:
    for r in range(2):
      a, cp, sg = truth[n]['rets'][r]
      if not near(np.array(ris[n][r].data).reshape(list(ris[n][r].shape.dims)), a, 1e-6) or not np.array_equal(np.array(cps[n][r].data).reshape(list(cps[n][r].shape.dims)), cp):
        c.fail('parse', '%s: laser %d return %d differs' % (what, n, r + 1))
      if n == 1 and seg and not np.array_equal(np.array(segs[1][r].data).reshape(list(segs[1][r].shape.dims)), sg):
        c.fail('parse', '%s: segmentation of return %d differs' % (what, r + 1))
  if not near(np.array(tp.data).reshape(list(tp.shape.dims)), truth[1]['pix'], 1e-5):
    c.fail('parse', what + ': pixel poses differ')
  srcs = {n: interfaces.LiDARComponentSrc(f, z) for n, z in zip(names, f.lasers)}
  v2 = {n: list(v2_lidar.LiDARComponentExtractor()(s))[0] for n, s in srcs.items()}
  v2cp = {n: list(v2_lidar.LiDARCameraProjectionComponentExtractor()(s))[0] for n, s in srcs.items()}
  v2pose = list(v2_lidar.LiDARPoseComponentExtractor()(srcs[1]))[0].range_image_return1
  v2frame = list(v2_pose.VehiclePoseFrameExtractor()(interfaces.FrameComponentSrc(f)))[0]
  v2cal = {k.name: list(v2_context.LiDARCalibrationComponentExtractor()(interfaces.LiDARCalibrationComponentSrc(f, k)))[0] for k in f.context.laser_calibrations}
  for r in range(2):
    for keep in (False, True):
      img = frame_utils.convert_range_image_to_cartesian(f, ris, tp, r, keep)
      pts, cpp = frame_utils.convert_range_image_to_point_cloud(f, ris, cps, tp, r, keep)
      if set(img) != set(names) or len(pts) != len(names) or len(cpp) != len(names):
        return c.fail('cloud', what + ': wrong set of lasers')
      for at, n in enumerate(sorted(names)):
        a, cp, _ = truth[n]['rets'][r]
        cart = truth[n]['cart'][r]
        full = np.concatenate([a[..., :3], cart], -1) if keep else cart
        mask = a[..., 0] > 0
        tag = '%s: laser %d return %d polar %s: ' % (what, n, r + 1, keep)
        if not near(img[n].numpy(), full):
          c.fail('cartesian', tag + 'image %s, expected %s' % (img[n].numpy().tolist(), full.tolist()))
        if not near(pts[at], full[mask]):
          c.fail('cloud', tag + 'points %s, expected %s' % (pts[at].tolist(), full[mask].tolist()))
        if not np.array_equal(cpp[at], cp[mask]):
          c.fail('cloud', tag + 'projections %s, expected %s' % (cpp[at].tolist(), cp[mask].tolist()))
        # version 2 on the extracted components
        ri2 = v2[n].range_image_returns[r]
        kw = dict(pixel_pose=v2pose, frame_pose=v2frame) if n == 1 else {}
        g = lidar_utils.convert_range_image_to_cartesian(ri2, v2cal[n], keep_polar_features=keep, **kw).numpy()
        if not near(g, full):
          c.fail('v2', tag + 'version 2 image %s, expected %s' % (g.tolist(), full.tolist()))
        g = lidar_utils.convert_range_image_to_point_cloud(ri2, v2cal[n], keep_polar_features=keep, **kw).numpy()
        if not near(g, full[mask]):
          c.fail('v2', tag + 'version 2 points %s, expected %s' % (g.tolist(), full[mask].tolist()))
        g = lidar_utils.extract_pointwise_camera_projection(ri2, v2cp[n].range_image_returns[r]).numpy()
        if not np.array_equal(g, cp[mask]):
          c.fail('v2', tag + 'version 2 projections %s' % g.tolist())
        c.step()
  g = lidar_utils.convert_lidar_pose_range_image_to_transformation(v2pose).numpy()
  if not near(g, np.array(truth[1]['pm'])):
    c.fail('v2', what + ': pixel transforms %s' % g.tolist())
  if f.SerializeToString() != before:
    c.fail('frame', what + ': the frame was changed')


CAMN = {1: 'FRONT', 4: 'SIDE_LEFT'}
LASN = {1: 'TOP', 2: 'FRONT', 3: 'SIDE_LEFT', 4: 'SIDE_RIGHT', 5: 'REAR'}


def fam_dict(c):
  names, rev, uni, miss, size, kind = pick_frame(c)
  cams = c.pick([[], [1], [4, 1]])
  calrev = c.flip() if len(cams) > 1 else False
  if (miss not in (0, 5)) or (size != (2, 3) and kind) or not c.go():
    return
  f, truth = make_frame(c, names, rev, uni, miss, size, kind, True)
  want = {'POSE': np.array(f.pose.transform).reshape(4, 4), 'TIMESTAMP': np.array(77), 'TOP_RANGE_IMAGE_POSE': truth[1]['pix']}
  for n in names:
    t, p = truth[n], LASN[n]
    want[p + '_BEAM_INCLINATION'] = np.array(t['incl'][::-1])
    want[p + '_LIDAR_EXTRINSIC'] = np.array(t['calib'].extrinsic.transform).reshape(4, 4)
    for r, o in enumerate(('FIRST', 'SECOND')):
      want['%s_RANGE_IMAGE_%s_RETURN' % (p, o)] = np.concatenate([t['rets'][r][0][..., :3], t['cart'][r]], -1)
      want['%s_CAM_PROJ_%s_RETURN' % (p, o)] = t['rets'][r][1]
  for i, n in enumerate(cams):
    im = f.images.add()
    im.name = n
    px = (np.arange(2 * 3 * 3) * (i + 3) % 256).astype(np.uint8).reshape(2, 3, 3)
    im.image = tf.io.encode_jpeg(tf.constant(px)).numpy()
    v = [1.5 + i, -2.0, 3.25, 0.125, -0.5, 0.75 + i]
    im.velocity.v_x, im.velocity.v_y, im.velocity.v_z, im.velocity.w_x, im.velocity.w_y, im.velocity.w_z = v
    im.pose.transform.extend(pose(*PIX[(i + kind) % 4]).reshape(-1))
    im.pose_timestamp, im.shutter, im.camera_trigger_time, im.camera_readout_done_time = 10.5 + i, 0.25 + i, 11.0 + i, 12.5 + i
    p = CAMN[n]
    want.update({p + '_IMAGE': px, p + '_SDC_VELOCITY': np.array(v), p + '_POSE': pose(*PIX[(i + kind) % 4]), p + '_POSE_TIMESTAMP': 10.5 + i,
                 p + '_ROLLING_SHUTTER_DURATION': 0.25 + i, p + '_CAMERA_TRIGGER_TIME': 11.0 + i, p + '_CAMERA_READOUT_DONE_TIME': 12.5 + i})
  for i, n in enumerate(reversed(cams) if calrev else cams):
    k = f.context.camera_calibrations.add()
    k.name, k.width, k.height, k.rolling_shutter_direction = n, 100 + n, 50 + n, n
    k.intrinsic.extend([n + 0.5 * q for q in range(9)])
    k.extrinsic.transform.extend(EXTR[n % 5].reshape(-1))
    p = CAMN[n]
    want.update({p + '_INTRINSIC': np.array([n + 0.5 * q for q in range(9)]), p + '_EXTRINSIC': EXTR[n % 5], p + '_WIDTH': 100 + n, p + '_HEIGHT': 50 + n, p + '_ROLLING_SHUTTER_DIRECTION': n})
  got = frame_utils.convert_frame_to_dict(f)
  what = 'dict of lasers %s cameras %s kind %d missing %d size %s' % (names, cams, kind, miss, size)
  c.state((what, rev, uni, calrev))
  c.sample(lambda: what)
  c.outcome('%d entries' % len(want))
  if set(got) != set(want):
    return c.fail('dict', '%s: keys %s' % (what, sorted(set(got) ^ set(want))))
  for k, v in want.items():
    if not near(got[k], np.asarray(v)):
      c.fail('dict', '%s: %s is %s, expected %s' % (what, k, np.asarray(got[k]).tolist(), np.asarray(v).tolist()))


def fam_womd(c):
  top = c.flip()
  uni = c.flip()
  miss = c.choose(16)
  size = c.pick([(2, 3), (1, 4), (3, 2)])
  kind = c.choose(5)
  if not c.go():
    return
  f, truth = frame_of(c, [(1 if top else 3, uni, miss)], size, kind, False)
  t = truth[1 if top else 3]
  z = compressed_lidar_pb2.CompressedLaser()
  z.name = 1 if top else 3
  for ret, (a, _, _) in zip((z.ri_return1, z.ri_return2), t['rets']):
    ret.range_image_delta_compressed = delta_encoder.compress(a, [0.125, 0.125, 0.125, 1.0])
  if top:
    z.ri_return1.range_image_pose_delta_compressed = delta_encoder.compress(t['pix'], 1e-5)
    got = womd_lidar_utils.extract_top_lidar_points(z, tf.constant(t['frame'].astype(np.float32)), t['calib'])
  else:
    got = womd_lidar_utils.extract_side_lidar_points(z, t['calib'])
  what = '%s laser uniform %s missing %d size %s kind %d' % ('top' if top else 'side', uni, miss, size, kind)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('top' if top else 'side')
  if len(got) != 4:
    return c.fail('womd', what + ': %d results' % len(got))
  for r in range(2):
    a = t['rets'][r][0]
    mask = a[..., 0] > 0
    if not near(got[2 * r].numpy(), t['cart'][r][mask], 1e-2) or not near(got[2 * r + 1].numpy(), a[..., :3][mask], 1e-4):
      c.fail('womd', '%s: return %d points %s features %s, expected %s %s' % (what, r + 1, got[2 * r].numpy().tolist(), got[2 * r + 1].numpy().tolist(), t['cart'][r][mask].tolist(), a[..., :3][mask].tolist()))


def fam_incl(c):
  h = 1 + c.choose(7)
  lo, hi = c.pick([(-0.3, 0.05), (0.0, 1.0), (-1.5, -1.0), (0.2, 0.2)])
  rank = c.choose(2)
  if not c.go():
    return
  x = [[lo, hi], [lo - 1, hi + 1]] if rank else [lo, hi]
  got = riu.compute_inclination(tf.constant(x), h).numpy()
  want = np.array([[a + (i + 0.5) * (b - a) / h for i in range(h)] for a, b in (x if rank else [x])])
  c.state((h, lo, hi, rank))
  c.sample(lambda: 'inclinations %s height %d' % (x, h))
  c.outcome('inclination')
  if not near(got, want if rank else want[0], 1e-5):
    c.fail('inclination', 'range %s height %d: %s, expected %s' % (x, h, got.tolist(), want.tolist()))


m = mcpy.Main()
m.family('transforms', 'rotation and transform matrices over 6^3 angle triples x 3 ranks', fam_transform)
m.family('inclinations', 'uniform inclinations', fam_incl)
m.family('extraction', 'range image to points: 5 sizes x extrinsics x inclinations x poses x ranges', fam_extract)
m.family('building', 'points to range image: up to 3 points over 8 directions (cut at +-pi included) x sizes x extrinsics', fam_build)
m.family('inverse', 'range image -> points -> range image', fam_inverse)
m.family('large', 'images of 64x2650, 200x600, 5x3601 and 300x7 pixels x extrinsics: extracted, moved by pixel poses, rebuilt from shuffled points', fam_large)
m.family('features', 'every range code, every intensity code and every elongation code', fam_features)
m.family('scatter', 'pooling of up to 3 values into 2x3 cells', fam_scatter)
m.family('depth', 'camera depth images of 3 points over 5 projection kinds', fam_depth)
m.family('crop', 'all widths, crops and shifts up to 6', fam_crop)
m.family('frames', 'frames of 1-4 lasers x calibration kinds x missing pixels, versions 1 and 2', fam_frame)
m.family('frame dicts', 'frame dictionaries with cameras', fam_dict)
m.family('motion lidar', 'compressed motion dataset lasers', fam_womd)
raise SystemExit(m.run())

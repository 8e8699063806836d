"""C25: Python box and polygon geometry agrees with exact plane geometry."""
import itertools
import math
import os
import sys

import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcpy
import tensorflow as tf
from waymo_open_dataset import label_pb2
from waymo_open_dataset.utils import box_utils
from waymo_open_dataset.utils import geometry_utils

PI = math.pi


def near(a, b, tol=1e-3):
  a, b = np.asarray(a, float), np.asarray(b, float)
  return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + 0.01 * np.abs(b))))


# ------------------------------------------------------------------ points in boxes
SIZES = [(4.0, 2.0, 1.5), (1.0, 3.0, 2.0), (0.0, 2.0, 1.0), (2.0, 0.0, 1.0), (2.0, 1.0, 0.0), (2.0, 2.0, 2.0)]
HEAD = [0.0, 0.7, PI / 2, -2.0, PI, 7.1]
AT = [(0, 0, 0), (10, -4, 1), (-3.5, 2.5, -0.75)]


def offsets():
  """Box-frame positions as multiples of half sizes, away from the boundary."""
  v = [-1.3, -0.8, 0.0, 0.9, 1.2]
  return list(itertools.product(v, v, v))


def fam_inside_crowd(c):
  """Up to 300 boxes at once, few or many points."""
  n = c.pick([30, 300])
  lay = c.choose(3)
  few = c.choose(2)
  turn = c.pick(HEAD)
  if not c.go():
    return
  boxes = []
  for i in range(n):
    a = [(5.0 * (i % 17), 6.0 * (i // 17), 0.3 * (i % 4)), (0.1 * i, -0.05 * i, 0), (math.cos(i) * i, math.sin(i) * i, 0.01 * i)][lay]
    boxes.append((SIZES[(i + lay) % len(SIZES)], turn + 0.1 * (i % 7), a))
  offs = [(0.1, -0.2, 0.3), (1.3, 0, 0), (-0.8, 0.9, -0.4)] if not few else [(0.1, 0.2, 0.3)]
  judge_inside(c, boxes, offs, (lay, n, few, turn))


def fam_inside(c):
  m_ = 1 + c.choose(2)
  boxes = [(c.pick(SIZES), c.pick(HEAD), c.pick(AT)) for _ in range(m_)]
  if m_ == 2 and boxes[0][2] != AT[0]:
    return
  if not c.go():
    return
  judge_inside(c, boxes, offsets(), None)


def judge_inside(c, boxes, offs, key):
  m_ = len(boxes)
  pts, who = [], []
  for s, h, a in boxes[:1] if len(offs) == 1 else boxes:
    for o in offs:
      b = [o[i] * max(s[i], 0.5) / 2 for i in range(3)]
      pts.append((a[0] + b[0] * math.cos(h) - b[1] * math.sin(h), a[1] + b[0] * math.sin(h) + b[1] * math.cos(h), a[2] + b[2]))
  pts = np.array(pts)
  want3 = np.zeros((len(pts), m_), int)    # 1 inside, 0 outside, -1 unjudged (boundary)
  want2 = np.zeros((len(pts), m_), int)
  for k, (s, h, a) in enumerate(boxes):
    d = pts - np.array(a)
    x = np.stack([d[:, 0] * math.cos(h) + d[:, 1] * math.sin(h), -d[:, 0] * math.sin(h) + d[:, 1] * math.cos(h), d[:, 2]], -1)
    gap = np.array(s) / 2 - np.abs(x)
    for n, w in ((3, want3), (2, want2)):
      g = gap[:, :n].min(-1)
      w[:, k] = np.where(np.abs(g) < 1e-4, -1, np.where(g > 0, 1, 0))
      if 0 in s[:n]:
        w[:, k] = 0
  b3 = tf.constant(np.array([list(a) + list(s) + [h] for s, h, a in boxes], np.float32))
  b2 = tf.constant(np.array([list(a[:2]) + list(s[:2]) + [h] for s, h, a in boxes], np.float32))
  p = tf.constant(pts.astype(np.float32))
  what = 'boxes (size, heading, centre) %s' % boxes if key is None else '%s: %d boxes' % (key, len(boxes))
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%d boxes' % m_)
  for got, want, dims in ((box_utils.is_within_box_3d(p, b3).numpy(), want3, 3), (box_utils.is_within_box_2d(p[:, :2], b2).numpy(), want2, 2)):
    if got.shape != want.shape or got.dtype != bool:
      return c.fail('inside', '%s: shape %s type %s' % (what, got.shape, got.dtype))
    bad = np.argwhere((want >= 0) & (got != (want == 1)))
    if len(bad):
      i, k = bad[0]
      c.fail('inside', '%s: point %s in box %d (%dD): %s' % (what, pts[i].tolist(), k, dims, bool(got[i, k])))
  n = box_utils.compute_num_points_in_box_3d(p, b3).numpy()
  got = box_utils.is_within_box_3d(p, b3).numpy()
  if not np.array_equal(n, got.sum(0)):
    c.fail('count', '%s: %s points, expected %s' % (what, n.tolist(), got.sum(0).tolist()))


def pose(roll, pitch, yaw, x, y, z):
  cr, sr, cp, sp, cy, sy = math.cos(roll), math.sin(roll), math.cos(pitch), math.sin(pitch), math.cos(yaw), math.sin(yaw)
  r = np.array([[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]]) @ np.array([[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]]) @ np.array([[1, 0, 0], [0, cr, -sr], [0, sr, cr]])
  t = np.eye(4)
  t[:3, :3], t[:3, 3] = r, (x, y, z)
  return t


UPRIGHT = [pose(0, 0, 0, 0, 0, 0), pose(0, 0, 0.6, 5, -3, 1), pose(0, 0, -2.9, -7, 1, -2), pose(0, 0, PI / 2, 30, 40, 0)]
TILTED = [pose(0.2, -0.1, 0.6, 5, -3, 1), pose(-0.3, 0.4, 2.2, 1, 1, 9)]


def ref_corners(b):
  x, y, z, l, w, h, t = b
  out = []
  for dz in (-0.5, 0.5):
    for sx, sy in ((1, 1), (-1, 1), (-1, -1), (1, -1)):
      px, py = sx * l / 2, sy * w / 2
      out.append((x + px * math.cos(t) - py * math.sin(t), y + px * math.sin(t) + py * math.cos(t), z + dz * h))
  return np.array(out)


def cyclic(a, b):
  """Same corners layer by layer, counter-clockwise, from any first corner."""
  for lo in (0, 4):
    if not any(near(np.roll(a[lo:lo + 4], k, axis=0), b[lo:lo + 4]) for k in range(4)):
      return False
  return True


def fam_corners(c):
  n = 1 + c.choose(2)
  full = [s for s in SIZES if 0 not in s]
  boxes = [(c.pick(full), c.pick(HEAD), c.pick(AT))]
  if n == 2:
    boxes.append((c.pick(full), c.pick(HEAD), AT[1]) if m.thorough() else c.pick([(full[1], 0.7, AT[2]), (full[2], -2.0, AT[0])]))
  fr, to = c.choose(4), c.choose(4)
  batch = c.choose(2)
  if not c.go():
    return
  b = np.array([list(a) + list(s) + [h] for s, h, a in boxes], np.float32)
  what = 'boxes %s from %d to %d batch %d' % (boxes, fr, to, batch)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%d boxes' % n)
  got = box_utils.get_upright_3d_box_corners(tf.constant(b)).numpy()
  want = np.array([ref_corners(x) for x in b])
  if got.shape != want.shape or not all(cyclic(g, w) for g, w in zip(got, want)):
    return c.fail('corners', '%s: corners %s, expected %s' % (what, got.tolist(), want.tolist()))
  f, t = UPRIGHT[fr], UPRIGHT[to]
  rel = np.linalg.inv(t) @ f
  if batch:
    g = box_utils.transform_box(tf.constant(np.stack([b, b])), tf.constant(np.stack([f, t]).astype(np.float32)), tf.constant(np.stack([t, t]).astype(np.float32))).numpy()
    if not near(np.delete(g[1], 6, 1), np.delete(b, 6, 1)):
      c.fail('transform-box', '%s: moving to the same frame changes the boxes' % what)
    g = g[0]
  else:
    g = box_utils.transform_box(tf.constant(b), tf.constant(f.astype(np.float32)), tf.constant(t.astype(np.float32))).numpy()
  for i in range(n):
    moved = want[i] @ rel[:3, :3].T + rel[:3, 3]
    if g.shape != b.shape or not near(ref_corners(g[i].astype(float)), moved) or not near(g[i, 3:6], b[i, 3:6], 1e-5):
      c.fail('transform-box', '%s: box %d becomes %s, its corners should be %s' % (what, i, g[i].tolist(), moved.tolist()))


def fam_points(c):
  allp = UPRIGHT + TILTED
  fr, to = c.choose(len(allp)), c.choose(len(allp))
  third = c.choose(len(allp))
  lead = c.choose(3)
  if not c.go():
    return
  p = np.array([[1.5, -2, 0.5], [0, 0, 0], [-20, 11, 3], [4, 4, 4]])
  f, t, u = allp[fr], allp[to], allp[third]
  shape = [(4, 3), (2, 2, 3), (2, 1, 2, 3)][lead]
  pose_of = lambda a, b: tf.constant((a if lead == 0 else np.stack([a, b]).reshape(shape[:-2] + (4, 4))).astype(np.float32))
  got = box_utils.transform_point(tf.constant(p.reshape(shape).astype(np.float32)), pose_of(f, f), pose_of(t, u)).numpy()
  rel = [np.linalg.inv(x) @ f for x in (t, u)]
  want = np.stack([(rel[0 if lead == 0 or i < 2 else 1] @ np.append(q, 1))[:3] for i, q in enumerate(p)]).reshape(shape)
  what = 'points from frame %d to frames %d %d, shape %s' % (fr, to, third, shape)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('points')
  if not near(got, want):
    c.fail('transform-point', '%s: %s, expected %s' % (what, got.tolist(), want.tolist()))
  b = label_pb2.Label.Box(center_x=fr, center_y=to, center_z=third, length=1.5, width=2.5, height=3.5, heading=-0.5 * lead)
  if not near(box_utils.box_to_tensor(b).numpy(), [fr, to, third, 1.5, 2.5, 3.5, -0.5 * lead], 1e-6):
    c.fail('box-to-tensor', '%s -> %s' % (b, box_utils.box_to_tensor(b)))


# ------------------------------------------------------------------- plane geometry
def corners2(s, h, a, first):
  out = []
  for sx, sy in ((1, 1), (-1, 1), (-1, -1), (1, -1)):
    px, py = sx * s[0] / 2, sy * s[1] / 2
    out.append((a[0] + px * math.cos(h) - py * math.sin(h), a[1] + px * math.sin(h) + py * math.cos(h)))
  return out[first:] + out[:first]


def seg_dist(p, a, b):
  ab = (b[0] - a[0], b[1] - a[1])
  t = ((p[0] - a[0]) * ab[0] + (p[1] - a[1]) * ab[1]) / max(ab[0]**2 + ab[1]**2, 1e-18)
  t = min(1, max(0, t))
  return math.hypot(p[0] - a[0] - t * ab[0], p[1] - a[1] - t * ab[1])


def ref_signed(p, poly):
  n = len(poly)
  d = min(seg_dist(p, poly[i], poly[(i + 1) % n]) for i in range(n))
  inside = all((poly[(i + 1) % n][0] - poly[i][0]) * (p[1] - poly[i][1]) - (poly[(i + 1) % n][1] - poly[i][1]) * (p[0] - poly[i][0]) >= 0 for i in range(n))
  return -d if inside else d


POLY = [[(0, 0), (4, 0), (4, 2), (0, 2)], [(0, 0), (3, -1), (1, 4)], [(0, 0), (2, 0), (3, 1), (2, 3), (0, 3), (-1, 1.5)],
        [(0, 0), (10, 0.1), (10, 0.3), (0, 0.2)], [(1, 0), (2, 1), (1, 2), (0, 1)], [(-1, -1), (0, -1), (1, -1), (1, 1), (-1, 1)]]


def fam_signed(c):
  k = c.choose(len(POLY))
  rot = c.choose(len(POLY[k]))
  turn = c.pick([0.0, 0.5, 2.2, -PI / 2])
  shift = c.pick([(0, 0), (7, -3)])
  if not c.go():
    return
  poly = POLY[k][rot:] + POLY[k][:rot]
  f = lambda p: (p[0] * math.cos(turn) - p[1] * math.sin(turn) + shift[0], p[0] * math.sin(turn) + p[1] * math.cos(turn) + shift[1])
  poly = [f(p) for p in poly]
  pts = [f((x * 0.5 + 0.05, y * 0.5 + 0.02)) for x in range(-5, 24, 2) for y in range(-5, 12)]
  got = geometry_utils.signed_distance_from_point_to_convex_polygon(tf.constant(np.array(pts, np.float32)), tf.constant(np.array([poly] * len(pts), np.float32))).numpy()
  want = [ref_signed(p, poly) for p in pts]
  what = 'polygon %d from vertex %d turned %g moved %s' % (k, rot, turn, shift)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('polygon')
  if got.shape != (len(pts),):
    return c.fail('signed-distance', '%s: shape %s' % (what, got.shape))
  for p, g, w in zip(pts, got, want):
    if abs(g - w) > 1e-3:
      return c.fail('signed-distance', '%s: point %s at %g, expected %g' % (what, p, g, w))


def hull_area(p):
  return 0.5 * sum(p[i][0] * p[(i + 1) % len(p)][1] - p[i][1] * p[(i + 1) % len(p)][0] for i in range(len(p)))


def hull(pts):
  pts = sorted(set((round(x, 9), round(y, 9)) for x, y in pts))

  def half(ps):
    out = []
    for p in ps:
      while len(out) > 1 and (out[-1][0] - out[-2][0]) * (p[1] - out[-2][1]) - (out[-1][1] - out[-2][1]) * (p[0] - out[-2][0]) <= 0:
        out.pop()
      out.append(p)
    return out[:-1]
  return half(pts) + half(pts[::-1])


MH = [0.0, 0.02, 0.28, PI / 2, PI, -PI / 2, 0.3, 0.3 + PI / 2, -1.2, 1e-4, -1e-4, 2.7, PI / 4, PI / 2 - 1e-4]


def fam_minkowski(c):
  h1, h2 = c.pick(MH), c.pick(MH)
  f1, f2 = c.choose(4), c.choose(4)
  s1, s2 = c.pick([(4.0, 2.0), (1.0, 1.0)]), c.pick([(3.0, 0.5), (2.0, 2.0)])
  if not c.go():
    return
  a, b = corners2(s1, h1, (1.0, 2.0), f1), corners2(s2, h2, (-3.0, 0.5), f2)
  other = corners2((1.0, 2.0), h2 + 0.2, (0, 0), f1)
  got = geometry_utils.minkowski_sum_of_box_and_box_points(tf.constant(np.array([a, other], np.float32)), tf.constant(np.array([b, b], np.float32))).numpy()
  what = 'boxes %s heading %g first corner %d, %s heading %g first corner %d' % (s1, h1, f1, s2, h2, f2)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('sum')
  if got.shape != (2, 8, 2):
    return c.fail('minkowski', '%s: shape %s' % (what, got.shape))
  for g, p in zip(got, (a, other)):
    sums = [(x[0] + y[0], x[1] + y[1]) for x in p for y in b]
    hl = hull(sums)
    g = [tuple(map(float, q)) for q in g]
    for q in g:
      if min(math.hypot(q[0] - s[0], q[1] - s[1]) for s in sums) > 1e-3:
        return c.fail('minkowski', '%s: %s is no sum of corners' % (what, q))
    if abs(hull_area(g) - hull_area(hl)) > 2e-3:
      return c.fail('minkowski', '%s: area %g, expected %g' % (what, hull_area(g), hull_area(hl)))
    for q in hl:
      # Almost collinear vertices may be left out: only the outline counts.
      if min(seg_dist(q, g[i], g[(i + 1) % 8]) for i in range(8)) > 5e-3:
        return c.fail('minkowski', '%s: vertex %s of the sum is missing' % (what, q))
    for i in range(8):
      u = (g[(i + 1) % 8][0] - g[i][0], g[(i + 1) % 8][1] - g[i][1])
      v = (g[(i + 2) % 8][0] - g[(i + 1) % 8][0], g[(i + 2) % 8][1] - g[(i + 1) % 8][1])
      if u[0] * v[1] - u[1] * v[0] < -2e-3:
        return c.fail('minkowski', '%s: not convex at vertex %d' % (what, i))


def fam_vectors(c):
  v = [-2.0, 0.0, 0.5, 3.0]
  a, b = (c.pick(v), c.pick(v)), (c.pick(v), c.pick(v))
  yaw = c.pick([0.0, 0.7, PI / 2, -3.0])
  rank = c.choose(3)
  if not c.go():
    return
  A, B = np.array([a, b], np.float32), np.array([b, (1.5, -1.0)], np.float32)
  A, B = [x[0] if rank == 0 else x if rank == 1 else x[None] for x in (A, B)]
  cross = A[..., 0] * B[..., 1] - A[..., 1] * B[..., 0]
  dot = A[..., 0] * B[..., 0] + A[..., 1] * B[..., 1]
  c.state((a, b, yaw, rank))
  c.sample(lambda: 'vectors %s %s yaw %g' % (a, b, yaw))
  c.outcome('vectors')
  what = 'vectors %s %s' % (A.tolist(), B.tolist())
  if not near(geometry_utils.cross_product_2d(tf.constant(A), tf.constant(B)).numpy(), cross, 1e-5):
    c.fail('cross', what)
  if not near(geometry_utils.dot_product_2d(tf.constant(A), tf.constant(B)).numpy(), dot, 1e-5):
    c.fail('dot', what)
  if rank:
    yaws = np.array([yaw, -0.4], np.float32).reshape(A.shape[:-1])
    for y in (yaws, np.array([yaw], np.float32)):
      yy = np.broadcast_to(y, A.shape[:-1])
      want = np.stack([np.cos(yy) * A[..., 0] - np.sin(yy) * A[..., 1], np.sin(yy) * A[..., 0] + np.cos(yy) * A[..., 1]], -1)
      if not near(geometry_utils.rotate_2d_points(tf.constant(A), tf.constant(y)).numpy(), want, 1e-4):
        c.fail('rotate', '%s yaws %s' % (what, y.tolist()))


m = mcpy.Main()
m.family('inside', 'one or two boxes over 6 sizes (zero sizes included) x 6 headings x 3 places, 125 points each', fam_inside)
m.family('inside-crowd', '30 and 300 boxes in 3 layouts, one point or three per box', fam_inside_crowd)
m.family('corners and moves', 'one or two boxes x pairs of upright frames', fam_corners)
m.family('points', 'point transforms between upright and tilted frames', fam_points)
m.family('signed distance', '6 convex polygons x first vertex x rotation x translation, 255 points each', fam_signed)
m.family('minkowski', 'two boxes over 12 headings (axis-aligned and almost axis-aligned included) x first corners x sizes', fam_minkowski)
m.family('vectors', 'cross and dot products, rotations', fam_vectors)
raise SystemExit(m.run())

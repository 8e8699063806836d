"""C26: keypoint labels, their tensors, the pose metrics and the pose matchers."""
import itertools
import math
import os
import sys

import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcpy
import tensorflow as tf
from waymo_open_dataset import dataset_pb2
from waymo_open_dataset import label_pb2
from waymo_open_dataset.metrics.python import keypoint_metrics as km
from waymo_open_dataset.protos import box_pb2
from waymo_open_dataset.protos import keypoint_pb2
from waymo_open_dataset.protos import metrics_pb2
from waymo_open_dataset.utils import keypoint_data as kd

PI = math.pi
KT = keypoint_pb2.KeypointType
f32 = lambda x: tf.constant(np.array(x, np.float32))


def near(a, b, tol=1e-4):
  a, b = np.asarray(a, float), np.asarray(b, float)
  return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


# --------------------------------------------------------------------- labels
T3 = (KT.KEYPOINT_TYPE_NOSE, KT.KEYPOINT_TYPE_LEFT_HIP, KT.KEYPOINT_TYPE_HEAD_CENTER)


def laser_kp(t, occluded, k):
  p = keypoint_pb2.LaserKeypoint(type=t)
  p.keypoint_3d.location_m.x, p.keypoint_3d.location_m.y, p.keypoint_3d.location_m.z = 1.5 + k, -2.0 * k, 0.25 * k + 3
  p.keypoint_3d.visibility.is_occluded = occluded
  return p


def cam_kp(t, occluded, k):
  p = keypoint_pb2.CameraKeypoint(type=t)
  p.keypoint_2d.location_px.x, p.keypoint_2d.location_px.y = 10.5 + k, 200.0 - 3 * k
  p.keypoint_2d.visibility.is_occluded = occluded
  return p


def fam_labels(c):
  n = c.choose(4)
  ids = ['a', 'b', 'a2'][:n]
  kp = [c.choose(3) for _ in ids]
  cams = []
  for _ in range(c.choose(3)):
    cams.append((c.pick([1, 3]), c.pick(ids + ['zz', None]), c.choose(2)))
  if len(set((x[0], x[1]) for x in cams)) < len(cams) and len(cams) == 2:
    return
  split = c.choose(2) if len(cams) == 2 and cams[0][0] == cams[1][0] else 0
  if not c.go():
    return
  frame = dataset_pb2.Frame()
  for i, o in enumerate(ids):
    l = frame.laser_labels.add(id=o, type=[2, 1, 4][i])
    l.box.center_x, l.box.length = i + 1, 2 + i
    for j in range(kp[i]):
      l.laser_keypoints.keypoint.append(laser_kp(T3[j], False, i))
  for k, (cam, o, nk) in enumerate(cams):
    cl = frame.camera_labels[-1] if split and k else frame.camera_labels.add(name=cam)
    l = cl.labels.add(id='c%d' % k, type=2)
    l.box.center_x, l.box.center_y, l.box.length, l.box.width = 10 * k + 5, 4, 2, 3
    if o is not None:
      l.association.laser_object_id = o
    if nk:
      l.camera_keypoints.keypoint.append(cam_kp(T3[0], True, k))
  before = frame.SerializeToString(deterministic=True)
  got = kd.group_object_labels(frame)
  what = 'objects %s with %s keypoints, camera labels (camera, laser id, keypoints) %s' % (ids, kp, cams)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%d objects' % n)
  if frame.SerializeToString(deterministic=True) != before:
    c.fail('labels', what + ': the frame was changed')
  if sorted(got) != sorted(ids):
    return c.fail('labels', '%s: grouped as %s' % (what, sorted(got)))
  for i, o in enumerate(ids):
    g = got[o]
    if g.laser.box != frame.laser_labels[i].box or g.object_type != frame.laser_labels[i].type or g.laser.object_type != frame.laser_labels[i].type:
      c.fail('labels', '%s: %s has another laser label' % (what, o))
    if len(g.laser.keypoints.keypoint if g.laser.keypoints is not None else []) != kp[i] or kp[i] and g.laser.keypoints != frame.laser_labels[i].laser_keypoints:
      c.fail('labels', '%s: %s has other laser keypoints' % (what, o))
    want = {cam: k for k, (cam, w, _) in enumerate(cams) if w == o}
    have = g.camera or {}
    if sorted(have) != sorted(want):
      c.fail('labels', '%s: %s has cameras %s' % (what, o, sorted(have)))
      continue
    for cam, k in want.items():
      kps = have[cam].keypoints
      kps = [] if kps is None else kps.keypoint if hasattr(kps, 'keypoint') else list(kps)
      if have[cam].box.center_x != 10 * k + 5 or len(kps) != cams[k][2] or kps and kps[0] != cam_kp(T3[0], True, k):
        c.fail('labels', '%s: %s has the wrong label of camera %d' % (what, o, cam))


ORDERS = list(itertools.permutations(T3)) + [T3[:2], T3[1:], T3[2:], kd.CANONICAL_ORDER_CAMERA, kd.CANONICAL_ORDER_LASER, kd.CANONICAL_ORDER_ALL]


def fam_tensors(c):
  st = [c.choose(3) for _ in T3]
  order = c.pick(ORDERS)
  put = c.pick(list(itertools.permutations(range(3))))
  camera = c.choose(2)
  wide = c.choose(2)
  if not c.go():
    return
  dt, nt = (tf.float64, np.float64) if wide else (tf.float32, np.float32)
  kps = [(cam_kp if camera else laser_kp)(T3[i], st[i] == 1, i) for i in put if st[i]]
  default = np.array([-7, -8, -9.5][:2 + (not camera)])
  make = kd.create_camera_keypoints_tensors if camera else kd.create_laser_keypoints_tensors
  t = make(iter(kps), default, order, dtype=dt)
  loc, vis = [], []
  for o in order:
    i = T3.index(o) if o in T3 else -1
    if i < 0 or st[i] == 0:
      loc.append(default)
      vis.append(0)
    else:
      loc.append([10.5 + i, 200.0 - 3 * i] if camera else [1.5 + i, -2.0 * i, 0.25 * i + 3])
      vis.append(st[i])
  what = 'states %s in order %s' % (st, [KT.Name(o)[14:] for o in order])
  c.state((st, order, put, camera, wide))
  c.sample(lambda: what)
  c.outcome('camera' if camera else 'laser')
  if t.location.dtype != dt or not near(t.location.numpy(), loc) or t.visibility.numpy().tolist() != vis:
    return c.fail('tensors', '%s: locations %s visibility %s' % (what, t.location.numpy().tolist(), t.visibility.numpy().tolist()))
  if t.has_batch_dimension or t.dims != 3 - camera or bool(t.has_visible) != (2 in vis):
    c.fail('tensors', what + ': dimensions or visible flag')
  if t.is_fully_visible.numpy().tolist() != [v == 2 for v in vis] or t.mask.numpy().tolist() != [float(v > 0) for v in vis]:
    c.fail('tensors', what + ': masks')
  u = make(kps[:1], default, order, dtype=dt)
  s = kd.stack_keypoints([t, u])
  if not near(s.location.numpy(), [loc, u.location.numpy()]) or s.visibility.numpy().tolist() != [vis, u.visibility.numpy().tolist()] or not s.has_batch_dimension or s.dims != 3 - camera or s.has_visible.numpy().tolist() != [2 in vis, bool(u.has_visible)]:
    c.fail('stack', what)
  for dst in (order[::-1], order[:1], order[1:]):
    if not dst:
      continue
    sub = s.subset(order, dst)
    ix = [list(order).index(o) for o in dst]
    if not near(sub.location.numpy(), s.location.numpy()[:, ix]) or not np.array_equal(sub.visibility.numpy(), s.visibility.numpy()[:, ix]) or not np.array_equal(sub.has_visible.numpy(), s.has_visible.numpy()):
      c.fail('subset', '%s: subset %s' % (what, ix))
  for bad in ((s.location, order, tuple(order) + (KT.KEYPOINT_TYPE_LEFT_ELBOW if len(order) < 4 else KT.KEYPOINT_TYPE_UNSPECIFIED,)), (s.location, tuple(order) + (KT.KEYPOINT_TYPE_UNSPECIFIED,), order[:1]), (t.visibility, order, order[:1])):
    try:
      kd.select_subset(*bad)
      c.fail('subset', what + ': an invalid subset was accepted')
    except ValueError:
      pass


def fam_boxes(c):
  v = [0.0, 1.5, 4.0]
  size = [c.pick(v) for _ in range(3)]
  center = c.pick([(0, 0, 0), (3, -2, 1), (-100.5, 20, 0.5)])
  h = c.pick([0.0, 1.25, -3.0])
  other = c.pick([0.0, -0.5])
  if not c.go():
    return
  b = label_pb2.Label.Box(center_x=center[0], center_y=center[1], center_z=center[2], length=size[0], width=size[1], height=size[2], heading=h)
  o = label_pb2.Label.Box(center_x=9, center_y=8, center_z=7, length=1, width=2, height=3, heading=other)
  what = 'box at %s size %s heading %g' % (center, size, h)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('box')
  p3 = box_pb2.Box3d(heading=h)
  p3.center.x, p3.center.y, p3.center.z = center
  p3.size.x, p3.size.y, p3.size.z = size
  if kd.label_box_from_box_proto(p3) != b:
    c.fail('box-proto', '%s: converted to %s' % (what, str(kd.label_box_from_box_proto(p3)).replace('\n', ' ')))
  for make, d in ((kd.create_laser_box_tensors, 3), (kd.create_camera_box_tensors, 2)):
    for dt in (tf.float32, tf.float64):
      t = make(b, dtype=dt)
      ce, si = np.array(center[:d], float), np.array(size[:d])
      if t.center.dtype != dt or not near(t.center.numpy(), ce) or not near(t.size.numpy(), si) or (t.heading is None) != (d == 2) or d == 3 and not near(t.heading.numpy(), h):
        c.fail('box', '%s: %s' % (what, t))
      if t.dims != d or t.has_batch_dimension or not near(t.scale.numpy(), np.prod(si) ** (1 / d)) or not near(t.min_corner.numpy(), ce - si / 2) or not near(t.max_corner.numpy(), ce + si / 2):
        c.fail('box', '%s: derived values of %s' % (what, t))
      s = kd.stack_boxes([t, make(o, dtype=dt), t])
      oc, os_ = [9, 8, 7][:d], [1, 2, 3][:d]
      if not near(s.center.numpy(), [ce, oc, ce]) or not near(s.size.numpy(), [si, os_, si]) or (s.heading is None) != (d == 2) or d == 3 and not near(s.heading.numpy(), [h, other, h]) or not s.has_batch_dimension or s.dims != d or not near(s.scale.numpy(), [np.prod(x) ** (1 / d) for x in (si, os_, si)]):
        c.fail('box', '%s: stacked %s' % (what, s))
  a = kd.create_laser_box_tensors(b)
  try:
    kd.stack_boxes([a, kd.BoundingBoxTensors(center=a.center, size=a.size)])
    c.fail('box', what + ': boxes with and without heading were stacked')
  except AssertionError:
    pass


def fam_poses(c):
  n = c.choose(4)
  kp = [c.choose(4) for _ in range(n)]     # None, empty, occluded point, visible point
  boxes = c.choose(2)
  label = c.choose(2)
  order = c.pick([T3, T3[::-1], kd.CANONICAL_ORDER_LASER])
  if not c.go():
    return
  poses = []
  for i, k in enumerate(kp):
    ks = None if k == 0 else keypoint_pb2.LaserKeypoints(keypoint=[laser_kp(T3[i % 3], k == 2, i)] if k > 1 else [])
    bx = label_pb2.Label.Box(center_x=i, center_y=2 * i, center_z=-i, length=1 + i, width=2, height=3, heading=0.5 * i)
    poses.append(kd.PoseLabel(object_type=2, box=bx, keypoints=ks) if label else kd.PosePrediction(object_type=2, box=bx if boxes else None, keypoints=ks))
  t = kd.create_pose_estimation_tensors(iter(poses), np.zeros(3), order)
  use = [i for i in range(n) if kp[i]]
  what = 'poses %s boxes %s' % (kp, boxes or label)
  c.state((what, label, order))
  c.sample(lambda: what)
  c.outcome('%d poses' % len(use))
  loc = np.zeros((len(use), len(order), 3))
  vis = np.zeros((len(use), len(order)), int)
  for r, i in enumerate(use):
    if kp[i] > 1:
      loc[r, order.index(T3[i % 3])] = 1.5 + i, -2.0 * i, 0.25 * i + 3
      vis[r, order.index(T3[i % 3])] = kp[i] - 1
  if not near(t.keypoints.location.numpy(), loc) or not np.array_equal(t.keypoints.visibility.numpy(), vis):
    c.fail('poses', '%s: locations %s visibility %s' % (what, t.keypoints.location.numpy().tolist(), t.keypoints.visibility.numpy().tolist()))
  if use and not (boxes or label):
    if t.box is not None:
      c.fail('poses', what + ': boxes were made up')
  else:
    k = np.array(use, float)
    if t.box is None or not near(t.box.center.numpy(), np.stack([k, 2 * k, -k], -1).reshape(-1, 3)) or not near(t.box.size.numpy(), np.stack([1 + k, 2 + 0 * k, 3 + 0 * k], -1).reshape(-1, 3)) or not near(t.box.heading.numpy(), 0.5 * k):
      c.fail('poses', '%s: boxes %s' % (what, t.box))


# ------------------------------------------------------------------- geometry
def ref_shift(p, box, clockwise=True):
  """Shortest move of p into box (center, size, heading or None)."""
  ce, si, h = box
  h = 0.0 if h is None else h
  h = -h if clockwise else h
  d = [p[i] - ce[i] for i in range(len(p))]
  q = [d[0] * math.cos(h) + d[1] * math.sin(h), -d[0] * math.sin(h) + d[1] * math.cos(h)] + d[2:]
  m_ = [min(max(q[i], -si[i] / 2), si[i] / 2) - q[i] for i in range(len(q))]
  return [m_[0] * math.cos(h) - m_[1] * math.sin(h), m_[0] * math.sin(h) + m_[1] * math.cos(h)] + m_[2:]


def bbt(boxes):
  return kd.BoundingBoxTensors(center=f32([b[0] for b in boxes]), size=f32([b[1] for b in boxes]), heading=None if boxes[0][2] is None else f32([b[2] for b in boxes]))


PTS = [(0.1, 0.2, 0.3), (3.0, 0.5, 0.0), (-2.5, 4.0, 1.0), (1.0, -3.5, -2.0), (0.4, 0.4, 4.0), (-6.0, -6.0, -6.0), (2.0, 1.0, 0.0)]


def fam_displacement(c):
  dims = 2 + c.choose(2)
  n = 1 + c.choose(2)
  hs = c.choose(2) if dims == 2 else 1 + c.choose(1)
  boxes = []
  for _ in range(n):
    ce = c.pick([(0.0, 0.0, 0.0), (2.0, -1.0, 0.5)])
    si = c.pick([(4.0, 2.0, 1.0), (1.0, 1.0, 6.0), (2.0, 5.0, 2.0)])
    boxes.append((ce[:dims], si[:dims], c.pick([0.0, 0.4, PI / 2, -2.0, 3.0]) if hs else None))
  none3 = c.choose(2) if dims == 3 else 0
  if none3:
    boxes = [(b[0], b[1], None) for b in boxes]
  if not c.go():
    return
  pts = [p[:dims] for p in PTS]
  what = 'boxes (centre, size, heading) %s' % boxes
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%dD' % dims)
  want = [[ref_shift(list(p), b) for p in pts] for b in boxes]
  got = km.box_displacement(f32([pts] * n), bbt(boxes)).numpy()
  if not near(got, want, 1e-3):
    c.fail('displacement', '%s: points %s shifts %s, expected %s' % (what, pts, got.tolist(), want))
  b1 = boxes[0]
  one = kd.BoundingBoxTensors(center=f32(b1[0]), size=f32(b1[1]), heading=None if b1[2] is None else f32(b1[2]))
  got = km.box_displacement(f32(pts), one).numpy()
  if not near(got, want[0], 1e-3):
    c.fail('displacement', '%s without batch: shifts %s, expected %s' % (what, got.tolist(), want[0]))
  if dims == 3:
    vis = np.array([[2, 1, 2], [0, 2, 2]])
    loc = np.array([PTS[:3], PTS[3:6]])
    kp = kd.KeypointsTensors(location=f32(loc), visibility=tf.constant(vis))
    want = np.array([[[np.linalg.norm(ref_shift(list(loc[o, k]), b)) if vis[o, k] == 2 else np.inf for k in range(3)] for o in range(2)] for b in boxes])
    got = km.keypoint_distance(bbt(boxes), kp).numpy()
    clo = km.closest_keypoint_distance(bbt(boxes), kp).numpy()
    fin = np.isfinite(want)
    if got.shape != want.shape or not np.array_equal(np.isfinite(got), fin) or not near(got[fin], want[fin], 1e-3) or not near(clo, want.min(-1), 1e-3):
      c.fail('distance', '%s: distances %s, expected %s' % (what, got.tolist(), want.tolist()))


def fam_rotated(c):
  h = c.pick([0.0, 0.4, PI / 2, -2.0, PI / 4, 2.5])
  si = c.pick([(4.0, 2.0, 1.0), (1.0, 6.0, 2.0), (2.0, 2.0, 2.0)])
  p = list(c.pick(PTS))
  if not c.go():
    return
  b = label_pb2.Label.Box(center_x=1, center_y=-0.5, center_z=0.25, length=si[0], width=si[1], height=si[2], heading=h)
  box = ((1, -0.5, 0.25), si, h)
  got = km.box_displacement(f32([p]), kd.create_laser_box_tensors(b)).numpy()[0]
  want, turned = ref_shift(p, box, False), ref_shift(p, box, True)
  what = 'laser label size %s heading %g, point %s' % (si, h, p)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('label')
  if not near(got, want, 1e-3):
    if near(got, turned, 1e-3):
      c.fail('label-heading-clockwise', '%s: shift %s, expected %s' % (what, got.tolist(), want))
    else:
      c.fail('label-distance', '%s: shift %s, expected %s' % (what, got.tolist(), want))


# -------------------------------------------------------------------- metrics
def ref_oks(gl, gv, pl, pv, box, scales, w):
  n = len(gv)
  s = [x * float(np.prod(box[1])) ** (1 / len(box[1])) for x in scales]
  if any(gv):
    e = [math.exp(-sum((a - b)**2 for a, b in zip(gl[k], pl[k])) / (2 * s[k]**2)) if s[k] else 1.0 for k in range(n)]
    ww = [(gv[k] > 0) * (pv[k] > 0) * (w[k] if w is not None else 1.0) for k in range(n)]
    return sum(a * b for a, b in zip(e, ww)) / sum(ww) if sum(ww) else 0.0
  big = (box[0], [3 * x for x in box[1]], box[2])
  e = [math.exp(-sum(x * x for x in ref_shift(list(pl[k]), big)) / (2 * s[k]**2)) if s[k] else 1.0 for k in range(n)]
  return sum(e) / n


GL = [(0.5, 0.25, 0.0), (-1.0, 0.5, 0.25)]
OFFS = [(0.0, 0.0, 0.0), (0.3, -0.2, 0.1), (0.0, 1.5, 0.0), (20.0, -4.0, 9.0)]


def fam_oks(c):
  dims = 2 + c.choose(2)
  gv = [c.choose(3) for _ in range(2)]
  pv = [c.choose(3) for _ in range(2)]
  off = [c.choose(4) for _ in range(2)]
  bx = c.choose(4)
  wk = c.choose(4) if m.thorough() or gv[0] == 2 else c.choose(2)
  if not c.go():
    return
  box = [((0.0, 0.0, 0.0), (4.0, 3.0, 2.0), 0.0), ((1.0, -2.0, 0.5), (1.0, 5.0, 2.0), 0.6), ((0.0, 0.0, 0.0), (2.0, 2.0, 2.0), -2.2), ((0.0, 0.0, 0.0), (0.0, 2.0, 1.0), 0.0)][bx]
  box = (box[0][:dims], box[1][:dims], None if dims == 2 else box[2])
  gl = [g[:dims] for g in GL]
  pl = [tuple(a + b for a, b in zip(g, OFFS[o][:dims])) for g, o in zip(gl, off)]
  scales = [0.2, 0.7]
  w = [None, [1.0, 1.0], [0.25, 2.0], [0.0, 1.0]][wk]
  what = '%dD visibility %s predicted %s at %s box %s weights %s' % (dims, gv, pv, pl, box, w)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%s %dD' % ('labelled' if any(gv) else 'unlabelled', dims))
  # A second object beside it, complete and exact.
  g = kd.KeypointsTensors(location=f32([gl, gl]), visibility=tf.constant([gv, [2, 2]]))
  p = kd.KeypointsTensors(location=f32([pl, gl]), visibility=tf.constant([pv, [2, 1]]))
  b2 = (box[0], [4.0, 4.0, 4.0][:dims], box[2])
  wt = None if w is None else f32([w, [1.0, 1.0]])
  got = km.object_keypoint_similarity(g, p, bbt([box, b2]), scales, sample_weight=wt).numpy()
  want = [ref_oks(gl, gv, pl, pv, box, scales, w), 1.0]
  if not near(got, want, 1e-3):
    c.fail('oks', '%s: %s, expected %s' % (what, got.tolist(), want))
  if w is None:
    one = kd.BoundingBoxTensors(center=f32(box[0]), size=f32(box[1]), heading=None if box[2] is None else f32(box[2]))
    got = km.object_keypoint_similarity(kd.KeypointsTensors(location=f32(gl), visibility=tf.constant(gv)), kd.KeypointsTensors(location=f32(pl), visibility=tf.constant(pv)), one, scales).numpy()
    if not near(got, want[0], 1e-3):
      c.fail('oks', '%s without batch: %s, expected %s' % (what, got.tolist(), want[0]))


# Objects: truth and predicted visibility of two points and distances of the prediction.
OBJ = [([2, 2], [2, 2], [0, 0]), ([2, 1], [2, 2], [1, 2]), ([0, 0], [2, 0], [2, 3]), ([2, 0], [0, 2], [0, 1]), ([0, 1], [1, 0], [3, 1]), ([0, 0], [0, 0], [0, 0])]
WEIGHT = [1.0, 0.5, 0.0, 2.0]


def build(objs, dims=3, boxes=None):
  gl = [[g[:dims] for g in GL]] * len(objs)
  pl = [[tuple(a + b for a, b in zip(g[:dims], OFFS[o][:dims])) for g, o in zip(GL, OBJ[k][2])] for k in objs]
  g = kd.KeypointsTensors(location=f32(gl), visibility=tf.constant([OBJ[k][0] for k in objs]))
  p = kd.KeypointsTensors(location=f32(pl), visibility=tf.constant([OBJ[k][1] for k in objs]))
  return gl, pl, g, p


def div(a, b):
  return a / b if b else 0.0


def fam_aggregate(c):
  n = 1 + c.choose(3)
  objs = [c.choose(len(OBJ)) for _ in range(n)]
  cut = c.pick([x for k in range(n) for x in itertools.combinations(range(1, n), k)])
  wk = c.choose(3)                # none, per object, per point
  sz = [c.choose(3) for _ in range(n)] if n < 3 else [c.choose(2)] + [0] * (n - 1)
  if not c.go():
    return
  judge_aggregate(c, objs, np.split(np.arange(n), cut), wk, sz)


def fam_aggregate_long(c):
  """40 objects in few or many batches."""
  n = c.pick([17, 40])
  a, b = c.choose(len(OBJ)), c.choose(5)
  size = c.pick([1, 3, 16, 40])
  wk = c.choose(3)
  empty = c.pick([0, 4])
  if not m.thorough() and (a + b + size + wk + empty) % 2:
    return
  if not c.go():
    return
  objs = [(a + i * (b + 1) + i * i // 7) % len(OBJ) for i in range(n)]
  sz = [int(bool(empty) and i % empty == 1) for i in range(n)]
  judge_aggregate(c, objs, np.split(np.arange(n), range(size, n, size)), wk, sz)


def judge_aggregate(c, objs, parts, wk, sz):
  n, dims = len(objs), 3
  boxes = [((0.0, 0.0, 0.0), [(4.0, 3.0, 2.0), (0.0, 0.0, 0.0), (4.0, 0.0, 2.0)][s], 0.3) for s in sz]   # whole, empty (padding), flat
  wo = [WEIGHT[(i + objs[0]) % 4] for i in range(n)]
  wp = [[WEIGHT[(i + j) % 4] for j in range(2)] for i in range(n)]
  what = 'objects %s weights %s in batches %s, empty boxes %s' % (objs, [None, wo, wp][wk], [x.tolist() for x in parts], sz)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%d objects in %d batches' % (n, len(parts)))
  scales, ths, pck_t = [0.15, 0.3], (0.5, 0.75, 0.9), (0.1, 0.4, 1.0)
  pen = 0.8
  ms = dict(mpjpe=km.MeanPerJointPositionError(name='A'), pem=km.PoseEstimationMetric(mismatch_penalty=pen, name='B'),
            prec=km.KeypointVisibilityPrecision(name='C'), rec=km.KeypointVisibilityRecall(name='D'),
            pck=km.PercentageOfCorrectKeypoints(thresholds=pck_t, name='E'), pckt=km.PercentageOfCorrectKeypoints(thresholds=pck_t, per_type_scales=[0.5, 3.0], name='F'),
            pcko=km.PercentageOfCorrectKeypoints(thresholds=pck_t, per_type_scales=[0.5, 3.0], use_object_scale=True, name='G'))
  if wk != 1:
    ms['oks'] = km.AveragePrecisionAtOKS(per_type_scales=scales, thresholds=ths, name='H')
  for part in parts:
    c.step()
    _, _, g, p = build([objs[i] for i in part])
    w = None if wk == 0 else f32([(wo if wk == 1 else wp)[i] for i in part])
    for k, x in ms.items():
      # The thresholds that do not use the box accept its absence.
      x.update_state((g, p, None if k in ('mpjpe', 'pem', 'pck') and sz[0] == 1 else bbt([boxes[i] for i in part])), sample_weight=w)
  # Reference: pooled sums.
  acc = {}
  for i, o in enumerate(objs):
    gv, pv, off = OBJ[o]
    for k in range(2):
      w = 1.0 if wk == 0 else wo[i] if wk == 1 else wp[i][k]
      d = float(np.linalg.norm(OFFS[off[k]]))
      both = w * (gv[k] > 0) * (pv[k] > 0)
      add = lambda name, num, den: acc.__setitem__(name, (acc.get(name, (0, 0))[0] + num, acc.get(name, (0, 0))[1] + den))
      add('A', both * d, both)
      g2, p2 = gv[k] == 2, pv[k] == 2
      add('B', w * (min(d, pen) if g2 and p2 else pen) if g2 or p2 else 0, w if g2 or p2 else 0)
      add('C', w * (g2 and p2), w * p2)
      add('D', w * (g2 and p2), w * g2)
      vol = float(np.prod(boxes[i][1])) ** (1 / 3)
      for nm, f in (('E', 1.0), ('F', [0.5, 3.0][k]), ('G', [0.5, 3.0][k] * vol)):
        for t in pck_t:
          if abs(d - t * f) < 1e-4 and d > 0:
            return                      # on the threshold
          add('%s @ %.2f' % (nm, t), both * (d <= t * f), both)
  want = {k: div(*v) for k, v in acc.items()}
  if 'oks' in ms:
    tot = {t: [0.0, 0.0] for t in ths}
    for part in parts:
      ws = [sum(wp[i]) if wk == 2 else 1.0 for i in part]
      for i, w in zip(part, ws):
        w = (div(w, sum(ws)) if wk == 2 else 1.0) * (sz[i] != 1)
        o = objs[i]
        gl, pl, _, _ = build([o])
        s = ref_oks(gl[0], OBJ[o][0], pl[0], OBJ[o][1], boxes[i], scales, wp[i] if wk == 2 else None)
        for t in ths:
          if abs(s - t) < 1e-4:
            return
          tot[t][0] += w * (s > t)
          tot[t][1] += w
    for t in ths:
      want['H P @ %.2f' % t] = div(*tot[t])
    want['H AP'] = sum(div(*tot[t]) for t in ths) / len(ths)
  got = {}
  for x in ms.values():
    got.update(x.result())
  if sorted(got) != sorted(want):
    return c.fail('metric-names', '%s: %s, expected %s' % (what, sorted(got), sorted(want)))
  for k in sorted(want):
    if not near(got[k].numpy() if hasattr(got[k], 'numpy') else got[k], want[k], 1e-3):
      c.fail('average-precision' if k == 'H AP' else 'metric', '%s: %s is %s, expected %g' % (what, k, got[k], want[k]))


SUB = {'X': (T3[0],), 'YZ': (T3[2], T3[1]), 'ALL': T3}


def fam_combined(c):
  vis = [c.choose(3) for _ in range(3)]
  far = c.choose(3)
  n = 1 + c.choose(2)
  order = c.pick(list(itertools.permutations(T3)))
  if not c.go():
    return
  sc = {T3[0]: 0.1, T3[1]: 0.4, T3[2]: 0.9, KT.KEYPOINT_TYPE_LEFT_KNEE: 0.7}
  cfg = km.CombinedMetricsConfig(src_order=order, subsets=SUB, per_type_scales=sc, oks_thresholds=(0.5, 0.8), pck_thresholds=(0.2, 0.5))
  off = {t: 0.13 * (i + 1) * (3 if far == i else 1) for i, t in enumerate(T3)}
  gl = [[(i, 0.5 * i, 0.0) for i, _ in enumerate(order)]] * n
  pl = [[(i + off[t], 0.5 * i, 0.0) for i, t in enumerate(order)]] * n
  gv = [[vis[T3.index(t)] for t in order]] + [[2] * 3] * (n - 1)
  g = kd.KeypointsTensors(location=f32(gl), visibility=tf.constant(gv))
  p = kd.KeypointsTensors(location=f32(pl), visibility=tf.constant([[2] * 3] * n))
  boxes = [((0.0, 0.0, 0.0), (2.0, 2.0, 2.0), 0.0)] * n
  metric = km.create_combined_metric(cfg)
  metric.update_state((g, p, bbt(boxes)))
  got = metric.result()
  what = 'visibility %s order %s far %d, %d objects' % (vis, [T3.index(t) for t in order], far, n)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%d objects' % n)
  want = {}
  for s, types in SUB.items():
    ix = [order.index(t) for t in types]
    a = [0.0, 0.0]
    pck = {t: [0.0, 0.0] for t in (0.2, 0.5)}
    oks = {t: [0.0, 0.0] for t in (0.5, 0.8)}
    for r in range(n):
      for i in ix:
        if gv[r][i]:
          d = off[order[i]]
          a[0] += d
          a[1] += 1
          for t in pck:
            if abs(d - t * sc[order[i]] * 2) < 1e-4:
              return
            pck[t][0] += d <= t * sc[order[i]] * 2
            pck[t][1] += 1
      v = ref_oks([gl[r][i] for i in ix], [gv[r][i] for i in ix], [pl[r][i] for i in ix], [2] * len(ix), boxes[r], [sc[order[i]] for i in ix], None)
      for t in oks:
        if abs(v - t) < 1e-4:
          return
        oks[t][0] += v > t
        oks[t][1] += 1
    want['MPJPE/' + s] = div(*a)
    for t in pck:
      want['PCK/%s @ %.2f' % (s, t)] = div(*pck[t])
    for t in oks:
      want['OKS/%s P @ %.2f' % (s, t)] = div(*oks[t])
    want['OKS/%s AP' % s] = sum(div(*x) for x in oks.values()) / 2
  if sorted(got) != sorted(want):
    return c.fail('metric-names', '%s: %s, expected %s' % (what, sorted(got), sorted(want)))
  for k in want:
    if not near(got[k].numpy() if hasattr(got[k], 'numpy') else got[k], want[k], 1e-3):
      c.fail('combined', '%s: %s is %s, expected %g' % (what, k, got[k], want[k]))
  for bad in (dict(src_order=T3 + (KT.KEYPOINT_TYPE_LEFT_WRIST,), subsets=SUB), dict(src_order=order, subsets={'W': (KT.KEYPOINT_TYPE_LEFT_WRIST,)})):
    try:
      km.CombinedMetricsConfig(per_type_scales=sc, oks_thresholds=(), pck_thresholds=(), **bad)
      c.fail('config', '%s was accepted' % bad)
    except ValueError:
      pass


# ------------------------------------------------------------------- matching
def assignments(n, k, ok):
  """Every partial one-to-one assignment whose pairs satisfy ok."""
  def rec(i, used, cur):
    if i == n:
      yield tuple(cur)
      return
    yield from rec(i + 1, used, cur)
    for j in range(k):
      if j not in used and ok(i, j):
        yield from rec(i + 1, used | {j}, cur + [(i, j)])
  return list(rec(0, frozenset(), []))


def best(n, k, gain):
  """All assignments of positive gain pairs with the greatest total (within rounding)."""
  al = assignments(n, k, lambda i, j: gain[i][j] > 1e-9)
  tot = [sum(gain[i][j] for i, j in a) for a in al]
  return [frozenset(a) for a, t in zip(al, tot) if t > max(tot) - 1e-4]


def point_errors(gl, gv, pl, pv, pen):
  out = []
  for a, u, b, v in zip(gl, gv, pl, pv):
    g2, p2 = u == 2, v == 2
    out.append(0.0 if not g2 and not p2 else min(pen, float(np.linalg.norm(np.subtract(a, b)))) if g2 and p2 else pen)
  return out


def fam_missing(c):
  n = c.choose(6)
  keep = [i for i in range(n) if c.choose(2)]
  rev = c.choose(2)
  if not c.go():
    return
  ids = keep[::-1] if rev else keep
  got = km.missing_ids(tf.constant(np.array(ids, np.int32)), n).numpy().tolist()
  c.state((n, ids))
  c.sample(lambda: 'ids %s of %d' % (ids, n))
  c.outcome('ids')
  if sorted(got) != [i for i in range(n) if i not in keep]:
    c.fail('missing-ids', 'ids %s of %d: missing %s' % (ids, n, got))


X = [0.0, 0.1, 0.3, 2.0]


def fam_mean_error(c):
  n, k = 1 + c.choose(3), c.choose(3)
  gv = [c.choose(3) for _ in range(n)]       # both visible, one visible, none
  px = [c.choose(4) for _ in range(k)]
  pv = [c.choose(2) for _ in range(k)]
  mk = (c.choose(1 << min(n * k, 4)) if n * k < 6 or m.thorough() else c.pick([0, 5, 8])) if n * k else 0
  pen = c.pick([0.25, 1.0]) if n * k < 4 or m.thorough() else 0.25
  if not c.go():
    return
  V = [[2, 2], [1, 2], [0, 0]]
  g_l = [[(0.2 * i, 0, 0), (0.2 * i, 1, 0)] for i in range(n)]
  p_l = [[(X[x], 0.02 * j, 0), (X[x] + 0.05, 1, 0)] for j, x in enumerate(px)]
  g_v, p_v = [V[x] for x in gv], [V[x] for x in pv]
  mask = [[not (mk >> ((i * k + j) % 4)) & 1 for j in range(k)] for i in range(n)]
  what = 'truths %s predictions at %s %s excluded %s penalty %g' % (gv, px, pv, mk, pen)
  c.state((what, n, k))
  c.sample(lambda: what)
  c.outcome('%dx%d' % (n, k))
  g = kd.KeypointsTensors(location=f32(g_l), visibility=tf.constant(g_v))
  p = kd.KeypointsTensors(location=f32(np.array(p_l).reshape(k, 2, 3)), visibility=tf.constant(np.array(p_v, np.int32).reshape(k, 2)))
  r = km.mean_error_matching(g, p, tf.constant(np.array(mask, bool).reshape(n, k)), pen)
  got = frozenset(zip(r.gt.numpy().tolist(), r.pr.numpy().tolist()))
  gain = [[pen - float(np.mean(point_errors(g_l[i], g_v[i], p_l[j], p_v[j], pen))) if mask[i][j] else 0.0 for j in range(k)] for i in range(n)]
  gain = [[x if x > 1e-5 else 0.0 for x in row] for row in gain]
  if len(r.gt.numpy()) != len(got) or got not in best(n, k, gain):
    c.fail('mean-error', '%s: matched %s, expected one of %s' % (what, sorted(got), [sorted(b) for b in best(n, k, gain)]))


def ref_matchings(gl, gv, gb, pl, pv, dmax):
  n, k, q = len(gv), len(pv), len(gv[0])
  dist = [[[float(np.linalg.norm(ref_shift(list(pl[j][t]), gb[i]))) if pv[j][t] == 2 else math.inf for t in range(q)] for j in range(k)] for i in range(n)]
  seen = [2 in v for v in gv]
  taken = [any(seen[i] and any(gv[i][t] == 2 and pv[j][t] == 2 and np.linalg.norm(np.subtract(gl[i][t], pl[j][t])) < dmax for t in range(q)) for i in range(n)) for j in range(k)]
  score = [[sum(d < 1e-5 for d in dist[i][j]) if not seen[i] and not taken[j] else 0 for j in range(k)] for i in range(n)]
  res = set()
  for s1 in best(n, k, score):
    a, b = {i for i, _ in s1}, {j for _, j in s1}
    gain = [[dmax - float(np.mean(point_errors(gl[i], gv[i], pl[j], pv[j], dmax))) if min(dist[i][j]) <= dmax and i not in a and j not in b else 0.0 for j in range(k)] for i in range(n)]
    gain = [[x if x > 1e-5 else 0.0 for x in row] for row in gain]
    for s2 in best(n, k, gain):
      res.add(s1 | s2)
  near_edge = any(abs(d - dmax) < 1e-4 or 1e-7 < d < 1e-4 for a in dist for b in a for d in b)
  return res, near_edge


def rows_of(t, with_box):
  """One hashable row per object."""
  loc, vis = t.keypoints.location.numpy(), t.keypoints.visibility.numpy()
  out = []
  for i in range(len(loc)):
    r = tuple(np.round(loc[i], 4).ravel().tolist()) + tuple(vis[i].tolist())
    if with_box:
      r += tuple(np.round(np.concatenate([t.box.center.numpy()[i], t.box.size.numpy()[i], [t.box.heading.numpy()[i]]]), 4).tolist())
    out.append(tuple(float(x) + 0.0 for x in r))
  return out


def check_reorder(c, what, pair, got, matchings, gv, pv, boxes_pr):
  g_rows, p_rows = rows_of(pair.gt, True), rows_of(pair.pr, boxes_pr)
  gg, pp = rows_of(got.gt, True), rows_of(got.pr, boxes_pr)
  if (got.pr.box is None) == boxes_pr or len(gg) != len(pp):
    return c.fail('reorder', '%s: %d truths beside %d predictions' % (what, len(gg), len(pp)))
  zero_g, zero_p = tuple([0.0] * len(g_rows[0])), tuple([0.0] * (len(p_rows[0]) if p_rows else len(pp[0]) if pp else 0))
  have = sorted(zip(gg, pp))
  for mt in matchings:
    rows = [(g_rows[i], p_rows[j]) for i, j in mt if 2 in gv[i]]
    mg, mp = {i for i, _ in mt}, {j for _, j in mt}
    rows += [(g_rows[i], zero_p) for i in range(len(gv)) if i not in mg and 2 in gv[i]]
    rows += [(zero_g, p_rows[j]) for j in range(len(pv)) if j not in mp and 2 in pv[j]]
    if sorted(rows) == have:
      return None
  return c.fail('reorder', '%s: pairs %s, admissible matchings %s' % (what, have, [sorted(x) for x in matchings]))


PLACE = [(0.0, 0.0), (0.35, 0.1), (3.0, 0.0)]


def fam_matcher(c):
  n, k = c.pick([(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 0), (2, 3)] if m.thorough() else [(1, 1), (2, 1), (1, 2), (2, 2), (1, 0)])
  g = [(c.choose(3), c.choose(3)) for _ in range(n)]    # place, visibility
  p = [(c.choose(3), c.choose(2), c.choose(3) if n * k < 4 or m.thorough() else c.choose(2)) for _ in range(k)]    # place, visibility, shift
  h = c.choose(2) if n * k < 4 or m.thorough() else 1
  dmax = c.pick([0.25, 1.0]) if n * k < 4 or m.thorough() else 0.25
  if not c.go():
    return
  V = [[2, 2], [2, 1], [0, 0]]
  gl = [[(PLACE[a][0], PLACE[a][1] + 0.01 * i, 0.1), (PLACE[a][0] + 0.5, PLACE[a][1], -0.2)] for i, (a, _) in enumerate(g)]
  gv = [V[v] for _, v in g]
  gl = [l if 2 in v else [(0.0, 0.0, 0.0)] * 2 for l, v in zip(gl, gv)]
  gb = [((PLACE[a][0] + 0.3, PLACE[a][1], 0.0), (1.1, 0.7, 1.3 + 0.1 * i), 0.5 * h) for i, (a, _) in enumerate(g)]
  sh = [(0.03, 0.02, 0.0), (0.17, -0.06, 0.05), (0.55, 0.4, 0.1)]
  pl = [[tuple(np.add((PLACE[a][0], PLACE[a][1], 0.1), sh[s]) + [0, 0.013 * j, 0]), tuple(np.add((PLACE[a][0] + 0.5, PLACE[a][1], -0.2), sh[s]))] for j, (a, _, s) in enumerate(p)]
  pv = [V[v] for _, v, _ in p]
  what = 'truths (place, visibility) %s predictions (place, visibility, shift) %s heading %d distance %g' % (g, p, h, dmax)
  want, edge = ref_matchings(gl, gv, gb, pl, pv, dmax)
  c.state(what)
  c.sample(lambda: what)
  if edge:
    return c.outcome('on an edge, not judged')
  c.outcome('%dx%d %d admissible' % (n, k, len(want)))
  gt = kd.PoseEstimationTensors(kd.KeypointsTensors(location=f32(gl), visibility=tf.constant(gv)), bbt(gb))
  prb = None if h == 0 else kd.BoundingBoxTensors(center=f32(np.arange(3. * k).reshape(k, 3)), size=f32(np.ones((k, 3))), heading=f32(np.zeros(k)))
  pr = kd.PoseEstimationTensors(kd.KeypointsTensors(location=f32(np.array(pl).reshape(k, 2, 3)), visibility=tf.constant(np.array(pv, np.int32).reshape(k, 2))), prb)
  pair = km.PoseEstimationPair(gt, pr)
  matcher = km.create_matcher(km.MeanErrorMatcherConfig(max_closest_keypoint_distance=dmax))
  ids = matcher.matching_ids(pair)
  got = frozenset(zip(ids.gt.numpy().tolist(), ids.pr.numpy().tolist()))
  if len(got) != len(ids.gt.numpy()) or got not in want:
    return c.fail('matcher', '%s: matched %s, expected one of %s' % (what, sorted(got), [sorted(x) for x in want]))
  check_reorder(c, what, pair, matcher.reorder(pair), want, gv, pv, prb is not None)


def fam_iou(c):
  n, k = c.choose(3) + 1, c.choose(3)
  gx = [c.choose(3) for _ in range(n)]
  px = [c.choose(4) for _ in range(k)]
  gv = [c.choose(2) for _ in range(n)]
  th = c.pick([0.5, 0.2])
  typ = c.pick([metrics_pb2.MatcherProto.TYPE_HUNGARIAN, metrics_pb2.MatcherProto.TYPE_SCORE_FIRST]) if m.thorough() else metrics_pb2.MatcherProto.TYPE_HUNGARIAN
  if len(set(gx)) < n or not c.go():
    return
  V = [[2, 2], [1, 0]]
  g_v, p_v = [V[x] for x in gv], [[2, 1]] * k
  gb = [((10.0 * x, 0.0, 1.0), (4.0, 2.0, 1.5), 0.0) for x in gx]
  pb = [((10.0 * (x % 3) + (0.3 if x < 3 else 1.5) + 0.11 * j, 0.0, 1.0), (4.0, 2.0, 1.5), 0.0) for j, x in enumerate(px)]
  if n and k == 0:
    pbx = kd.BoundingBoxTensors(center=f32(np.zeros((0, 3))), size=f32(np.zeros((0, 3))), heading=f32(np.zeros(0)))
  else:
    pbx = bbt(pb)
  gt = kd.PoseEstimationTensors(kd.KeypointsTensors(location=f32([[(x, i, 1), (x, i, 2)] for i, x in enumerate(gx)]), visibility=tf.constant(g_v)), bbt(gb))
  pr = kd.PoseEstimationTensors(kd.KeypointsTensors(location=f32(np.array([[(x, j, 3), (x, j, 4)] for j, x in enumerate(px)], float).reshape(k, 2, 3)), visibility=tf.constant(np.array(p_v, np.int32).reshape(k, 2))), pbx)
  iou = lambda a, b: max(0.0, 4 - abs(a - b)) / (4 + min(4, abs(a - b)))
  gain = [[v if (v := iou(a[0][0], b[0][0])) >= th else 0.0 for b in pb] for a in gb]
  what = 'truths at %s visible %s predictions at %s threshold %g' % (gx, gv, px, th)
  c.state((what, typ))
  c.sample(lambda: what)
  c.outcome('%dx%d' % (n, k))
  pair = km.PoseEstimationPair(gt, pr)
  matcher = km.create_matcher(km.CppMatcherConfig(method=typ, iou_threshold=th))
  want = best(n, k, gain)
  got = matcher.reorder(pair)
  check_reorder(c, what, pair, got, want, g_v, p_v, True)


def fam_crowd(c):
  """Many poses at places of their own: each prediction belongs to one truth."""
  n = c.pick([9, 25, 60] if m.thorough() else [9, 25])
  kind = c.choose(3)
  mul = c.pick([1, 2, 7])
  lone = c.pick([0, 1, 5])            # truths without a prediction
  extra = c.pick([0, 3])
  lay = c.choose(2)
  if not c.go():
    return
  at = [(12.0 * (i % 5), 9.0 * (i // 5)) if lay else (8.0 * i, 0.0) for i in range(n + extra)]
  have = [i for i in range(n) if not lone or i % (lone + 1) != 0] + list(range(n, n + extra))
  k = len(have)
  order = [have[(j * mul + 3) % k] for j in range(k)] if math.gcd(mul, k) == 1 else have[::-1]
  shape = lambda x, y, d: [(x + d, y, 0.1), (x + 0.5, y + d, -0.2)]
  gl = [shape(*at[i], 0.0) for i in range(n)]
  gv = [[2, 2] if i % 3 else [2, 1] for i in range(n)]
  gb = [((at[i][0] + 0.25, at[i][1], 0.0), (2.0 + 0.01 * i, 1.5, 1.3), 0.0) for i in range(n)]
  pl = [shape(*at[i], 0.01 * (1 + i % 5)) for i in order]
  pv = [[2, 2]] * k
  pb = [((at[i][0] + 0.3, at[i][1], 0.0), (2.0, 1.5, 1.3), 0.0) for i in order]
  want = {frozenset((i, j) for j, i in enumerate(order) if i < n)}
  what = '%d poses, %d predictions, kind %d, order by %d, layout %d' % (n, k, kind, mul, lay)
  c.state((what, lone, extra))
  c.sample(lambda: what)
  c.outcome('%d truths' % n)
  gt = kd.PoseEstimationTensors(kd.KeypointsTensors(location=f32(gl), visibility=tf.constant(gv)), bbt(gb))
  pr = kd.PoseEstimationTensors(kd.KeypointsTensors(location=f32(pl), visibility=tf.constant(np.array(pv, np.int32))), bbt(pb))
  pair = km.PoseEstimationPair(gt, pr)
  if kind == 0:
    r = km.mean_error_matching(gt.keypoints, pr.keypoints, tf.constant(np.ones((n, k), bool)), 0.25)
    got = frozenset(zip(r.gt.numpy().tolist(), r.pr.numpy().tolist()))
    if got not in want or len(r.gt.numpy()) != len(got):
      c.fail('mean-error', '%s: matched %s, expected %s' % (what, sorted(got), sorted(list(want)[0])))
    return
  matcher = km.create_matcher(km.MeanErrorMatcherConfig(max_closest_keypoint_distance=0.25) if kind == 1 else km.CppMatcherConfig(method=metrics_pb2.MatcherProto.TYPE_HUNGARIAN, iou_threshold=0.5))
  check_reorder(c, what, pair, matcher.reorder(pair), want, gv, pv, True)


m = mcpy.Main()
m.family('labels', 'frames of up to 3 laser labels and 2 camera labels over associations', fam_labels)
m.family('tensors', 'every state of 3 keypoints x 12 orders x proto order x kind x width', fam_tensors)
m.family('boxes', 'boxes over sizes, places, headings', fam_boxes)
m.family('poses', 'up to 3 poses with and without keypoints and boxes', fam_poses)
m.family('displacement', 'one or two boxes x headings, 7 points', fam_displacement)
m.family('rotated labels', 'laser labels with headings against points', fam_rotated)
m.family('similarity', 'truth and predicted visibilities of two points x offsets x boxes x weights', fam_oks)
m.family('aggregation', 'up to 3 objects of 6 kinds x all splits into batches x weights x empty and flat boxes', fam_aggregate)
m.family('aggregation-long', '17 and 40 objects of 6 kinds in batches of 1 to 40 x weights x empty boxes', fam_aggregate_long)
m.family('crowd', '9 to 60 poses and predictions in any order, three matchers', fam_crowd)
m.family('combined', 'all metrics over subsets of 3 keypoints', fam_combined)
m.family('missing ids', 'all id subsets of up to 5', fam_missing)
m.family('mean error matching', 'up to 3 truths and 2 predictions x candidate masks', fam_mean_error)
m.family('pose matcher', 'up to 2 truths and 2 predictions over places, visibilities and shifts', fam_matcher)
m.family('iou matcher', 'box matching and reordering', fam_iou)
raise SystemExit(m.run())

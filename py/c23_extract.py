"""C23: v1 frames to v2 components: every field arrives, absent parts stay absent."""
import itertools
import os
import sys
import zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcpy
from waymo_open_dataset import dataset_pb2
from waymo_open_dataset import label_pb2
from waymo_open_dataset.protos import keypoint_pb2
from waymo_open_dataset.v2.perception.compat_v1 import box
from waymo_open_dataset.v2.perception.compat_v1 import camera_image
from waymo_open_dataset.v2.perception.compat_v1 import context
from waymo_open_dataset.v2.perception.compat_v1 import interfaces
from waymo_open_dataset.v2.perception.compat_v1 import keypoints
from waymo_open_dataset.v2.perception.compat_v1 import lidar
from waymo_open_dataset.v2.perception.compat_v1 import pose
from waymo_open_dataset.v2.perception.compat_v1 import segmentation
from waymo_open_dataset.v2.perception.utils import lidar_utils
from waymo_open_dataset.v2.perception import lidar as v2_lidar

NAMES = {0: 'seg-a', 1: ''}
STAMPS = [1553735853462203, 0]


def new_frame(c_name='seg-a', stamp=1553735853462203):
  f = dataset_pb2.Frame()
  f.context.name = c_name
  f.timestamp_micros = stamp
  return f


def values(which, n):
  """n distinct values; set 1 starts with zeros, as unset fields read."""
  base = [1.5, -2.25, 3.125, 1e5, -7.0625, 0.75, 11.5, -0.1, 1e-9, 12345.678]
  v = [base[i % 10] + 20 * (i // 10) for i in range(n)]
  if which == 1:
    v = [0.0] * n
  if which == 2:
    v = [0.0 if i % 2 else x for i, x in enumerate(v)]
  return v


def run(c, key, ext, src, want, what, frame, field=None):
  """want: list of {column: value}; None: must raise; 'refuse': ExtractionError."""
  before = frame.SerializeToString()
  c.step()
  try:
    got = list(ext(src))
  except Exception as e:
    if mcpy.is_shim_missing(e):
      raise
    if want == 'refuse':
      if not isinstance(e, interfaces.ExtractionError):
        c.fail(key, '%s: raised %r, expected ExtractionError' % (what, e))
    elif want is not None:
      c.fail(key, '%s: raised %r' % (what, e))
    return
  if want in (None, 'refuse'):
    return c.fail(key, '%s: gave %s, expected an error' % (what, got))
  if frame.SerializeToString() != before:
    c.fail(key, what + ': the frame was changed')
  if len(got) != len(want):
    return c.fail(key, '%s: %d components, expected %d' % (what, len(got), len(want)))
  for g, w in zip(got, want):
    if type(g) is not type(ext).component():
      c.fail(key, '%s: a %s, announced %s' % (what, type(g), type(ext).component()))
    cols = dict(g.to_flatten_dict())
    pre = '[%s].' % type(g).__name__
    w = {k if k.startswith('key.') else pre + k: v for k, v in w.items()}
    if [f.name for f in type(ext).schema()] != list(cols):
      c.fail(key, what + ': columns differ from the announced schema')
    for k in sorted(set(w) | set(cols)):
      if k not in cols or (k not in w and cols[k] is not None):
        return c.fail(key, '%s: column %s %s' % (what, k, 'missing' if k not in cols else 'should be missing, is %r' % (cols[k],)))
      if k not in w:
        continue
      x, y = cols[k], w[k]
      if isinstance(y, (list, tuple)):
        ok = x is not None and list(x) == list(y)
      else:
        ok = x == y and (y is None) == (x is None)
      if not ok:
        return c.fail(key, '%s: column %s is %r, expected %r' % (what, k, x, y))
    back = type(g).from_dict(cols)
    if dict(back.to_flatten_dict()) != cols:
      return c.fail(key, what + ': does not survive a round trip through columns')


BOX3 = ['center_x', 'center_y', 'center_z', 'length', 'width', 'height', 'heading']
COL3 = ['center.x', 'center.y', 'center.z', 'size.x', 'size.y', 'size.z', 'heading']
BOX2 = ['center_x', 'center_y', 'length', 'width']
COL2 = ['center.x', 'center.y', 'size.x', 'size.y']


def fill(msg, fields, vals):
  for f, v in zip(fields, vals):
    setattr(msg, f, v)


ID22 = ['gS4P9aeq8kK0kBvmp0QCCw', 'a_FRONT_b-_0123456789_', '______________________']


def frame_key(f):
  return {'key.segment_context_name': f.context.name, 'key.frame_timestamp_micros': f.timestamp_micros}


def fam_lidar_box(c):
  present = c.flip()
  which = c.choose(3)
  missing = c.pick([None] + BOX3) if present and which == 0 else None
  meta = c.choose(7)      # none, xy, xyz, zeros, no speed x (refused), no speed, no acceleration
  det = c.pick([None, 0, 1, 2])
  trk = c.pick([None, 0, 1, 2])
  pts = c.pick([None, (0, 0), (7, 3)])
  typ = c.pick([None, 1, 4])
  oid = c.pick(['', 'obj'])
  if not c.go():
    return
  f = new_frame()
  f.laser_labels.add()
  l = f.laser_labels.add()
  l.id = oid
  want = dict(frame_key(f), **{'key.laser_object_id': oid, 'type': typ or 0})
  if typ is not None:
    l.type = typ
  if present:
    v = values(which, 7)
    fill(l.box, BOX3, v)
    want.update({'box.' + k: x for k, x in zip(COL3, v)})
    if missing:
      l.box.ClearField(missing)
  if meta:
    mv = values(0, 6)
    if meta in (3, 5):
      mv[:3] = [0, 0, 0]
    if meta in (3, 6):
      mv[3:] = [0, 0, 0]
    n = ['speed_x', 'speed_y', 'speed_z', 'accel_x', 'accel_y', 'accel_z']
    fill(l.metadata, n, mv)
    if meta in (1,):
      l.metadata.ClearField('speed_z')
      l.metadata.ClearField('accel_z')
      mv[2] = mv[5] = 0
    want.update({k: x for k, x in zip(['speed.x', 'speed.y', 'speed.z', 'acceleration.x', 'acceleration.y', 'acceleration.z'], mv)})
    if meta == 4:
      l.metadata.ClearField('speed_x')
  if det is not None:
    l.detection_difficulty_level = det
  if trk is not None:
    l.tracking_difficulty_level = trk
  if det is not None or trk is not None:
    want.update({'difficulty_level.detection': det or 0, 'difficulty_level.tracking': trk or 0})
  if pts is not None:
    l.num_lidar_points_in_box, l.num_top_lidar_points_in_box = pts
  want.update({'num_lidar_points_in_box': (pts or (0, 0))[0], 'num_top_lidar_points_in_box': (pts or (0, 0))[1]})
  what = 'lidar label box=%s values %d missing %s metadata %d difficulty %s %s points %s type %s' % (present, which, missing, meta, det, trk, pts, typ)
  c.state(what)
  c.sample(lambda: what)
  if not present:
    exp = []
  elif missing or meta == 4:
    exp = None
  else:
    exp = [want]
  c.outcome('refused' if exp is None else '%d components' % len(exp))
  run(c, 'lidar-box', box.LiDARBoxComponentExtractor(), interfaces.LiDARLabelComponentSrc(f, l), exp, what, f)


CAMS = {'FRONT': 1, 'FRONT_LEFT': 2, 'FRONT_RIGHT': 3, 'SIDE_LEFT': 4, 'SIDE_RIGHT': 5, 'UNKNOWN': 0}


def fam_synced(c):
  cam = c.pick([None, '', 'BACK'] + sorted(CAMS))
  which = c.choose(4)
  other = c.flip()
  missing = c.pick([None] + BOX3) if which == 0 else None
  if not c.go():
    return
  f = new_frame()
  l = f.laser_labels.add()
  l.id = 'obj'
  want = dict(frame_key(f), **{'key.laser_object_id': 'obj'})
  if cam is not None:
    l.most_visible_camera_name = cam
  if other:
    fill(l.box, BOX3, [9.0] * 7)
  if which < 3:
    v = values(which, 7)
    fill(l.camera_synced_box, BOX3, v)
    want.update({'camera_synced_box.' + k: x for k, x in zip(COL3, v)})
    if missing:
      l.camera_synced_box.ClearField(missing)
  want['most_visible_camera_name'] = CAMS.get(cam)
  what = 'synced box camera %r values %d missing %s' % (cam, which, missing)
  exp = [] if not cam or which == 3 else None if missing or cam == 'BACK' else [want]
  c.state((what, other))
  c.sample(lambda: what)
  c.outcome('refused' if exp is None else '%d components' % len(exp))
  run(c, 'synced', box.LiDARCameraSyncedBoxComponentExtractor(), interfaces.LiDARLabelComponentSrc(f, l), exp, what, f)


def fam_camera_box(c):
  kind = c.pick(['camera', 'projected'])
  which = c.choose(4)
  bad = c.pick([None] + BOX2 + ['center_z', 'height', 'heading']) if which == 0 else None
  cam = c.choose(6)
  oid = c.pick(ID22 + ([] if kind == 'projected' else ['', 'short', 'gS4P9aeq8kK0kBvmp0QCCw_FRONT']))
  det = c.pick([None, 0, 1])
  trk = c.pick([None, 0, 2])
  typ = c.pick([None, 2])
  if not c.go():
    return
  f = new_frame()
  f.camera_labels.add().name = (cam + 1) % 6
  holder = f.camera_labels.add() if kind == 'camera' else f.projected_lidar_labels.add()
  holder.name = cam
  l = holder.labels.add()
  name = [k for k, v in CAMS.items() if v == cam][0]
  l.id = oid if kind == 'camera' else oid + '_' + name
  want = dict(frame_key(f), **{'key.camera_name': cam, 'type': typ or 0})
  want['key.camera_object_id' if kind == 'camera' else 'key.laser_object_id'] = oid
  if typ is not None:
    l.type = typ
  if which < 3:
    v = values(which, 4)
    fill(l.box, BOX2, v)
    want.update({'box.' + k: x for k, x in zip(COL2, v)})
    if bad in BOX2:
      l.box.ClearField(bad)
    elif bad:
      setattr(l.box, bad, 0.0)
  if det is not None:
    l.detection_difficulty_level = det
  if trk is not None:
    l.tracking_difficulty_level = trk
  if kind == 'camera' and (det is not None or trk is not None):
    want.update({'difficulty_level.detection': det or 0, 'difficulty_level.tracking': trk or 0})
  what = '%s label %r camera %d values %d bad %s difficulty %s %s type %s' % (kind, l.id, cam, which, bad, det, trk, typ)
  exp = [] if which == 3 else None if bad else [want]
  c.state(what)
  c.sample(lambda: what)
  c.outcome(kind + (' refused' if exp is None else ' %d components' % len(exp)))
  ext = box.CameraBoxComponentExtractor() if kind == 'camera' else box.ProjectedLiDARBoxComponentExtractor()
  run(c, kind, ext, interfaces.CameraLabelComponentSrc(f, holder, l), exp, what, f)
  # association of the same label
  for k in (0, 1, 2) if kind == 'camera' and which == 3 else ():
    if k:
      l.association.laser_object_id = ['', 'lidar-obj'][k - 1]
    exp = [dict(frame_key(f), **{'key.camera_name': cam, 'key.camera_object_id': oid, 'key.laser_object_id': l.association.laser_object_id})] if k else []
    run(c, 'association', box.CameraToLiDARBoxAssociationComponentExtractor(), interfaces.CameraLabelComponentSrc(f, holder, l), exp, what + ' association %d' % k, f)


def fam_keypoints(c):
  kind = c.pick(['camera', 'lidar'])
  has = c.choose(3)    # none, own, the other kind
  n = c.choose(3)
  kps = [(c.pick([1, 5, 20]), c.pick(['', 'type', 'keypoint', 'location', 'visibility', 'flag']) if i == n - 1 else '', c.flip(), c.choose(3)) for i in range(n)]
  extra3d = c.flip()
  if (has != 1 and n) or not c.go():
    return
  f = new_frame()
  if kind == 'camera':
    holder = f.camera_labels.add()
    holder.name = 3
    l = holder.labels.add()
  else:
    l = f.laser_labels.add()
  l.id = 'obj'
  if has:
    sub = l.camera_keypoints if (kind == 'camera') == (has == 1) else l.laser_keypoints
    sub.SetInParent()
  refuse = False
  dims = 2 if kind == 'camera' else 3
  cols = {'type': [], 'occ': [], 'x': [], 'y': [], 'z': []}
  for t, miss, occ, which in kps:
    k = sub.keypoint.add()
    if extra3d and kind == 'camera':
      k.keypoint_3d.location_m.x = 3
    v = values(which, 3)
    inner = k.keypoint_2d if kind == 'camera' else k.keypoint_3d
    loc = inner.location_px if kind == 'camera' else inner.location_m
    fill(loc, 'xyz'[:dims], v)
    inner.visibility.is_occluded = occ
    k.type = t
    if miss == 'type':
      k.ClearField('type')
    elif miss == 'keypoint':
      k.ClearField('keypoint_2d' if kind == 'camera' else 'keypoint_3d')
    elif miss == 'location':
      inner.ClearField('location_px' if kind == 'camera' else 'location_m')
    elif miss == 'visibility':
      inner.ClearField('visibility')
    elif miss == 'flag':
      inner.visibility.ClearField('is_occluded')
      occ = False
    refuse = refuse or miss in ('type', 'keypoint', 'location', 'visibility')
    cols['type'].append(t)
    cols['occ'].append(occ)
    for a, x in zip('xyz', v):
      cols[a].append(x)
  p = 'camera_keypoints[*].' if kind == 'camera' else 'lidar_keypoints[*].'
  q = p + ('keypoint_2d.location_px.' if kind == 'camera' else 'keypoint_3d.location_m.')
  want = dict(frame_key(f), **{p + 'type': cols['type'], p + ('keypoint_2d' if kind == 'camera' else 'keypoint_3d') + '.visibility.is_occluded': cols['occ']})
  want.update({q + a: cols[a] for a in 'xyz'[:dims]})
  if kind == 'camera':
    want.update({'key.camera_name': 3, 'key.camera_object_id': 'obj'})
    src = interfaces.CameraLabelComponentSrc(f, holder, l)
    ext = keypoints.CameraHumanKeypointsFrameExtractor()
  else:
    want.update({'key.laser_object_id': 'obj'})
    src = interfaces.LiDARLabelComponentSrc(f, l)
    ext = keypoints.LiDARHumanKeypointsFrameExtractor()
  what = '%s keypoints kind %d %s' % (kind, has, kps)
  exp = [] if has != 1 else 'refuse' if refuse else [want]
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%s %s' % (kind, 'refused' if exp == 'refuse' else len(exp)))
  if kind == 'camera' and exp not in ('refuse', []):
    # 3D points of camera keypoints may be kept or left out
    got = list(ext(src))
    for g in got:
      for k, v in g.to_flatten_dict().items():
        if 'keypoint_3d' in k:
          want[k.split('].', 1)[1] if k.startswith('[') else k] = v
  run(c, 'keypoints', ext, src, exp, what, f)


def mat(c, cls, h, w, d, which, ints):
  m_ = cls()
  n = h * w * d
  if ints:
    v = [0 if which == 1 else (i * 7) % 1931 - 1 for i in range(n)]
  else:
    v = [0.0 if which == 1 else (i * 0.125 - 3) * (1 + (i % 3)) for i in range(n)]
  m_.data.extend(v)
  m_.shape.dims.extend([h, w, d])
  return zlib.compress(m_.SerializeToString()), v


RI = {'range_image_compressed': (lidar.LiDARComponentExtractor, 4, False),
      'camera_projection_compressed': (lidar.LiDARCameraProjectionComponentExtractor, 6, True),
      'range_image_pose_compressed': (lidar.LiDARPoseComponentExtractor, 6, False),
      'segmentation_label_compressed': (segmentation.LiDARSegmentationLabelComponentExtractor, 2, True)}


def fam_lasers(c):
  field = c.pick(sorted(RI))
  ext, d, ints = RI[field]
  first, second = c.choose(4), c.choose(4)   # no return, other data only, empty bytes, data
  sizes = [(1, 1), (2, 3), (3, 2), (1, 5)]
  s1, s2 = c.pick(sizes) if first == 3 else None, c.pick(sizes) if second == 3 else None
  which = c.choose(2)
  laser_name = c.choose(6)
  if not c.go():
    return
  f = new_frame()
  f.lasers.add().name = (laser_name + 1) % 6
  f.lasers[0].ri_return1.range_image_compressed = mat(c, dataset_pb2.MatrixFloat, 1, 1, 4, 0, False)[0]
  z = f.lasers.add()
  z.name = laser_name
  want = dict(frame_key(f), **{'key.laser_name': laser_name})
  data = {}
  for r, kind, size in ((1, first, s1), (2, second, s2)):
    ret = getattr(z, 'ri_return%d' % r) if kind else None
    if kind == 1:
      ret.SetInParent()
      for o in RI:
        if o != field:
          setattr(ret, o, mat(c, dataset_pb2.MatrixInt32 if RI[o][2] else dataset_pb2.MatrixFloat, 1, 2, RI[o][1], 0, RI[o][2])[0])
    elif kind == 2:
      setattr(ret, field, b'')
    elif kind == 3:
      b, v = mat(c, dataset_pb2.MatrixInt32 if ints else dataset_pb2.MatrixFloat, size[0], size[1], d, which + 0 * r, ints)
      if which == 0 and r == 2:
        mm = (dataset_pb2.MatrixInt32 if ints else dataset_pb2.MatrixFloat)()
        v = [x + 1 for x in v]
        mm.data.extend(v)
        mm.shape.dims.extend([size[0], size[1], d])
        b = zlib.compress(mm.SerializeToString())
      setattr(ret, field, b)
      data[r] = (v, [size[0], size[1], d])
      want['range_image_return%d.values' % r] = v
      want['range_image_return%d.shape' % r] = [size[0], size[1], d]
  pose_only = field == 'range_image_pose_compressed'
  if pose_only:
    want = {k: v for k, v in want.items() if 'return2' not in k}
  exp = [want] if (1 in data or (2 in data and not pose_only)) else []
  what = 'laser %d %s returns %d%s %d%s values %d' % (laser_name, field, first, s1, second, s2, which)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%s %d' % (field, len(exp)))
  src = interfaces.LiDARComponentSrc(f, z)
  run(c, 'lasers', ext(), src, exp, what, f)
  for g in ext()(src):
    for r in (1, 2) if not pose_only else (1,):
      ri = getattr(g, 'range_image_return%d' % r)
      if r in data and (ri is None or list(ri.tensor.shape) != data[r][1] or ri.tensor.numpy().reshape(-1).tolist() != data[r][0]):
        c.fail('tensor', what + ': the tensor view of return %d differs' % r)
      if r not in data and ri is not None:
        c.fail('tensor', what + ': return %d should be absent' % r)
    if not pose_only and hasattr(g, 'range_image_returns') and list(g.range_image_returns) != [g.range_image_return1, g.range_image_return2]:
      c.fail('tensor', what + ': list of returns differs')
  got = lidar_utils.get_laser_by_name(f, v2_lidar.LaserName(laser_name))
  if got.name != laser_name:
    c.fail('lasers', what + ': wrong laser found by name')
  try:
    lidar_utils.get_laser_by_name(f, v2_lidar.LaserName((laser_name + 3) % 6))
    c.fail('lasers', what + ': found a laser that is not there')
  except ValueError:
    pass


def fam_image(c):
  which = c.choose(3)
  have = [c.flip() for _ in range(4)]   # pose, velocity, times, image
  cam = c.choose(6)
  seg = c.choose(5)     # none, empty, no instances, one, three instances
  stamp = c.choose(2)
  if not c.go():
    return
  f = new_frame(stamp=STAMPS[stamp])
  f.images.add().name = (cam + 1) % 6
  im = f.images.add()
  im.name = cam
  v = values(which, 16)
  if have[0]:
    im.pose.transform.extend(v)
  n = ['v_x', 'v_y', 'v_z', 'w_x', 'w_y', 'w_z']
  vel = [round(x * 8) / 8 for x in values(which, 6)]
  if have[1]:
    fill(im.velocity, n, vel)
  tv = values(which, 4)
  tn = ['pose_timestamp', 'shutter', 'camera_trigger_time', 'camera_readout_done_time']
  if have[2]:
    fill(im, tn, tv)
  if have[3]:
    im.image = b'\xff\xd8\x00jpeg'
  key = dict(frame_key(f), **{'key.camera_name': cam})
  want = dict(key, image=im.image)
  want['pose.transform'] = v if have[0] else []
  if not have[1]:
    vel = [0.0] * 6
  want.update(dict(zip(['velocity.linear_velocity.x', 'velocity.linear_velocity.y', 'velocity.linear_velocity.z', 'velocity.angular_velocity.x', 'velocity.angular_velocity.y', 'velocity.angular_velocity.z'], vel)))
  if not have[2]:
    tv = [0.0] * 4
  want.update(dict(zip(['pose_timestamp', 'rolling_shutter_params.shutter', 'rolling_shutter_params.camera_trigger_time', 'rolling_shutter_params.camera_readout_done_time'], tv)))
  what = 'image of camera %d parts %s values %d segmentation %d' % (cam, have, which, seg)
  c.state((what, stamp))
  c.sample(lambda: what)
  c.outcome('segmentation %d' % min(seg, 1))
  src = interfaces.CameraImageComponentSrc(f, im)
  exp = []
  if seg:
    s = im.camera_segmentation_label
    s.SetInParent()
    w = dict(key, panoptic_label_divisor=0, panoptic_label=b'', sequence_id='', num_cameras_covered=b'')
    loc, glo, tr = [], [], []
    if seg > 1:
      s.panoptic_label_divisor, s.panoptic_label, s.sequence_id, s.num_cameras_covered = 1000, b'png\x00', 'sq', b'\x01'
      w = dict(key, panoptic_label_divisor=1000, panoptic_label=b'png\x00', sequence_id='sq', num_cameras_covered=b'\x01')
      for i in range([0, 0, 0, 1, 3][seg]):
        e = s.instance_id_to_global_id_mapping.add()
        a, b, t = [(5, 105, True), (0, 7, False), (9, 0, None)][i]
        e.local_instance_id, e.global_instance_id = a, b
        if t is not None:
          e.is_tracked = t
        loc.append(a), glo.append(b), tr.append(bool(t))
    p = 'instance_id_to_global_id_mapping.'
    w.update({p + 'local_instance_ids': loc, p + 'global_instance_ids': glo, p + 'is_tracked': tr})
    exp = [w]
  run(c, 'image', camera_image.CameraImageComponentExtractor(), src, [want], what, f)
  run(c, 'segmentation', segmentation.CameraSegmentationLabelComponentExtractor(), src, exp, what, f)


def fam_context(c):
  which = c.choose(3)
  cam = c.choose(6)
  ext = c.flip()
  width = c.pick([None, (1920, 1280), (0, 0)])
  roll = c.pick([None, 0, 1, 2, 3, 4, 5])
  las = c.choose(6)
  incl = c.pick([(), (0.5,), (-0.25, 0.0, 0.25)])
  mm = c.flip()
  if not c.go():
    return
  f = new_frame()
  f.context.camera_calibrations.add().name = (cam + 1) % 6
  k = f.context.camera_calibrations.add()
  k.name = cam
  iv = values(which, 9)
  k.intrinsic.extend(iv)
  tv = values((which + 2) % 3, 16)
  if ext:
    k.extrinsic.transform.extend(tv)
  if width:
    k.width, k.height = width
  if roll is not None:
    k.rolling_shutter_direction = roll
  seg = {'key.segment_context_name': 'seg-a'}
  want = dict(seg, **{'key.camera_name': cam, 'extrinsic.transform': tv if ext else [], 'width': (width or (0, 0))[0], 'height': (width or (0, 0))[1], 'rolling_shutter_direction': roll or 0})
  want.update({'intrinsic.' + n: x for n, x in zip(['f_u', 'f_v', 'c_u', 'c_v', 'k1', 'k2', 'p1', 'p2', 'k3'], iv)})
  what = 'camera calibration %d values %d extrinsic %s size %s shutter %s' % (cam, which, ext, width, roll)
  run(c, 'camera-calibration', context.CameraCalibrationComponentExtractor(), interfaces.CameraCalibrationComponentSrc(f, k), [want], what, f)
  f.context.laser_calibrations.add().name = (las + 1) % 6
  z = f.context.laser_calibrations.add()
  z.name = las
  z.beam_inclinations.extend(incl)
  if mm:
    z.beam_inclination_min, z.beam_inclination_max = (-0.5, 0.0) if which else (0.0, 0.75)
  if ext:
    z.extrinsic.transform.extend(tv)
  want = dict(seg, **{'key.laser_name': las, 'extrinsic.transform': tv if ext else [], 'beam_inclination.min': z.beam_inclination_min, 'beam_inclination.max': z.beam_inclination_max})
  if incl:
    want['beam_inclination.values'] = list(incl)
  what = 'laser calibration %d inclinations %s range %s extrinsic %s' % (las, incl, mm, ext)
  run(c, 'laser-calibration', context.LiDARCalibrationComponentExtractor(), interfaces.LiDARCalibrationComponentSrc(f, z), [want], what, f)
  c.state((cam, which, ext, width, roll, las, incl, mm))
  c.sample(lambda: what)
  c.outcome('calibrations')


def fam_frame(c):
  name = c.pick(['seg-a', ''])
  stamp = c.pick(STAMPS + [2**62])
  posek = c.choose(4)
  counts = [(), ((1, 5),), ((1, 0), (2, 3)), ((4, 1), (1, 2), (3, 0))]
  lc, cc = c.pick(counts), c.pick(counts)
  texts = [c.pick([None, '', t]) for t in ('Day', 'location_sf', 'sunny')]
  if not c.go():
    return
  f = new_frame(name, stamp)
  v = values(posek, 16)
  if posek < 3:
    f.pose.transform.extend(v)
  want = dict(frame_key(f), **{'world_from_vehicle.transform': v if posek < 3 else []})
  what = 'frame %r %d pose %d counts %s %s texts %s' % (name, stamp, posek, lc, cc, texts)
  src = interfaces.FrameComponentSrc(f)
  run(c, 'pose', pose.VehiclePoseFrameExtractor(), src, [want], what, f)
  want = frame_key(f)
  for n, t in zip(['time_of_day', 'location', 'weather'], texts):
    if t is not None:
      setattr(f.context.stats, n, t)
    want[n] = t or ''
  for n, p, xs in (('lidar_object_counts', f.context.stats.laser_object_counts, lc), ('camera_object_counts', f.context.stats.camera_object_counts, cc)):
    for t, k in xs:
      o = p.add()
      o.type, o.count = t, k
    if xs:
      want[n + '.types'], want[n + '.counts'] = [t for t, _ in xs], [k for _, k in xs]
  run(c, 'stats', context.StatsComponentExtractor(), src, [want], what, f)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('stats')


KTYPES = sorted(v for k, v in keypoint_pb2.KeypointType.items() if v)


def fam_crowd(c):
  """Frames of real size: one extractor of each kind over every item of two frames, in two orders."""
  n = c.pick([30, 120] + ([400] if m.thorough() else []))
  per = c.pick([1, 25])
  size = c.pick([(8, 33), (64, 265)])
  order = c.choose(3)
  drop = c.choose(3)
  if (size[0] == 64 or n == 120) and not m.thorough() and (order + drop + per) % 3 != (1 if n == 30 else 2):
    return
  if not c.go():
    return
  what = 'frames of %d lidar labels, %d labels per camera, range images of %s, order %d, drop %d' % (n, per, size, order, drop)
  exts = {'lidar-box': box.LiDARBoxComponentExtractor(), 'synced': box.LiDARCameraSyncedBoxComponentExtractor(), 'camera': box.CameraBoxComponentExtractor(), 'projected': box.ProjectedLiDARBoxComponentExtractor(),
          'association': box.CameraToLiDARBoxAssociationComponentExtractor(), 'keypoints': keypoints.LiDARHumanKeypointsFrameExtractor(), 'segmentation': segmentation.CameraSegmentationLabelComponentExtractor(),
          'lasers': lidar.LiDARComponentExtractor(), 'calibration': context.CameraCalibrationComponentExtractor()}
  jobs = []
  for fi in range(2):
    f = new_frame('seg-%d' % fi, STAMPS[0] + 100000 * fi)
    fk = frame_key(f)
    for i in range(n):
      l = f.laser_labels.add()
      l.id = 'obj-%d' % ((i * 7 + fi) % n)
      l.type = 1 + i % 4
      k = dict(fk, **{'key.laser_object_id': l.id})
      v = [i + .125 * j + 1000 * fi for j in range(7)]
      if drop == 0 or i % 5:
        fill(l.box, BOX3, v)
        w = dict(k, type=l.type, num_lidar_points_in_box=i * 3, num_top_lidar_points_in_box=i)
        l.num_lidar_points_in_box, l.num_top_lidar_points_in_box = i * 3, i
        w.update({'box.' + a: x for a, x in zip(COL3, v)})
        if drop == 0 or i % 3:
          mv = [.5 * i, 0., -1., i - 3., .25, 0.]
          fill(l.metadata, ['speed_x', 'speed_y', 'speed_z', 'accel_x', 'accel_y', 'accel_z'], mv)
          w.update(dict(zip(['speed.x', 'speed.y', 'speed.z', 'acceleration.x', 'acceleration.y', 'acceleration.z'], mv)))
        if drop != 1 or i % 2:
          l.detection_difficulty_level = i % 3
          w.update({'difficulty_level.detection': i % 3, 'difficulty_level.tracking': 0})
        jobs.append(('lidar-box', interfaces.LiDARLabelComponentSrc(f, l), [w], f))
      else:
        jobs.append(('lidar-box', interfaces.LiDARLabelComponentSrc(f, l), [], f))
      if i % (2 + drop) == 0:
        l.most_visible_camera_name = sorted(CAMS)[i % 5]
        fill(l.camera_synced_box, BOX3, [x + .5 for x in v])
        w = dict(k, most_visible_camera_name=CAMS[sorted(CAMS)[i % 5]])
        w.update({'camera_synced_box.' + a: x + .5 for a, x in zip(COL3, v)})
        jobs.append(('synced', interfaces.LiDARLabelComponentSrc(f, l), [w], f))
      else:
        jobs.append(('synced', interfaces.LiDARLabelComponentSrc(f, l), [], f))
      if i % 4 == 1:
        nk = 1 + i % 20
        cols = {a: [] for a in ('type', 'occ', 'x', 'y', 'z')}
        for j in range(nk):
          p = l.laser_keypoints.keypoint.add()
          p.type = KTYPES[(i + j) % len(KTYPES)]
          p.keypoint_3d.visibility.is_occluded = bool((i + j) % 2)
          xyz = [i + j, j * .5, -.25 * j]
          fill(p.keypoint_3d.location_m, 'xyz', xyz)
          for a, x in zip(('type', 'occ', 'x', 'y', 'z'), [p.type, bool((i + j) % 2)] + xyz):
            cols[a].append(x)
        p = 'lidar_keypoints[*].'
        w = dict(k, **{p + 'type': cols['type'], p + 'keypoint_3d.visibility.is_occluded': cols['occ']})
        w.update({p + 'keypoint_3d.location_m.' + a: cols[a] for a in 'xyz'})
        jobs.append(('keypoints', interfaces.LiDARLabelComponentSrc(f, l), [w], f))
      else:
        jobs.append(('keypoints', interfaces.LiDARLabelComponentSrc(f, l), [], f))
    cams = [(q * 2 + fi) % 5 + 1 for q in range(5)]
    for q in cams:
      nm = [a for a, b in CAMS.items() if b == q][0]
      for kind, dst in (('camera', f.camera_labels), ('projected', f.projected_lidar_labels)):
        h = dst.add(name=q)
        for i in range(per):
          l = h.labels.add(type=1 + (i + q) % 4)
          oid = 'id_%03d_%d' % ((i * 3) % per, q)
          if kind == 'projected':
            oid = (oid + '_FRONT-abcdefghijklmno')[:22]
          l.id = oid if kind == 'camera' else oid + '_' + nm
          v = [i * 2. + q, 100. * q, 5. + i, 3. + fi]
          fill(l.box, BOX2, v)
          w = dict(fk, **{'key.camera_name': q, 'type': l.type, 'key.camera_object_id' if kind == 'camera' else 'key.laser_object_id': oid})
          w.update({'box.' + a: x for a, x in zip(COL2, v)})
          jobs.append((kind, interfaces.CameraLabelComponentSrc(f, h, l), [w], f))
          if kind == 'camera':
            w = []
            if (i + q + drop) % 3 == 0:
              l.association.laser_object_id = 'obj-%d' % i
              w = [dict(fk, **{'key.camera_name': q, 'key.camera_object_id': oid, 'key.laser_object_id': 'obj-%d' % i})]
            jobs.append(('association', interfaces.CameraLabelComponentSrc(f, h, l), w, f))
      im = f.images.add(name=q)
      g = im.camera_segmentation_label
      w = []
      if drop < 2 or q % 2:
        g.panoptic_label_divisor, g.panoptic_label, g.sequence_id, g.num_cameras_covered = 1000 + q, bytes([q, 0, 7]), 'sq%d' % fi, b'\x01'
        ni = n * 2
        for i in range(ni):
          g.instance_id_to_global_id_mapping.add(local_instance_id=i * 3 % 1000, global_instance_id=10 * q + i, is_tracked=i % 3 == 0)
        p = 'instance_id_to_global_id_mapping.'
        w = [dict(fk, **{'key.camera_name': q, 'panoptic_label_divisor': 1000 + q, 'panoptic_label': bytes([q, 0, 7]), 'sequence_id': 'sq%d' % fi, 'num_cameras_covered': b'\x01',
                         p + 'local_instance_ids': [i * 3 % 1000 for i in range(ni)], p + 'global_instance_ids': [10 * q + i for i in range(ni)], p + 'is_tracked': [i % 3 == 0 for i in range(ni)]})]
      jobs.append(('segmentation', interfaces.CameraImageComponentSrc(f, im), w, f))
      k = f.context.camera_calibrations.add(name=q, width=1920 + q, height=1280, rolling_shutter_direction=q)
      iv, tv = [2000. + j + q for j in range(9)], [j * .5 + q for j in range(16)]
      k.intrinsic.extend(iv)
      k.extrinsic.transform.extend(tv)
      w = {'key.segment_context_name': f.context.name, 'key.camera_name': q, 'extrinsic.transform': tv, 'width': 1920 + q, 'height': 1280, 'rolling_shutter_direction': q}
      w.update({'intrinsic.' + a: x for a, x in zip(['f_u', 'f_v', 'c_u', 'c_v', 'k1', 'k2', 'p1', 'p2', 'k3'], iv)})
      jobs.append(('calibration', interfaces.CameraCalibrationComponentSrc(f, k), [w], f))
    for q in (1, 3) if n > 30 else (2,):
      z = f.lasers.add(name=q)
      w = dict(fk, **{'key.laser_name': q})
      for r in (1, 2):
        h, wd = size if r == 1 else (size[0], size[1] - q)
        v = [float((i * (2 * r + 1) + q) % 4093) * .125 - 3 for i in range(h * wd * 4)]
        mm = dataset_pb2.MatrixFloat()
        mm.data.extend(v)
        mm.shape.dims.extend([h, wd, 4])
        getattr(z, 'ri_return%d' % r).range_image_compressed = zlib.compress(mm.SerializeToString())
        w['range_image_return%d.values' % r], w['range_image_return%d.shape' % r] = v, [h, wd, 4]
      jobs.append(('lasers', interfaces.LiDARComponentSrc(f, z), [w], f))
  if order == 1:
    jobs = jobs[::-1]
  if order == 2:   # the two frames alternate
    half = len(jobs) // 2
    jobs = [j for p in zip(jobs[:half], jobs[half:]) for j in p]
  raw = {id(j[3]): j[3].SerializeToString(deterministic=True) for j in jobs}

  class Same:   # the frame as `run` sees it; compared once, at the end
    def SerializeToString(self):
      return b''
  for i, (kind, src, w, f) in enumerate(jobs):
    run(c, kind, exts[kind], src, w, '%s, item %d (%s)' % (what, i, kind), Same())
  for j in jobs:
    if raw.pop(id(j[3]), None) not in (None, j[3].SerializeToString(deterministic=True)):
      c.fail('crowd', what + ': the frame was changed')
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%d items' % len(jobs))


m = mcpy.Main()
m.family('crowd', 'two frames of 30 / 120 (thorough 400) lidar labels, 5 / 125 camera and projected labels, up to 240 instances, range images up to 64x265, one extractor over all items in 3 orders', fam_crowd)
m.family('lidar boxes', 'every presence pattern of the box, metadata, difficulty, counts and type fields, zeros included', fam_lidar_box)
m.family('synced boxes', 'camera names x presence patterns of the synced box', fam_synced)
m.family('camera boxes', 'native and projected camera boxes and associations: ids, cameras, presence patterns', fam_camera_box)
m.family('keypoints', 'up to 2 keypoints with every missing part, on camera and laser labels', fam_keypoints)
m.family('lasers', 'every combination of present range images, sizes and lasers', fam_lasers)
m.family('images', 'camera images with every presence pattern and segmentation labels', fam_image)
m.family('context', 'camera and laser calibrations', fam_context)
m.family('frame', 'poses and statistics', fam_frame)
raise SystemExit(m.run())

"""C31: camera panoptic labels: codes, global ids, submission, wSTQ."""
import itertools
import math
import os
import sys
import warnings

import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcpy
import tensorflow as tf
from waymo_open_dataset import dataset_pb2
from waymo_open_dataset.protos import camera_segmentation_pb2
from waymo_open_dataset.utils import camera_segmentation_utils as u
from waymo_open_dataset.v2.perception import base as v2_base
from waymo_open_dataset.v2.perception import segmentation as v2_seg
from waymo_open_dataset.wdl_limited.camera_segmentation import camera_segmentation_metrics as metrics

warnings.simplefilter('ignore')
CS = camera_segmentation_pb2.CameraSegmentation


def png(a, dtype):
  a = np.asarray(a, dtype)
  return tf.io.encode_png(a.reshape(a.shape[0], a.shape[1], 1)).numpy()


def proto(sem, inst, div, seq, mapping=(), cover=None):
  p = dataset_pb2.CameraSegmentationLabel(
      panoptic_label_divisor=div, sequence_id=seq,
      panoptic_label=png(np.asarray(sem, np.int64) * div + inst, np.uint16))
  for l, g, t in mapping:
    p.instance_id_to_global_id_mapping.add(local_instance_id=l, global_instance_id=g, is_tracked=t)
  if cover is not None:
    p.num_cameras_covered = png(cover, np.uint8)
  return p


def component(p):
  mm = p.instance_id_to_global_id_mapping
  return v2_seg.CameraSegmentationLabelComponent(
      key=v2_base.CameraKey(segment_context_name='s', frame_timestamp_micros=1, camera_name=1),
      panoptic_label_divisor=p.panoptic_label_divisor, panoptic_label=p.panoptic_label,
      instance_id_to_global_id_mapping=v2_seg.InstanceIdToGlobalIdMapping(
          local_instance_ids=[x.local_instance_id for x in mm],
          global_instance_ids=[x.global_instance_id for x in mm],
          is_tracked=[x.is_tracked for x in mm]),
      sequence_id=p.sequence_id, num_cameras_covered=p.num_cameras_covered)


def flat(a):
  return np.asarray(a).astype(object).reshape(-1).tolist()


# ------------------------------------------------------------------ codes
def fam_codes(c):
  """Panoptic codes separate semantic class and instance for every divisor."""
  dt = c.pick([np.uint8, np.uint16, np.uint32, np.int32, np.int64])
  div = c.pick([0, -1, 1, 2, 3, 256, 1000, 65535, 100000])
  shape = c.pick([(6,), (2, 3), (3, 2, 1)])
  pat = c.choose(6)
  if not c.go():
    return
  what = '%s, divisor %d, shape %s, pattern %d' % (dt.__name__, div, shape, pat)
  c.sample(lambda: what)
  c.state((dt.__name__, div, shape, pat))
  if div <= 0:
    c.outcome('refused')
    try:
      u.decode_semantic_and_instance_labels_from_panoptic_label(np.zeros(shape, dt), div)
    except ValueError:
      return
    c.fail('codes', '%s: divisor accepted' % what)
    return
  top_i = min(div - 1, np.iinfo(dt).max)
  sems = [0, 1, 2, 20, 28, 9]
  insts = [0, 1, top_i, top_i // 2, top_i, 0]
  sem = [sems[(k + pat) % 6] for k in range(6)]
  inst = [min(insts[(k * (pat + 1)) % 6], top_i) for k in range(6)]
  a, b = np.array(sem, dt).reshape(shape), np.array(inst, dt).reshape(shape)
  ref = [s * div + i for s, i in zip(sem, inst)]
  code = u.encode_semantic_and_instance_labels_to_panoptic_label(a, b, div)
  c.outcome('encoded')
  if np.asarray(code).shape != shape or flat(code) != ref:
    c.fail('codes', '%s: (%s, %s) encoded as %s' % (what, sem, inst, flat(code)))
    return
  if a.tolist() != np.array(sem, dt).reshape(shape).tolist() or b.tolist() != np.array(inst, dt).reshape(shape).tolist():
    c.fail('codes', '%s: inputs changed' % what)
  ds, di = u.decode_semantic_and_instance_labels_from_panoptic_label(code, div)
  if flat(ds) != sem or flat(di) != inst:
    c.fail('codes', '%s: (%s, %s) decoded as (%s, %s)' % (what, sem, inst, flat(ds), flat(di)))
  # Labels as they are stored (as far as the code fits).
  if max(ref) <= np.iinfo(dt).max:
    ds, di = u.decode_semantic_and_instance_labels_from_panoptic_label(np.array(ref, dt).reshape(shape), div)
    if flat(ds) != sem or flat(di) != inst or ds.shape != shape:
      c.fail('codes', '%s: stored %s decoded as (%s, %s)' % (what, ref, flat(ds), flat(di)))
  if max(ref) < 65535 and len(shape) == 3:
    got = u.decode_single_panoptic_label_from_proto(proto(a[..., 0].astype(int), b[..., 0].astype(int), div, 'x'))
    if got.shape != shape or flat(got) != ref:
      c.fail('codes', '%s: label image %s' % (what, flat(got)))


# ------------------------------------------------------------------ multi
SEM = [[2, 2, 9], [9, 14, 2]]
# Local instances of each label; 0 is the background, 3 is never mapped.
INST = [[[1, 2, 1], [0, 0, 2]], [[2, 1, 3], [2, 0, 1]], [[1, 1, 0], [0, 0, 0]]]


def run_multi(c, what, labels, remap, seqential, newdiv, protos, kind):
  """labels: (sem, inst, div, seq, mapping, cover); judges one decoding."""
  inp = [component(p) if kind == 'v2' else p for p in protos]
  before = [p.SerializeToString() for p in protos]
  # What each (sequence, instance) of each label stands for.
  gids = {}
  for lab in labels:
    for l, g, t in lab[4]:
      gids.setdefault(lab[3], set()).add(g)
  any_map = remap and bool(gids)
  try:
    pan, tracked, cover, div = u.decode_multi_frame_panoptic_labels_from_segmentation_labels(
        inp, remap_to_global=remap, remap_to_sequential=seqential, new_panoptic_label_divisor=newdiv)
  except ValueError as e:
    c.outcome('refused')
    # May be refused only if some instance does not fit below the divisor.
    need = 0
    off = 0
    for lab in labels:
      mp = {l: g for l, g, t in lab[4]} if remap else {}
      loc = [x for r in lab[1] for x in r if x not in mp]
      need = max([need] + loc)
    if remap:
      ids = sum(max(v) for v in gids.values()) if not seqential else sum(len(v) for v in gids.values())
      need = max(need, ids)
    auto = newdiv is None and labels[0][2]
    # The divisor is grown to hold the global ids only, and only if not given;
    # local ids above the first label's divisor cannot be held.
    if newdiv is not None and need < newdiv or newdiv is None and max([0] + [x for lab in labels for r in lab[1] for x in r]) < auto:
      c.fail('multi:refused', '%s: refused (%s)' % (what, e))
    return None
  if [p.SerializeToString() for p in protos] != before:
    c.fail('multi', '%s: input labels changed' % what)
  div = int(div)
  if newdiv is not None and div != newdiv:
    c.fail('multi', '%s: divisor %s instead of %s' % (what, div, newdiv))
  if newdiv is None and (div < labels[0][2] or not any_map and div != labels[0][2]):
    c.fail('multi', '%s: divisor %s for labels with %s' % (what, div, labels[0][2]))
  if not len(pan) == len(tracked) == len(cover) == len(labels):
    c.fail('multi', '%s: %d %d %d outputs' % (what, len(pan), len(tracked), len(cover)))
    return None
  seen, back = {}, {}
  outs = []
  for i, (sem, inst, d0, seq, mapping, cov) in enumerate(labels):
    h, w = len(sem), len(sem[0])
    if any(np.asarray(x).shape != (h, w, 1) for x in (pan[i], tracked[i], cover[i])):
      c.fail('multi', '%s: shapes %s %s %s' % (what, pan[i].shape, tracked[i].shape, cover[i].shape))
      return None
    mp = {l: (g, t) for l, g, t in mapping}
    for y in range(h):
      for x in range(w):
        s, k = divmod(int(pan[i][y, x, 0]), div)
        l = inst[y][x]
        at = '%s: label %d pixel (%d, %d) of class %d instance %d' % (what, i, y, x, sem[y][x], l)
        if s != sem[y][x]:
          c.fail('multi:semantic', '%s: class %d' % (at, s))
          return None
        if remap and l in mp:
          key = (seq, mp[l][0])
          if seen.setdefault(key, k) != k:
            c.fail('multi:ids', '%s: id %d and %d for one global instance' % (at, k, seen[key]))
          if back.setdefault(k, key) != key or k == 0:
            c.fail('multi:ids', '%s: id %d for %s and %s' % (at, k, key, back[k]))
          if not seqential and len(gids) == 1 and k != mp[l][0]:
            c.fail('multi:ids', '%s: id %d instead of the global id %d' % (at, k, mp[l][0]))
          t = bool(mp[l][1])
        else:
          if k != l:
            c.fail('multi:ids', '%s: id %d' % (at, k))
          t = False
        if bool(tracked[i][y, x, 0]) != t or int(tracked[i][y, x, 0]) not in (0, 1):
          c.fail('multi:tracked', '%s: is tracked %s' % (at, tracked[i][y, x, 0]))
        if int(cover[i][y, x, 0]) != (cov[y][x] if cov is not None else 1):
          c.fail('multi:cover', '%s: cameras covered %s' % (at, cover[i][y, x, 0]))
    outs.append((flat(pan[i]), flat(tracked[i]), flat(cover[i])))
  if seqential and remap and gids:
    n = sum(len(v) for v in gids.values())
    if set(back) - set(range(1, n + 1)):
      c.fail('multi:ids', '%s: ids %s of %d instances are not consecutive' % (what, sorted(back), n))
    # In every label, order within a sequence does not matter; the ids of all
    # instances together are 1..n.
  return outs, div


def judge_both(c, what, labels, remap, seqential, newdiv):
  protos = [proto(np.array(s), np.array(i), d, q, mp, cov) for s, i, d, q, mp, cov in labels]
  a = run_multi(c, what, labels, remap, seqential, newdiv, protos, 'v1')
  b = run_multi(c, what + ' (v2)', labels, remap, seqential, newdiv, protos, 'v2')
  if a != b:
    c.fail('multi', '%s: v1 and v2 labels decode differently' % what)
  return a


MAPS = [[], [(1, 5, True), (2, 7, False)], [(1, 2, True), (2, 1, True)], [(2, 5, True)], [(2, 9, False), (1, 300, True)]]


def fam_multi(c):
  """Up to three labels of up to three sequences."""
  n = 1 + c.choose(3)
  nm = len(MAPS)
  labels, tag = [], []
  for i in range(n):
    seq = c.pick('ab' if i < 2 else ('ab' if not m.thorough() else 'abc'))
    mk = c.choose(nm)
    if n == 3 and i == 2 and not m.thorough() and mk not in (0, 1, 2):
      # (pruned: the third label takes the first three mappings)
      return
    tag.append((seq, mk))
    cov = [[1, 2, 1], [3, 1, 0]] if (i + mk) % 2 else None
    labels.append((SEM, INST[i], [1000, 100, 1000][i], seq, MAPS[mk], cov))
  remap, sequential = c.pick([(True, False), (True, True), (False, False)])
  newdiv = c.pick([None, 1000, 100000, 310])
  if not c.go():
    return
  what = 'labels %s, remap %s, sequential %s, divisor %s' % (tag, remap, sequential, newdiv)
  c.sample(lambda: what)
  c.state((tuple(tag), remap, sequential, newdiv))
  c.outcome('%d labels, %d sequences, remap %s' % (n, len(set(t[0] for t in tag)), remap))
  judge_both(c, what, labels, remap, sequential, newdiv)


def fam_limits(c):
  """Ids at the limits of the divisor and of the 16 bit labels."""
  gid = c.pick([1, 99, 100, 101, 999, 1000, 1001, 65535, 65536, 70000, 99999])
  other = c.pick([0, 1, 50, 98])
  d0 = c.pick([100, 1000])
  newdiv = c.pick([None, 50, 100, 101, 1000, 1001, 65536, 100000, 100001])
  sequential = c.flip()
  loc = c.pick([1, 98])
  if not c.go():
    return
  what = 'global ids %d and %d, divisor %d to %s, sequential %s, local id %d' % (gid, other, d0, newdiv, sequential, loc)
  c.sample(lambda: what)
  c.state((gid, other, d0, newdiv, sequential, loc))
  mp = [(loc, gid, True)] + ([(3, other, False)] if other and other != gid else [])
  inst = [[loc, 0, 3 if len(mp) == 2 else 0], [loc, loc, 0]]
  labels = [(SEM, inst, d0, 'a', mp, None)]
  top = len(mp) if sequential else max(g for _, g, _ in mp)
  # The local ids may be refused as well.
  protos = [proto(np.array(s), np.array(i), d, q, mp_, cov) for s, i, d, q, mp_, cov in labels]
  for kind in ('v1', 'v2'):
    inp = [component(p) if kind == 'v2' else p for p in protos]
    try:
      u.decode_multi_frame_panoptic_labels_from_segmentation_labels(
          inp, remap_to_sequential=sequential, new_panoptic_label_divisor=newdiv)
      ok = True
    except ValueError:
      ok = False
    if newdiv is not None and top >= newdiv:
      c.outcome('does not fit')
      if ok:
        c.fail('limits', '%s (%s): id %d accepted with divisor %d' % (what, kind, top, newdiv))
      continue
    if not ok and (newdiv is None or loc < newdiv):
      c.fail('limits', '%s (%s): refused' % (what, kind))
    elif ok:
      c.outcome('fits')
      run_multi(c, what, labels, True, sequential, newdiv, protos, kind)


def fam_many(c):
  """Many instances, many labels, many sequences; saving and reading back."""
  n = c.pick([5, 40, 260, 700])
  nl = c.pick([1, 2, 12])
  nseq = c.pick([1, 2, 6])
  perm = c.choose(3)
  remap, sequential = c.pick([(True, False), (True, True), (False, False)])
  newdiv = c.pick([None, 100000])
  if nseq > nl or (n == 700 and nl == 12) or not c.go():
    return
  what = '%d labels of %d sequences with %d instances, order %d, remap %s, sequential %s, divisor %s' % (nl, nseq, n, perm, remap, sequential, newdiv)
  c.sample(lambda: what)
  c.state(what)
  c.outcome('%d instances' % n)
  labels = []
  w = 20
  h = -(-n // w)
  for i in range(nl):
    # Half of the instances are mapped; the same global ids, met in other orders.
    order = list(range(1, n + 1))
    if perm == 1:
      order = order[::-1] if i % 2 else order
    elif perm == 2:
      order = [(k * 7 + 11 * i) % n + 1 for k in range(n)] if n % 7 else order[i % n:] + order[:i % n]
    ids = (order + [0] * (h * w))[:h * w]
    mapping = [(l, 3 * ((l * 11 + i) % n) + 1, (l + i) % 3 != 0) for l in sorted(set(order), key=lambda l: (l * 5) % n) if l % 2]
    sem = [[[2, 9, 14, 20][(x + y) % 4] for x in range(w)] for y in range(h)]
    labels.append((sem, [ids[y * w:(y + 1) * w] for y in range(h)], 1000, 'seq%d' % (i % nseq), mapping,
                   [[(x + y + i) % 4 for x in range(w)] for y in range(h)] if i % 3 else None))
  judge_both(c, what, labels, remap, sequential, newdiv)
  # A prediction with all these instances survives being saved.
  sem, ids = labels[-1][0], labels[-1][1]
  small = [[s if s < 15 else 1 for s in r] for r in sem]
  pan = (np.array(small, np.int64) * 2000 + np.array(ids)).astype(np.int32)[..., None]
  p = u.save_panoptic_label_to_proto(pan, 2000, 'q', new_panoptic_label_divisor=1000)
  mp = {x.local_instance_id: x.global_instance_id for x in p.instance_id_to_global_id_mapping}
  raw = u.decode_single_panoptic_label_from_proto(p)
  got = [divmod(int(v), 1000) for v in raw.reshape(-1)]
  if [g[0] for g in got] != [s for r in small for s in r] or [mp.get(g[1], g[1]) for g in got] != [i for r in ids for i in r]:
    c.fail('save', '%s: saved prediction differs' % what)


# ------------------------------------------------------------------ colours
def fam_colours(c):
  dt = c.pick([np.uint8, np.uint16, np.int32, np.uint32, np.int64])
  cls = c.choose(29)
  three = c.flip()
  scheme = c.choose(3)
  if not c.go():
    return
  what = '%s class %d %s scheme %d' % (dt.__name__, cls, 'with channel' if three else '', scheme)
  c.sample(lambda: what)
  c.state(what)
  c.outcome('class %d' % cls)
  ids = [0, 1, 2, 3, 50, 61, 99, 100] + ([255] if dt is np.uint8 else [1598, 1599, 9999, 65535])
  sem = np.full((2, len(ids) // 2), cls, dt)
  sem[1, :] = 20
  inst = np.array(ids, dt).reshape(2, -1) if len(ids) % 2 == 0 else np.array(ids[:-1], dt).reshape(2, -1)
  kw = [{}, dict(prime_num=7, max_delta=20), dict(color_map=np.array([[k * 8 % 256, 255 - k * 8 % 256, k] for k in range(29)], np.uint8))][scheme]
  prime, delta, cmap = kw.get('prime_num', 41), kw.get('max_delta', 50), kw.get('color_map')
  a, b = (sem[..., None], inst[..., None]) if three else (sem, inst)
  got = u.panoptic_label_to_rgb(a.copy(), b.copy(), **kw)
  plain = u.semantic_label_to_rgb(a.copy(), **({'color_map': cmap} if cmap is not None else {}))
  if np.asarray(got).shape != sem.shape + (3,) or np.asarray(plain).shape != sem.shape + (3,) or got.dtype != np.uint8:
    c.fail('colours', '%s: image %s %s' % (what, got.shape, got.dtype))
    return
  for y in range(sem.shape[0]):
    for x in range(sem.shape[1]):
      s, i = int(sem[y, x]), int(inst[y, x])
      ref = [int(v) for v in (cmap[s] if cmap is not None else u.SEGMENTATION_COLOR_MAP[s])]
      if plain[y, x].tolist() != ref:
        c.fail('colours', '%s: class %d drawn %s instead of %s' % (what, s, plain[y, x], ref))
      if i > 0:
        ref[1] = min(255, max(0, ref[1] + i * prime % (2 * delta) - delta))
      if got[y, x].tolist() != ref:
        c.fail('colours', '%s: class %d instance %d drawn %s instead of %s' % (what, s, i, got[y, x], ref))


# ------------------------------------------------------------------ submissions
def fam_save(c):
  """A prediction survives being saved in a label."""
  dt = c.pick([np.uint16, np.int32, np.int64, np.uint32])
  d0 = c.pick([5, 1000, 2000, 100000])
  nd = c.pick([None, 3, 10, 2000, 6000])
  pat = c.choose(9)
  if not c.go():
    return
  what = '%s, divisor %d to %s, pattern %d' % (dt.__name__, d0, nd, pat)
  top = min(d0 - 1, 65000)
  ids = [[0, 0, 0, 0, 0, 0], [0, 1, 2, 1, 2, 0], [1, 2, 3, 4, 1, 2], [top, top, 0, 1, 0, 1], [top] * 6, [top, top - 1, top - 2, 0, 1, 1],
         [2, 4, 2, 4, 0, 0], [4, 2, 4, 2, 1, 1], [3, 0, 3, 0, 3, 0]][pat]
  sems = [[0] * 6, [1, 2, 2, 9, 2, 28], [2, 2, 2, 2, 28, 28], [2, 9, 20, 0, 28, 27]]
  for k, sem in enumerate(sems):
    ref = [s * d0 + i for s, i in zip(sem, ids)]
    if max(ref) > np.iinfo(dt).max:
      continue
    c.step()
    c.sample(lambda: '%s: %s' % (what, ref))
    c.state((dt.__name__, nd, tuple(ref), d0))
    pan = np.array(ref, dt).reshape(2, 3, 1)
    distinct = sorted(set(ids) - {0})
    div = max(1000 if nd is None else nd, len(distinct) + 1)
    seqid = {g: i + 1 for i, g in enumerate(distinct)}
    biggest = max(s * div + seqid.get(i, 0) for s, i in zip(sem, ids))
    try:
      p = u.save_panoptic_label_to_proto(pan, d0, 'seq', **({} if nd is None else {'new_panoptic_label_divisor': nd}))
    except ValueError as e:
      c.outcome('refused')
      # (How compact the ids are is fixed only up to the order of the ids.)
      if biggest + len(distinct) < 65535:
        c.fail('save', '%s: %s refused (%s)' % (what, ref, e))
      continue
    c.outcome('saved, %d instances' % len(distinct))
    if pan.reshape(-1).tolist() != ref:
      c.fail('save', '%s: prediction changed' % what)
    if p.panoptic_label_divisor != div or p.sequence_id != 'seq':
      c.fail('save', '%s: divisor %s sequence %s' % (what, p.panoptic_label_divisor, p.sequence_id))
    if max(s * div for s in sem) > 65535:
      c.fail('save', '%s: %s does not fit in 16 bits' % (what, ref))
      continue
    raw = u.decode_single_panoptic_label_from_proto(p)
    mp = {x.local_instance_id: x.global_instance_id for x in p.instance_id_to_global_id_mapping}
    if raw.shape != (2, 3, 1):
      c.fail('save', '%s: image %s' % (what, raw.shape))
      continue
    got = [divmod(int(v), p.panoptic_label_divisor) for v in raw.reshape(-1)]
    if [s for s, _ in got] != sem or [mp.get(i, i) for _, i in got] != ids:
      c.fail('save', '%s: %s saved as %s with %s' % (what, list(zip(sem, ids)), got, mp))
    if set(i for _, i in got) - set(range(len(distinct) + 1)):
      c.fail('save', '%s: ids %s are not compact' % (what, sorted(set(i for _, i in got))))
    for inp in (p, component(p)):
      out, _, _, d = u.decode_multi_frame_panoptic_labels_from_segmentation_labels([inp], new_panoptic_label_divisor=100000)
      if [divmod(int(v), 100000) for v in out[0].reshape(-1)] != list(zip(sem, ids)):
        c.fail('save', '%s: %s decoded again as %s' % (what, list(zip(sem, ids)), [divmod(int(v), 100000) for v in out[0].reshape(-1)]))


# ------------------------------------------------------------------ loading
def fam_load(c):
  """Frames for evaluation: labelled, of one sequence, at most k."""
  n = c.choose(6 if not m.thorough() else 8)
  kinds = [c.choose(4) for _ in range(n)]  # none, a, label on second image only, b
  k = 1 + c.choose(5)
  order = [x for x in kinds if x in (1, 3)]
  if sum(x != y for x, y in zip(order, order[1:])) > 1:
    return  # (a sequence is not interrupted by another)
  default = c.flip()
  if default and k != 3:
    return
  if not c.go():
    return
  what = 'frames %s, first %d' % (''.join('-aSb'[x] for x in kinds), k)
  c.sample(lambda: what)
  c.state((tuple(kinds), k, default))
  frames = []
  for i, x in enumerate(kinds):
    f = dataset_pb2.Frame(timestamp_micros=i + 1)
    f.images.add(name=1, image=b'x')
    f.images.add(name=2, image=b'y')
    if x in (1, 3):
      f.images[0].camera_segmentation_label.panoptic_label = b'p'
      f.images[0].camera_segmentation_label.sequence_id = ' a b'[x]
    if x == 2:
      f.images[1].camera_segmentation_label.panoptic_label = b'p'
      f.images[1].camera_segmentation_label.sequence_id = 'c'
    frames.append(f)
  ds = tf.data.Dataset.from_tensor_slices([f.SerializeToString() for f in frames]) if frames else []
  got, seq = u.load_frames_with_labels_from_dataset(ds, **({} if default else {'keep_first_k': k}))
  lab = [i for i, x in enumerate(kinds) if x in (1, 3)]
  ref_seq = ' a b'[kinds[lab[0]]] if lab else None
  ref = [i + 1 for i in lab if kinds[i] == kinds[lab[0]]][:k]
  c.outcome('%d frames' % len(ref))
  if seq != ref_seq or [f.timestamp_micros for f in got] != ref:
    c.fail('load', '%s: frames %s of %s' % (what, [f.timestamp_micros for f in got], seq))
  elif any(f != frames[f.timestamp_micros - 1] for f in got):
    c.fail('load', '%s: frames changed' % what)


# ------------------------------------------------------------------ metrics
DIV = 100000
THINGS = set(metrics.get_eval_config().class_has_instances_list)
IGNORE = metrics.get_eval_config().ignore_label


def ref_stq(seqs):
  """Brute force: seqs: id -> [(truth, prediction, weight, tracked)]; truth and
  prediction are (class, instance)."""
  outer, tubes = 0.0, 0
  inter, union = {}, {}
  for px in seqs.values():
    gts, prs, both = {}, {}, {}
    for (gc, gi), p, w, t in px:
      gi = gi if t else 0
      crowd = gc in THINGS and gi == 0
      g_thing = gc in THINGS and not crowd
      p_thing = p[0] in THINGS and not crowd
      if g_thing:
        gts[gc, gi] = gts.get((gc, gi), 0) + w
      if p_thing:
        prs[p] = prs.get(p, 0) + w
      if g_thing and p_thing:
        both[(gc, gi), p] = both.get(((gc, gi), p), 0) + w
      if gc != IGNORE:
        if gc == p[0]:
          inter[gc] = inter.get(gc, 0) + w
          union[gc] = union.get(gc, 0) + w
        else:
          union[gc] = union.get(gc, 0) + w
          union[p[0]] = union.get(p[0], 0) + w
    tubes += len(gts)
    for g, gs in gts.items():
      outer += sum(both[g, p] ** 2 / (gs + ps - both[g, p]) for p, ps in prs.items() if (g, p) in both) / gs
  aq = outer / tubes if tubes else 0.0
  iou = sum(inter.get(k, 0) / union[k] for k in union) / len(union) if union else 0.0
  return math.sqrt(aq * iou), aq, iou


def near(a, b):
  return abs(a - b) <= 1e-5


GT = [[(2, 1), (2, 2), (20, 0)], [(2, 1), (9, 1), (20, 0)], [(2, 0), (2, 2), (0, 0)], [(20, 0), (2, 70000), (9, 1)]]
PR = [[(2, 1), (2, 2), (20, 0)], [(2, 2), (2, 1), (2, 2)], [(9, 1), (2, 0), (20, 0)], [(20, 0), (2, 70001), (2, 1)]]
COV = [[1, 1, 1], [1, 2, 3], [2, 2, 1]]
TRK = [[1, 1, 1], [1, 0, 0], [0, 1, 0]]


def fam_metric(c):
  """Up to three frames of up to two sequences through the metric objects."""
  n = 1 + c.choose(3)
  spec = []
  for i in range(n):
    full = i < 2 or m.thorough()
    seq = 0 if i == 0 else c.choose(2)
    g, p = (c.choose(4), c.choose(4)) if full else (c.choose(2), c.choose(2))
    cv, tr = (c.choose(3), c.choose(3)) if i == 0 or (i == 1 and n == 2) else ((i + g) % 3, (i + p) % 3)
    spec.append((seq, g, p, cv, tr))
  shapes = [(1, 3), (3, 1), (1, 3, 1)]
  shape = c.pick(shapes) if n == 1 else shapes[sum(x[1] + x[3] for x in spec) % 3]
  names = ['s', 't'] if sum(x[1] for x in spec) % 2 else [7, 9]
  if not c.go():
    return
  what = 'frames (sequence, truth, prediction, coverage, tracked) %s shape %s' % (spec, shape)
  c.sample(lambda: what)
  c.state((tuple(spec), shape))
  objs, ref = [], {}
  for s in sorted(set(x[0] for x in spec)):
    fr = [x for x in spec if x[0] == s]
    arr = lambda rows, dt: [np.array(r, dt).reshape(shape) for r in rows]
    code = lambda r: [a * DIV + b for a, b in r]
    yt, yp = arr([code(GT[x[1]]) for x in fr], np.uint32), arr([code(PR[x[2]]) for x in fr], np.int32)
    cv, tr = arr([COV[x[3]] for x in fr], np.uint8), arr([TRK[x[4]] for x in fr], np.uint8 if s else bool)
    keep = [a.copy() for a in yt + yp + cv + tr]
    kw = {'sequence_id': names[s]} if len(set(x[0] for x in spec)) > 1 or s else {}
    objs.append(metrics.get_metric_object_by_sequence(yt, yp, cv, tr, **kw))
    if any((a != b).any() for a, b in zip(keep, yt + yp + cv + tr)):
      c.fail('metric', '%s: inputs changed' % what)
    ref[s] = [(GT[x[1]][k], PR[x[2]][k], 1 / COV[x[3]][k], TRK[x[4]][k]) for x in fr for k in range(3)]
  want = ref_stq(ref)
  c.outcome('wstq %s' % ('0' if want[0] == 0 else '1' if want[0] > 0.999 else 'between'))
  for order in ([objs, objs[::-1]] if len(objs) > 1 else [objs, objs]):
    r = metrics.aggregate_metrics(order)
    got = (r.wstq, r.waq, r.miou)
    if not all(near(a, b) for a, b in zip(got, want)):
      c.fail('metric', '%s: wSTQ, wAQ, mIoU %s instead of %s' % (what, got, want))
  # The objects of the sequences are still what they were.
  for s, o in zip(sorted(ref), objs):
    r = metrics.aggregate_metrics([o])
    w = ref_stq({s: ref[s]})
    if not all(near(a, b) for a, b in zip((r.wstq, r.waq, r.miou), w)):
      c.fail('metric', '%s: sequence %s alone %s instead of %s' % (what, s, (r.wstq, r.waq, r.miou), w))


def fam_metric_many(c):
  """Sequences of many frames and instances."""
  nf, ni = c.pick([(2, 300), (20, 40), (60, 6), (3, 6)])
  ns = c.pick([1, 2, 5])
  kind = c.choose(6)
  cls = c.choose(3)
  cov = c.flip()
  if not c.go():
    return
  what = '%d sequences of %d frames with %d instances, predictions %d, classes %d, coverage %s' % (ns, nf, ni, kind, cls, cov)
  c.sample(lambda: what)
  c.state(what)
  objs, ref = [], {}
  for q in range(ns):
    yt, yp, cv, tr, px = [], [], [], [], []
    for f in range(nf):
      rows = []
      for k in range(2 * ni):
        i = k // 2
        g = ([2, 9, 2][(i + cls) % 3] if cls < 2 else 2, 1000 * q + i + 1)
        if k % 11 == 10:
          g = (20, 0)
        pr = {0: g, 1: (g[0], (i + f) % ni + 1), 2: (g[0], i // 2 + 1), 3: (g[0], 2 * i + k % 2 + 60000),
              4: (g[0] if k % 3 else 20, g[1] if k % 3 else 0), 5: (2 if g[0] == 9 else g[0], g[1])}[kind if q % 2 == 0 else (kind + q) % 6]
        rows.append((g, pr, (k + f) % 3 + 1 if cov else 1, (i + q) % 5 != 4))
      enc = lambda j: np.array([[r[j][0] * DIV + r[j][1] for r in rows]], np.int32)
      yt.append(enc(0))
      yp.append(enc(1))
      cv.append(np.array([[r[2] for r in rows]], np.uint8))
      tr.append(np.array([[r[3] for r in rows]], np.uint8))
      px += [(g, p_, 1 / w, t) for g, p_, w, t in rows]
    objs.append(metrics.get_metric_object_by_sequence(yt, yp, cv, tr, sequence_id='seq-%d' % q))
    ref[q] = px
  want = ref_stq(ref)
  c.outcome('wstq %s' % ('1' if want[0] > 0.999 else 'between'))
  for order in (objs, objs[::-1]):
    r = metrics.aggregate_metrics(order)
    got = (r.wstq, r.waq, r.miou)
    if not all(abs(a - b) <= 1e-4 for a, b in zip(got, want)):
      c.fail('metric', '%s: wSTQ, wAQ, mIoU %s instead of %s' % (what, got, want))


def fam_lengths(c):
  n = [c.choose(3) for _ in range(4)]
  if not c.go():
    return
  what = '%d truths, %d predictions, %d coverages, %d tracked masks' % tuple(n)
  c.sample(lambda: what)
  c.state(tuple(n))
  z = np.full((1, 2), 20 * DIV, np.int32)
  o = np.ones((1, 2), np.uint8)
  try:
    metrics.get_metric_object_by_sequence([z] * n[0], [z] * n[1], [o] * n[2], [o] * n[3])
    ok = True
  except ValueError:
    ok = False
  c.outcome('same' if len(set(n)) == 1 else 'different')
  if ok != (len(set(n)) == 1):
    c.fail('lengths', '%s: %s' % (what, 'accepted' if ok else 'refused'))


# ------------------------------------------------------------------ all together
def fam_chain(c):
  """Frames of two cameras: loaded, decoded to global ids, predictions saved and
  read back, scored."""
  nf = 1 + c.choose(2)
  maps = [[c.pick([[(1, 5, True), (2, 6, True)], [(1, 6, True), (2, 5, True)], [(1, 5, False)], []]) for _ in range(2)] for _ in range(nf)]
  pred = [c.choose(4) for _ in range(nf)]
  cov = c.flip()
  if not c.go():
    return
  what = 'mappings %s, predictions %s, coverage %s' % (maps, pred, cov)
  c.sample(lambda: what)
  c.state(what)
  sem = [[2, 2, 20]]
  insts = [[[1, 2, 0]], [[2, 1, 0]]]
  cover = [[[1, 2, 2]], [[2, 1, 1]]]
  frames = []
  for f in range(nf):
    fr = dataset_pb2.Frame(timestamp_micros=f + 1)
    for k in range(2):
      im = fr.images.add(name=k + 1)
      im.camera_segmentation_label.CopyFrom(proto(np.array(sem), np.array(insts[k]), 1000, 'q', maps[f][k], cover[k] if cov else None))
    frames.append(fr)
  got, seq = u.load_frames_with_labels_from_dataset(tf.data.Dataset.from_tensor_slices([f.SerializeToString() for f in frames]), 3)
  labels = [im.camera_segmentation_label for f in got for im in f.images]
  pan, trk, cvr, div = u.decode_multi_frame_panoptic_labels_from_segmentation_labels(labels, new_panoptic_label_divisor=DIV)
  preds, saved = [], []
  P = [[(2, 11), (2, 12), (20, 0)], [(2, 12), (2, 11), (20, 0)], [(2, 11), (2, 11), (2, 11)], [(20, 0), (20, 0), (2, 5)]]
  ref = []
  for f in range(nf):
    for k in range(2):
      pr = P[(pred[f] + (k if pred[f] < 2 else 0)) % 4 if pred[f] >= 2 else (pred[f] + k) % 2]
      a = np.array([s * 1000 + i for s, i in pr], np.int32).reshape(1, 3, 1)
      saved.append(u.save_panoptic_label_to_proto(a, 1000, 'q'))
      mp = {l: (g, t) for l, g, t in maps[f][k]}
      for x in range(3):
        l = insts[k][0][x]
        g, t = mp.get(l, (l, False))
        ref.append(((sem[0][x], g), pr[x], 1 / cover[k][0][x] if cov else 1.0, t))
  preds, _, _, _ = u.decode_multi_frame_panoptic_labels_from_segmentation_labels(saved, new_panoptic_label_divisor=DIV)
  r = metrics.aggregate_metrics([metrics.get_metric_object_by_sequence(pan, preds, cvr, trk, sequence_id=seq)])
  want = ref_stq({'q': ref})
  c.outcome('wstq %s' % ('0' if want[0] == 0 else '1' if want[0] > 0.999 else 'between'))
  if seq != 'q' or not all(near(a, b) for a, b in zip((r.wstq, r.waq, r.miou), want)):
    c.fail('chain', '%s: wSTQ, wAQ, mIoU %s instead of %s' % (what, (r.wstq, r.waq, r.miou), want))


m = mcpy.Main()
m.family('codes', '5 dtypes x 9 divisors x 3 shapes x 6 patterns', fam_codes)
m.family('multi', '1..3 labels of 2 (thorough 3) sequences x 5 id mappings each x remap/sequential/neither x 4 divisors, v1 and v2', fam_multi)
m.family('many', '5..700 instances in 1..12 labels of 1..6 sequences, mapped in 3 orders; saved predictions', fam_many)
m.family('limits', '11 x 4 global ids x 2 own x 9 new divisors x sequential x 2 local ids, v1 and v2', fam_limits)
m.family('colours', '5 dtypes x 29 classes x with/without channel x 3 schemes, 8 or 12 instance ids', fam_colours)
m.family('save', '4 dtypes x 4 divisors x 5 new divisors x 9 id patterns x 4 class patterns', fam_save)
m.family('load', 'all sequences of up to 5 (thorough 7) frames (unlabelled, sequence a or b, label on the second image) x first 1..5', fam_load)
m.family('metric', '1..3 frames of 1..2 sequences x 4 truths x 4 predictions x 3 coverages x 3 tracked masks', fam_metric)
m.family('metric-many', '1..5 sequences of 2..60 frames with 6..300 instances x 6 predictions x 3 class patterns', fam_metric_many)
m.family('lengths', '0..2 of each of the four inputs', fam_lengths)
m.family('chain', '1..2 frames of two cameras x 4 mappings each x 4 predictions x with/without coverage', fam_chain)
raise SystemExit(m.run())

"""C29: streaming metric ops, the detection evaluator, matching, op wrappers."""
import itertools
import os
import sys

import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcpy
import tensorflow as tf
import opsbridge
from google.protobuf import text_format
from waymo_open_dataset import label_pb2
from waymo_open_dataset.metrics.ops import py_metrics_ops as ops
from waymo_open_dataset.metrics.python import config_util_py
from waymo_open_dataset.metrics.python import detection_metrics
from waymo_open_dataset.metrics.python import matcher
from waymo_open_dataset.metrics.python import motion_metrics
from waymo_open_dataset.metrics.python import tracking_metrics
from waymo_open_dataset.metrics.python import wod_detection_evaluator
from waymo_open_dataset.protos import metrics_pb2
from waymo_open_dataset.protos import motion_metrics_pb2

v1 = tf.compat.v1
DET = opsbridge.op('DetectionMetrics')
DET_STATE = opsbridge.op('DetectionMetricsState')
DET_RESULT = opsbridge.op('DetectionMetricsResult')
TRK = opsbridge.op('TrackingMetrics')
MOT = opsbridge.op('MotionMetrics')
MATCH = opsbridge.op('Match')


def same(a, b, tol=1e-6):
  a, b = np.asarray(a, float), np.asarray(b, float)
  return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b))))


# ------------------------------------------------------------------ detection
BOX = {'TYPE_3D': [0, 1, 2, 3, 4, 5, 6], 'TYPE_2D': [0, 1, 3, 4, 6], 'TYPE_AA_2D': [0, 1, 3, 4]}


def pd(f, x, y, t, s, h=0.0, nlz=False):
  return (f, [x, y, 0.0, 4.0, 2.0, 1.5, h], t, s, nlz)


def gt(f, x, y, t, d=1, h=0.0, v=(0.0, 0.0)):
  return (f, [x, y, 0.0, 4.0, 2.0, 1.5, h], t, d, v)


# Updates: (predictions, truths).
PIECES = [
    ([pd(1, 10, 0, 1, 1.0)], [gt(1, 10, 0.1, 1)]),
    ([pd(1, 20, 5, 1, 0.4)], [gt(1, 40, 5, 1, 2, v=(3, 0))]),
    ([pd(2, 5, 5, 2, 0.7, 0.4)], [gt(2, 5, 5.2, 2, v=(0.1, 0)), gt(2, 60, 0, 4, v=(12, 0))]),
    ([pd(1, 40, 5.3, 1, 0.8), pd(2, 60, 0, 4, 0.3)], []),
    ([], [gt(1, 20, 5, 1, 1), gt(3, 1, 1, 1, 1)]),
    ([], []),
    ([pd(3, 1, 1, 1, 0.95, 0, True), pd(3, 30, 1, 1, 0.95, 0, True)], [gt(3, 1, 1.2, 1, 2, 3.0)]),
]


def piece(i):
  """Piece i % 100, its frames renumbered from 1000 * (i // 100) on."""
  P, G = PIECES[i % 100]
  r = 1000 * (i // 100)
  return [(p[0] + r,) + p[1:] for p in P], [(g[0] + r,) + g[1:] for g in G]


def det_config(kind, box):
  c = metrics_pb2.Config()
  text_format.Merge([
      """num_desired_score_cutoffs: 11 breakdown_generator_ids: OBJECT_TYPE difficulties {}""",
      """score_cutoffs: 0 score_cutoffs: 0.35 score_cutoffs: 0.75 score_cutoffs: 1 breakdown_generator_ids: OBJECT_TYPE difficulties {levels: 1 levels: 2}
         breakdown_generator_ids: RANGE difficulties {levels: 2} breakdown_generator_ids: ONE_SHARD difficulties {levels: 1}
         let_metric_config {enabled: true longitudinal_tolerance_percentage: 0.1 min_longitudinal_tolerance_meter: 0.5 align_type: TYPE_RANGE_ALIGNED}""",
      """score_cutoffs: 0 score_cutoffs: 0.5 score_cutoffs: 0.85 breakdown_generator_ids: VELOCITY difficulties {} breakdown_generator_ids: ONE_SHARD difficulties {}"""][kind], c)
  c.matcher_type = metrics_pb2.MatcherProto.TYPE_HUNGARIAN if kind != 2 else metrics_pb2.MatcherProto.TYPE_SCORE_FIRST
  c.iou_thresholds.extend([0.3] * 5)
  c.box_type = label_pb2.Label.Box.Type.Value(box)
  return c


def det_arrays(pieces, box, speed):
  P = [p for x in pieces for p in x[0]]
  G = [g for x in pieces for g in x[1]]
  n = BOX[box]
  d = dict(
      prediction_frame_id=np.array([p[0] for p in P], np.int64),
      prediction_bbox=np.array([[p[1][i] for i in n] for p in P], np.float32).reshape(len(P), len(n)),
      prediction_type=np.array([p[2] for p in P], np.uint8),
      prediction_score=np.array([p[3] for p in P], np.float32),
      prediction_overlap_nlz=np.array([p[4] for p in P], bool),
      ground_truth_frame_id=np.array([g[0] for g in G], np.int64),
      ground_truth_bbox=np.array([[g[1][i] for i in n] for g in G], np.float32).reshape(len(G), len(n)),
      ground_truth_type=np.array([g[2] for g in G], np.uint8),
      ground_truth_difficulty=np.array([g[3] for g in G], np.uint8),
      ground_truth_speed=np.array([g[4] if speed else (0, 0) for g in G], np.float32).reshape(len(G), 2))
  return d


_memo = {}


def det_ref(pieces, box, speed, cfg, op=DET):
  k = (tuple(pieces), box, speed, cfg.SerializeToString(), op is DET)
  if k not in _memo:
    if len(_memo) > 5000:
      _memo.clear()
    r = op(config=cfg.SerializeToString(), **{n: tf.convert_to_tensor(a) for n, a in det_arrays([piece(i) for i in pieces], box, speed).items()})
    _memo[k] = {n: v.numpy() for n, v in r._asdict().items()} if op is DET else r
  return _memo[k]


def placeholders(arrays):
  return {n: v1.placeholder(tf.as_dtype(a.dtype), [None] + list(a.shape[1:])) for n, a in arrays.items()}


def seq_of_pieces(c, n_max, n_pieces=len(PIECES)):
  n = c.choose(n_max + 1)
  return [c.choose(n_pieces) for _ in range(n)]


def fam_det(c):
  """Values after every update are those of everything given so far."""
  full = m.thorough()
  kind, box = c.pick([(0, 'TYPE_3D'), (1, 'TYPE_3D'), (2, 'TYPE_3D'), (2, 'TYPE_2D'), (0, 'TYPE_AA_2D'), (1, 'TYPE_3D')])
  steps = seq_of_pieces(c, 4 if full else 3)
  speed = c.flip() if kind == 2 else False
  recall, name_filter = c.pick([(None, None), (0.3, None), (0.6, 'VEHICLE'), (None, 'LEVEL_2'), (0.6, None), (0.9, 'nothing')])
  if not full and len(steps) == 3 and (sum(steps) + kind) % 3 != (0 if recall is None else 1):
    return
  if not c.go():
    return
  judge_det(c, kind, box, speed, recall, name_filter, steps)


def fam_det_long(c):
  """30 updates (thorough also 200)."""
  kind = c.choose(3)
  speed = c.flip() if kind == 2 else False
  recall, name_filter = c.pick([(None, None), (0.6, 'VEHICLE')])
  pat = [c.choose(6 if m.thorough() else 5) for _ in range(3)]
  n = c.pick([30, 200]) if m.thorough() else 30
  if not m.thorough() and (sum(pat) + kind) % 5:
    return
  if not c.go():
    return
  judge_det(c, kind, 'TYPE_3D', speed, recall, name_filter, [100 * r + pat[r % 3] for r in range(n)])


def fam_evaluator_long(c):
  """40 updates with resets and evaluations in between."""
  kind = c.choose(2)
  pat = [c.pick([0, 1, 2, 4]) for _ in range(3)]
  reset = c.pick([None, 7, 25])
  ask = c.pick([None, 3, 20])
  if not m.thorough() and (sum(pat) + (reset or 0) + (ask or 0)) % 3:
    return
  if not c.go():
    return
  what = 'config %d, 40 updates of %s, reset after %s, evaluated after %s' % (kind, pat, reset, ask)
  c.sample(lambda: what)
  c.state(what)
  cfg = det_config(2, 'TYPE_3D') if kind else None
  e = wod_detection_evaluator.WODDetectionEvaluator(*([cfg] if kind else []))
  ref_cfg = cfg if kind else default_config()
  done = []
  for r in range(40):
    a = det_arrays([piece(100 * r + pat[r % 3])], 'TYPE_3D', False)
    e.update_state({k: tf.convert_to_tensor(v) for k, v in a.items() if k.startswith('ground') and k != 'ground_truth_speed'},
                   {k: tf.convert_to_tensor(v) for k, v in a.items() if k.startswith('pred')})
    done.append(100 * r + pat[r % 3])
    c.step()
    if r == ask:
      judge_eval(c, what, r, e.evaluate(), done, False, ref_cfg)
    if r == reset:
      e.reset_states()
      done = []
  judge_eval(c, what, 40, e.result(), done, False, ref_cfg)
  c.outcome('%d updates at the end' % len(done))


def judge_det(c, kind, box, speed, recall, name_filter, steps):
  what = 'detection config %d %s speed %s recall %s filter %s updates %s' % (kind, box, speed, recall, name_filter, steps)
  c.sample(lambda: what)
  c.state((kind, box, tuple(steps), speed, recall, name_filter))
  cfg = det_config(kind, box)
  names = config_util_py.get_breakdown_names_from_config(cfg)
  with tf.Graph().as_default() as g:
    ph = placeholders(det_arrays([], box, True))
    kw = dict(ph) if speed else {k: v for k, v in ph.items() if k != 'ground_truth_speed'}
    if recall is not None:
      kw['recall_at_precision'] = recall
    if name_filter is not None:
      kw['name_filter'] = name_filter
    before = cfg.SerializeToString()
    res = detection_metrics.get_detection_metric_ops(config=cfg, **kw)
    if cfg.SerializeToString() != before:
      c.fail('detection', '%s: configuration changed' % what)
    sess = v1.Session(graph=g)
    sess.run(v1.local_variables_initializer())
  kept = [n for n in names if name_filter is None or name_filter in n]
  kinds = ['AP', 'APH', 'APL'] + (['Recall@%s' % recall] if recall is not None else [])
  if set(res) != {'%s/%s' % (n, k) for n in kept for k in kinds}:
    c.fail('detection', '%s: metrics %s' % (what, sorted(res)))
    return
  if not kept:
    c.outcome('nothing kept')
    return

  def judge(done, when):
    ref = det_ref(done, box, speed, cfg)
    got = sess.run({k: v[0] for k, v in res.items()})
    for i, n in enumerate(names):
      if n not in kept:
        continue
      for k, o in (('AP', 'average_precision'), ('APH', 'average_precision_ha_weighted'), ('APL', 'average_precision_longitudinal_affinity_weighted')):
        if not same(got['%s/%s' % (n, k)], ref[o][i]):
          return c.fail('detection', '%s: %s: %s/%s is %s instead of %s' % (what, when, n, k, got['%s/%s' % (n, k)], ref[o][i]))
      if recall is not None:
        pr = ref['precision_recall'][i]
        ok = [max([float(r[1]) for r in pr if r[0] > recall] + [0.0]), max([float(r[1]) for r in pr if r[0] >= recall - 1e-6] + [0.0])]
        x = float(got['%s/Recall@%s' % (n, recall)])
        if min(abs(x - y) for y in ok) > 1e-6:
          return c.fail('detection', '%s: %s: recall %s of %s instead of %s from %s' % (what, when, x, n, ok, pr.tolist()))

  for k, s in enumerate(steps):
    if k == 1:
      judge(steps[:k], 'after one update')
    a = det_arrays([piece(s)], box, speed)
    sess.run([v[1] for v in res.values()] if k % 2 else tf.group([v[1] for v in res.values()]),
             feed_dict={ph[n]: a[n] for n in a if n in kw or n != 'ground_truth_speed'})
    c.step()
  judge(steps, 'at the end')
  judge(steps, 'once more')
  r = det_ref(steps, box, speed, cfg)['average_precision']
  c.outcome('%d updates, best %s' % (len(steps), '0' if r.max() <= 0 else '1' if r.max() > 0.999 else 'between'))
  # A new run starts from nothing.
  if len(steps) == 1:
    sess = v1.Session(graph=g)
    with g.as_default():
      sess.run(v1.local_variables_initializer())
    judge([], 'in a new session')


def fam_state(c):
  """States of disjoint sets of frames add up."""
  kind = c.choose(3)
  speed = c.flip()
  split = [c.choose(2) for _ in range(4)]
  with_speed_arg = True if speed else c.flip()
  if not c.go():
    return
  what = 'config %d speed %s split of frames %s' % (kind, speed, split)
  c.sample(lambda: what)
  c.state((kind, speed, tuple(split), with_speed_arg))
  cfg = det_config(kind, 'TYPE_3D')
  s = cfg.SerializeToString()
  # Frames: whole pieces by frame.
  frames = [[0, 1], [2], [6], [5]]
  all_ = det_arrays([piece(i) for f in frames for i in f], 'TYPE_3D', speed)
  drop = lambda a: a if with_speed_arg else {k: v for k, v in a.items() if k != 'ground_truth_speed'}
  tens = lambda a: {k: tf.convert_to_tensor(v) for k, v in drop(a).items()}
  whole = ops.detection_metrics(config=s, **tens(all_))
  ref = DET(config=s, **{k: tf.convert_to_tensor(v) for k, v in all_.items()})
  st = None
  got = None
  # States only add up when the score cutoffs are fixed.
  for side in (0, 1) if kind else ():
    a = det_arrays([piece(i) for f, x in zip(frames, split) if x == side for i in f], 'TYPE_3D', speed)
    x = ops.detection_metrics_state(config=s, **tens(a))
    st = x if st is None else st + x
  if kind:
    got = ops.detection_metrics_result(state=st, config=s)
  c.outcome('config %d' % kind)
  for n in ref._fields:
    a, b, d = (getattr(x, n).numpy() for x in (whole, got or whole, ref))
    if not same(a, d):
      c.fail('state', '%s: %s is %s instead of %s' % (what, n, a.tolist(), d.tolist()))
    if not same(b, d, 1e-5):
      c.fail('state', '%s: %s from states is %s instead of %s' % (what, n, b.tolist(), d.tolist()))


# ------------------------------------------------------------------ evaluator
def fam_evaluator(c):
  """Histories of updates, refused updates, evaluations and resets."""
  full = m.thorough()
  kind = c.choose(2)
  # Speeds may be given in all runs (between resets), in none, or in every other.
  speed, toggle = c.pick([(False, False), (True, False), (True, True), (False, True)]) if kind == 1 else (False, False)
  hist = []
  for _ in range(1 + c.choose(5 if full else 4)):
    hist.append(c.choose(9))
  if not full and len(hist) == 4 and (sum(h * (i + 1) for i, h in enumerate(hist)) + kind + speed + toggle) % (9 if kind else 5):
    return
  if not c.go():
    return
  OPS = ['update 0', 'update 1', 'update 2', 'update 4', 'without prediction_score', 'without ground_truth_type', 'evaluate', 'result', 'reset']
  what = '%s: %s' % ('default config' if kind == 0 else 'config with speeds %s%s' % (speed, ' changing at resets' if toggle else ''), ', '.join(OPS[h] for h in hist))
  c.sample(lambda: what)
  c.state((kind, speed, toggle, tuple(hist)))
  cfg = det_config(2, 'TYPE_3D') if kind else None
  e = wod_detection_evaluator.WODDetectionEvaluator(*([cfg] if kind else []))
  ref_cfg = cfg if kind else default_config()
  done = []
  for n, h in enumerate(hist):
    c.step()
    if h < 6:
      i = [0, 1, 2, 4, 1, 1][h]
      a = det_arrays([piece(i)], 'TYPE_3D', speed)
      P = {k: tf.convert_to_tensor(v) for k, v in a.items() if k.startswith('pred')}
      G = {k: tf.convert_to_tensor(v) for k, v in a.items() if k.startswith('ground') and (speed or k != 'ground_truth_speed')}
      if h >= 4:
        (P if h == 4 else G).pop(['prediction_score', 'ground_truth_type'][h - 4])
        try:
          e.update_state(G, P)
        except ValueError:
          continue
        return c.fail('evaluator', '%s: step %d accepted' % (what, n))
      e.update_state(G, P)
      done.append(i)
    elif h == 8:
      e.reset_states()
      done = []
      speed ^= toggle
    else:
      if not done:
        # Nothing to evaluate: not judged (but it must not spoil the state).
        try:
          e.evaluate() if h == 6 else e.result()
        except Exception:  # pylint: disable=broad-except
          pass
        continue
      r = e.evaluate() if h == 6 else e.result()
      judge_eval(c, what, n, r, done, speed, ref_cfg)
      if h == 7:
        done = []
        speed ^= toggle
  if done:
    judge_eval(c, what, len(hist), e.result(), done, speed, ref_cfg)
  c.outcome('%d updates at the end' % len(done))


def judge_eval(c, what, n, got, done, speed, cfg):
  ref = det_ref(done, 'TYPE_3D', speed, cfg)
  for k, v in ref.items():
    x = getattr(got, k).numpy()
    if not same(x, v):
      c.fail('evaluator', '%s: step %d: %s is %s instead of %s' % (what, n, k, x.tolist(), v.tolist()))
      return


def default_config():
  c = metrics_pb2.Config()
  text_format.Merge("""breakdown_generator_ids: OBJECT_TYPE difficulties {levels: 1 levels: 2}
    breakdown_generator_ids: RANGE difficulties {levels: 1 levels: 2} matcher_type: TYPE_HUNGARIAN
    iou_thresholds: 0 iou_thresholds: 0.7 iou_thresholds: 0.5 iou_thresholds: 0.5 iou_thresholds: 0.5 box_type: TYPE_3D""", c)
  c.score_cutoffs.extend([i * 0.01 for i in range(100)] + [1.0])
  return c


# ------------------------------------------------------------------ tracking
def tp(q, f, o, x, t=1, s=0.9, nlz=False):
  return (q, f, o, [x, 0.0, 0.0, 4.0, 2.0, 1.5, 0.0], t, s, nlz)


def tg(q, f, o, x, t=1, d=1, v=(0.0, 0.0)):
  return (q, f, o, [x, 0.1, 0.0, 4.0, 2.0, 1.5, 0.0], t, d, v)


TPIECES = [
    ([tp('a', 1, 1, 10)], [tg('a', 1, 7, 10)]),
    ([tp('a', 2, 1, 11)], [tg('a', 2, 7, 11)]),
    ([tp('a', 2, 2, 11, s=0.7), tp('a', 2, 3, 40, s=0.2)], [tg('a', 2, 7, 11), tg('a', 2, 8, 60, 2, 2, (5, 0))]),
    ([tp('b', 1, 1, 10, 2)], [tg('b', 1, 7, 10, 2, v=(11, 0))]),
    ([], [tg('b', 2, 7, 10, 2), tg('a', 3, 7, 12)]),
    ([tp('b', 2, 1, 30, 1, 0.5, True)], []),
]


def tpiece(i):
  """Piece i % 100, its frames renumbered from 1000 * (i // 100) on."""
  P, G = TPIECES[i % 100]
  r = 1000 * (i // 100)
  return [p[:1] + (p[1] + r,) + p[2:] for p in P], [g[:1] + (g[1] + r,) + g[2:] for g in G]



def trk_config(kind, box):
  c = metrics_pb2.Config()
  text_format.Merge(["num_desired_score_cutoffs: 11 breakdown_generator_ids: OBJECT_TYPE difficulties {}",
                     """score_cutoffs: 0 score_cutoffs: 0.6 score_cutoffs: 1 breakdown_generator_ids: VELOCITY difficulties {levels: 1 levels: 2}
                     breakdown_generator_ids: ONE_SHARD difficulties {levels: 2}"""][kind], c)
  c.matcher_type = metrics_pb2.MatcherProto.TYPE_HUNGARIAN
  c.iou_thresholds.extend([0.3] * 5)
  c.box_type = label_pb2.Label.Box.Type.Value(box)
  return c


def trk_arrays(pieces, box, speed, nlz):
  P = [p for x in pieces for p in x[0]]
  G = [g for x in pieces for g in x[1]]
  n = BOX[box]

  def strs(v):
    a = np.empty(len(v), object)
    a[:] = [x.encode() for x in v]
    return a
  return dict(
      prediction_bbox=np.array([[p[3][i] for i in n] for p in P], np.float32).reshape(len(P), len(n)),
      prediction_type=np.array([p[4] for p in P], np.uint8),
      prediction_score=np.array([p[5] for p in P], np.float32),
      prediction_frame_id=np.array([p[1] for p in P], np.int64),
      prediction_sequence_id=strs([p[0] for p in P]),
      prediction_object_id=np.array([p[2] for p in P], np.int64),
      ground_truth_bbox=np.array([[g[3][i] for i in n] for g in G], np.float32).reshape(len(G), len(n)),
      ground_truth_type=np.array([g[4] for g in G], np.uint8),
      ground_truth_frame_id=np.array([g[1] for g in G], np.int64),
      ground_truth_sequence_id=strs([g[0] for g in G]),
      ground_truth_object_id=np.array([g[2] for g in G], np.int64),
      ground_truth_difficulty=np.array([g[5] for g in G], np.uint8),
      prediction_overlap_nlz=np.array([p[6] and nlz for p in P], bool),
      ground_truth_speed=np.array([g[6] if speed else (0, 0) for g in G], np.float32).reshape(len(G), 2))


def tensors(arrays):
  return {k: tf.Tensor(v) if v.dtype == object else tf.convert_to_tensor(v) for k, v in arrays.items()}


def trk_ref(pieces, box, speed, nlz, cfg):
  k = ('t', tuple(pieces), box, speed, nlz, cfg.SerializeToString())
  if k not in _memo:
    if len(_memo) > 5000:
      _memo.clear()
    r = TRK(config=cfg.SerializeToString(), **tensors(trk_arrays([tpiece(i) for i in pieces], box, speed, nlz)))
    _memo[k] = {n: v.numpy() for n, v in r._asdict().items()}
  return _memo[k]


def fam_trk(c):
  full = m.thorough()
  kind = c.choose(2)
  box = c.pick(['TYPE_3D', 'TYPE_2D', 'TYPE_AA_2D']) if kind == 0 else 'TYPE_3D'
  speed, nlz = (c.flip(), c.flip()) if kind else c.pick([(False, False), (False, True)])
  steps = seq_of_pieces(c, 4 if full else 3, len(TPIECES))
  # An object has one box per frame.
  if len(set(steps)) != len(steps) or 1 in steps and 2 in steps:
    return
  if not c.go():
    return
  judge_trk(c, kind, box, speed, nlz, steps)


def fam_trk_long(c):
  """24 updates of other frames each, in the same or in other sequences."""
  kind = c.choose(2)
  speed, nlz = c.pick([(False, False), (True, True)]) if kind else (False, False)
  pat = [c.choose(len(TPIECES)) for _ in range(3)]
  if 1 in pat and 2 in pat or not m.thorough() and (sum(pat) + kind) % 3:
    return
  if not c.go():
    return
  judge_trk(c, kind, 'TYPE_3D', speed, nlz, [100 * r + pat[r % 3] for r in range(24)])


def judge_trk(c, kind, box, speed, nlz, steps):
  what = 'tracking config %d %s speed %s zones %s updates %s' % (kind, box, speed, nlz, steps)
  c.sample(lambda: what)
  c.state((kind, box, speed, nlz, tuple(steps)))
  cfg = trk_config(kind, box)
  names = config_util_py.get_breakdown_names_from_config(cfg)
  skip = (set() if speed else {'ground_truth_speed'}) | (set() if nlz else {'prediction_overlap_nlz'})
  with tf.Graph().as_default() as g:
    ph = {}
    for n, a in trk_arrays([], box, True, True).items():
      ph[n] = v1.placeholder(tf.string if a.dtype == object else tf.as_dtype(a.dtype), [None] + list(a.shape[1:]))
    res = tracking_metrics.get_tracking_metric_ops(config=cfg, **{k: v for k, v in ph.items() if k not in skip})
    sess = v1.Session(graph=g)
    sess.run(v1.local_variables_initializer())
  if set(res) != {'%s/%s' % (n, k) for n in names for k in ('MOTA', 'MOTP', 'MISS', 'MISMATCH', 'FP')}:
    return c.fail('tracking', '%s: metrics %s' % (what, sorted(res)))

  def judge(done, when):
    ref = trk_ref(done, box, speed, nlz, cfg)
    if not ref['mota'].size:
      c.outcome('nothing to evaluate')
      return
    got = sess.run({k: v[0] for k, v in res.items()})
    for i, n in enumerate(names):
      for k in ('MOTA', 'MOTP', 'MISS', 'MISMATCH', 'FP'):
        if not same(got['%s/%s' % (n, k)], ref[k.lower()][i]):
          return c.fail('tracking', '%s: %s: %s/%s is %s instead of %s' % (what, when, n, k, got['%s/%s' % (n, k)], ref[k.lower()][i]))

  for k, s in enumerate(steps):
    if k == 1:
      judge(steps[:k], 'after one update')
    a = trk_arrays([tpiece(s)], box, speed, nlz)
    sess.run([v[1] for v in res.values()], feed_dict={ph[n]: a[n] for n in a if n not in skip})
    c.step()
  judge(steps, 'at the end')
  judge(steps, 'once more')
  # The op wrapper fills in what is left out.
  a = {k: v for k, v in tensors(trk_arrays([tpiece(i) for i in steps], box, speed, nlz)).items() if k not in skip}
  r = ops.tracking_metrics(config=cfg.SerializeToString(), **a)
  ref = trk_ref(steps, box, speed, nlz, cfg)
  for n, v in ref.items():
    if not same(getattr(r, n).numpy(), v):
      c.fail('tracking', '%s: op: %s is %s instead of %s' % (what, n, getattr(r, n).numpy().tolist(), v.tolist()))
  c.outcome('%d updates, best %s' % (len(steps), '%.1f' % ref['mota'].max() if ref['mota'].size else '-'))


# ------------------------------------------------------------------ motion
def mot_config(kind):
  c = motion_metrics_pb2.MotionMetricsConfig()
  text_format.Merge("""track_steps_per_second: 10 prediction_steps_per_second: 10 track_history_samples: 0 track_future_samples: 3
    speed_scale_lower: 1 speed_scale_upper: 1 speed_lower_bound: 1.4 speed_upper_bound: 11 max_predictions: 6
    step_configurations {measurement_step: 2 lateral_miss_threshold: 1 longitudinal_miss_threshold: 2}""", c)
  if kind:
    text_format.Merge('step_configurations {measurement_step: 0 lateral_miss_threshold: 0.5 longitudinal_miss_threshold: 1}', c)
  return c


def scenario(k, agents, groups, n, top):
  """A scenario: truth and predictions (close for small k)."""
  g = np.zeros((agents, 4, 7), np.float32)
  for a in range(agents):
    for t in range(4):
      g[a, t] = [5 * a + t * (1 + 0.5 * k), 10.0 * a, 1.5, 1.0, 0.0, 10.0, 0.0]
  ok = np.ones((agents, 4), bool)
  if k == 2:
    ok[agents - 1, 3] = False
  types = np.array([1 + (a + k) % 3 for a in range(agents)], np.int64)
  idx = np.array([[(m_ + i + (1 if agents > n and k == 1 else 0)) % agents for i in range(n)] for m_ in range(groups)], np.int64)
  mask = np.ones((groups, n), bool)
  p = np.zeros((groups, top, n, 3, 2), np.float32)
  for q in range(groups):
    for i in range(n):
      for j in range(top):
        p[q, j, i] = g[idx[q, i], 1:, :2] + [0.3 * j * (k + 1), 0.4 * (j + i) + (1.2 if k == 3 and j == 0 else 0)]
  s = np.array([[0.9 - 0.3 * ((j + k) % top) + 0.01 * q for j in range(top)] for q in range(groups)], np.float32)
  return p, s, g, ok, idx, mask, types


def fam_mot(c):
  full = m.thorough()
  kind = c.choose(2)
  agents, groups, n, top = c.pick([(1, 1, 1, 2), (2, 1, 2, 2), (3, 2, 1, 2), (3, 1, 2, 1), (2, 2, 2, 2)])
  steps = []
  for _ in range(c.choose(4 if full else 3) + 1):
    steps.append([c.choose(4) for _ in range(1 + c.choose(2))])
  oid, sid = c.flip(), c.flip()
  if not full and len(steps) == 3 and sum(len(x) for x in steps) > 4:
    return
  if not full and len(steps) > 1 and (sum(sum(x) for x in steps) + len(steps[0]) + kind + 2 * oid + sid + n) % (6 if len(steps) == 2 else 13):
    return
  if not c.go():
    return
  what = 'motion config %d, %d agents, %d groups of %d, top %d, batches %s, object ids %s, scenario ids %s' % (kind, agents, groups, n, top, steps, oid, sid)
  c.sample(lambda: what)
  c.state((kind, agents, groups, n, top, str(steps), oid, sid))
  cfg = mot_config(kind)
  names = config_util_py.get_breakdown_names_from_motion_config(cfg)
  keys = ['prediction_trajectory', 'prediction_score', 'ground_truth_trajectory', 'ground_truth_is_valid',
          'prediction_ground_truth_indices', 'prediction_ground_truth_indices_mask', 'object_type']

  def batch(ks, first):
    s = [scenario(k, agents, groups, n, top) for k in ks]
    d = {key: np.stack([x[i] for x in s]) for i, key in enumerate(keys)}
    d['object_id'] = np.array([[11 + 3 * a for a in range(agents)] for _ in ks], np.int64)
    d['scenario_id'] = np.empty(len(ks), object)
    d['scenario_id'][:] = [('s%d' % (first + i)).encode() for i in range(len(ks))]
    return d

  shape0 = batch([0], 0)
  skip = (set() if oid else {'object_id'}) | (set() if sid else {'scenario_id'})
  with tf.Graph().as_default() as g:
    ph = {k: v1.placeholder(tf.string if a.dtype == object else tf.as_dtype(a.dtype), [None] + list(a.shape[1:])) for k, a in shape0.items()}
    res = motion_metrics.get_motion_metric_ops(config=cfg, **{k: v for k, v in ph.items() if k not in skip})
    sess = v1.Session(graph=g)
    sess.run(v1.local_variables_initializer())
  out = {'minADE': 'min_ade', 'minFDE': 'min_fde', 'MissRate': 'miss_rate', 'OverlapRate': 'overlap_rate', 'mAP': 'mean_average_precision'}
  if set(res) != {'%s/%s' % (x, k) for x in names for k in out}:
    return c.fail('motion', '%s: metrics %s' % (what, sorted(res)))

  def ref_of(upto):
    bs, first = [], 0
    for ks in upto:
      bs.append(batch(ks, first))
      first += len(ks)
    d = {k: np.concatenate([b[k] for b in bs]) for k in bs[0]}
    key = ('m', kind, agents, groups, n, top, str(upto))
    if key not in _memo:
      r = MOT(config=cfg.SerializeToString(), **tensors(d))
      _memo[key] = {x: v.numpy() for x, v in r._asdict().items()}
    return _memo[key], d

  def judge(upto, when):
    ref, _ = ref_of(upto)
    got = sess.run({k: v[0] for k, v in res.items()})
    for i, x in enumerate(names):
      for k, o in out.items():
        if not same(got['%s/%s' % (x, k)], ref[o][i], 1e-5):
          return c.fail('motion', '%s: %s: %s/%s is %s instead of %s' % (what, when, x, k, got['%s/%s' % (x, k)], ref[o][i]))

  first = 0
  for k, ks in enumerate(steps):
    if k == 1:
      judge(steps[:1], 'after one update')
    b = batch(ks, first)
    first += len(ks)
    sess.run([v[1] for v in res.values()], feed_dict={ph[x]: b[x] for x in b if x not in skip})
    c.step()
  judge(steps, 'at the end')
  judge(steps, 'once more')
  ref, d = ref_of(steps)
  r = ops.motion_metrics(config=cfg.SerializeToString(), **{k: v for k, v in tensors(d).items() if k not in skip})
  for x, v in ref.items():
    if not same(getattr(r, x).numpy(), v, 1e-5):
      c.fail('motion', '%s: op: %s is %s instead of %s' % (what, x, getattr(r, x).numpy().tolist(), v.tolist()))
  c.outcome('%d updates of %d scenarios' % (len(steps), first))


# ------------------------------------------------------------------ matching
MB = [[0, 0, 0, 0, 0, 0, 0], [10, 0, 0, 4, 2, 1.5, 0], [10.6, 0, 0, 4, 2, 1.5, 0], [10, 0.5, 0.4, 4, 2, 1.5, 0.2], [20, 3, 0, 4, 2, 1.5, 1.0], [11.5, 0, 0, 4, 2, 1.5, 0]]


def fam_match(c):
  box = c.pick(['TYPE_3D', 'TYPE_2D', 'TYPE_AA_2D'])
  mt = c.pick([None, 'TYPE_HUNGARIAN', 'TYPE_SCORE_FIRST'])
  iou = c.pick([0.2, 0.5, 0.8])
  let = c.flip()
  layout = c.choose(4)   # plain, batch of one, batch of two, plain truth with batched prediction
  np_, ng = c.choose(3), c.choose(4)
  rows = [c.choose(len(MB)) for _ in range(np_)]
  cols = [c.choose(len(MB)) for _ in range(ng)]
  if not m.thorough():
    # Every combination of boxes is kept with some of the options.
    code = sum((i + 1) * x for i, x in enumerate(rows + cols)) + layout + 2 * let + {0.2: 0, 0.5: 1, 0.8: 2}[iou] + (0 if mt is None else len(mt))
    if np_ + ng >= 3 and code % (7 if np_ + ng == 3 else 24 if np_ + ng == 4 else 144):
      return
  if box != 'TYPE_3D' and (let or layout == 3):
    return
  if not c.go():
    return
  what = '%s %s iou %s let %s layout %d: predictions %s truths %s' % (box, mt, iou, let, layout, rows, cols)
  c.sample(lambda: what)
  c.state((box, mt, iou, let, layout, tuple(rows), tuple(cols)))
  d = BOX[box]
  arr = lambda ks: np.array([[MB[k][i] for i in d] for k in ks], np.float32).reshape(len(ks), len(d))
  P, G = arr(rows), arr(cols)
  if layout == 0:
    p, q, bp, bg = P, G, P[None], G[None]
  elif layout == 1:
    p, q, bp, bg = P[None], G[None], P[None], G[None]
  elif layout == 2:
    bp, bg = np.stack([P, P[::-1]]), np.stack([G, G])
    p, q = bp, bg
  else:
    p, q, bp, bg = P[None], G, P[None], G[None]
  cfg = metrics_pb2.Config()
  cfg.box_type = label_pb2.Label.Box.Type.Value(box)
  cfg.matcher_type = metrics_pb2.MatcherProto.Type.Value(mt or 'TYPE_HUNGARIAN')
  cfg.iou_thresholds.extend([0, iou, iou, iou, iou])
  cfg.score_cutoffs.append(0.0)
  cfg.breakdown_generator_ids.append(1)
  cfg.difficulties.add()
  lc = metrics_pb2.Config.LongitudinalErrorTolerantConfig(enabled=True, longitudinal_tolerance_percentage=0.1, min_longitudinal_tolerance_meter=0.5,
                                                         align_type=metrics_pb2.Config.LongitudinalErrorTolerantConfig.TYPE_RANGE_ALIGNED)
  kw = {}
  if mt:
    kw['matcher_type'] = cfg.matcher_type
  if let:
    cfg.let_metric_config.CopyFrom(lc)
    kw['let_metric_config'] = lc
  r = matcher.match(tf.constant(p), tf.constant(q), iou, cfg.box_type, **kw)
  ref = MATCH(prediction_boxes=tf.constant(bp), groundtruth_boxes=tf.constant(bg), config=cfg.SerializeToString())
  rows_of = lambda a, b, i, l: sorted(zip(a.numpy().tolist(), b.numpy().tolist(), np.round(i.numpy().astype(float), 5).tolist(), np.round(l.numpy().astype(float), 5).tolist()))
  got = rows_of(r.prediction_ids, r.groundtruth_ids, r.ious, r.longitudinal_affinities)
  want = rows_of(ref.prediction_ids, ref.groundtruth_ids, ref.ious, ref.longitudinal_affinities)
  c.outcome('%d matches' % len(got))
  if got != want:
    c.fail('match', '%s: %s instead of %s' % (what, got, want))
  fp, fg = bp.reshape(-1, len(d)), bg.reshape(-1, len(d))
  if len(set(x[0] for x in got)) != len(got) or len(set(x[1] for x in got)) != len(got):
    c.fail('match', '%s: something is matched twice in %s' % (what, got))
  for a, b, i, _ in got:
    if i < iou - 1e-4 or not fp[a].any() or not fg[b].any() or (len(P) and len(G) and a // len(P) != b // len(G)):
      c.fail('match', '%s: match %s' % (what, (a, b, i)))


m = mcpy.Main()
m.family('det', 'all sequences of up to 3 (thorough 4) of 7 updates x 6 configurations x recall and filter options', fam_det)
m.family('det-long', '30 (thorough 200) updates in patterns of three x 3 configurations x recall and filter options', fam_det_long)
m.family('evaluator-long', '40 updates in patterns of three, resets and evaluations in between', fam_evaluator_long)
m.family('trk-long', '24 updates in patterns of three', fam_trk_long)
m.family('state', 'all splits of 4 frame sets x 3 configurations', fam_state)
m.family('evaluator', 'all histories of up to 4 (thorough 5) of 9 operations x configurations', fam_evaluator)
m.family('trk', 'all sequences of up to 3 (thorough 4) of 6 updates x configurations x optional inputs', fam_trk)
m.family('mot', 'all sequences of up to 3 (thorough 4) batches of 1..2 of 4 scenarios x 5 layouts x optional ids', fam_mot)
m.family('match', 'up to 2 predictions and 3 truths of 6 boxes x box types x matchers x thresholds x batch layouts', fam_match)
raise SystemExit(m.run())

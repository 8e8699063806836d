"""C33: the latency evaluator and the conversion of its outputs to Objects."""
import contextlib
import io
import itertools
import os
import runpy
import shutil
import sys
import tempfile
import time
import types
import mcpy
import numpy as np
from waymo_open_dataset import dataset_pb2
from waymo_open_dataset.protos import metrics_pb2

m = mcpy.Main()
TH = m.thorough()
HERE = os.path.join(os.environ['WOD_PY_ROOT'], 'waymo_open_dataset', 'latency')
REAL = {n: getattr(time, n) for n in ('perf_counter', 'monotonic', 'time', 'perf_counter_ns', 'monotonic_ns', 'time_ns', 'process_time')}


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(prefix='verif_lat_')
  try:
    yield d
  finally:
    shutil.rmtree(d, ignore_errors=True)


def script(name, args):
  old = sys.argv
  sys.argv = [name] + args
  try:
    with contextlib.redirect_stdout(io.StringIO()):
      runpy.run_path(os.path.join(HERE, name), run_name='__main__')
  finally:
    sys.argv = old


class Model:
  """A wod_latency_submission with a clock that only the model and the files move."""

  def __init__(self, fields, outputs):
    self.fields, self.outputs, self.log, self.now = fields, outputs, [], 1000.0

  def module(self):
    w = types.ModuleType('wod_latency_submission')
    w.DATA_FIELDS = self.fields

    def init():
      self.now += 500
      self.log.append('init')

    def run(**kw):
      k = len([x for x in self.log if x != 'init'])
      self.log.append({n: np.array(v) for n, v in kw.items()})
      out, secs = self.outputs(kw, k)
      self.now += secs
      return out
    w.initialize_model, w.run_model = init, run
    return w

  @contextlib.contextmanager
  def installed(self):
    def slow(f):
      def g(*a, **k):
        self.now += 7
        return f(*a, **k)
      return g
    load, save = np.load, np.save
    sys.modules['wod_latency_submission'] = self.module()
    np.load, np.save = slow(load), slow(save)
    for n in REAL:
      setattr(time, n, (lambda n=n: int(self.now * 1e9) if n.endswith('_ns') else self.now))
    try:
      yield
    finally:
      np.load, np.save = load, save
      for n, f in REAL.items():
        setattr(time, n, f)
      del sys.modules['wod_latency_submission']


def key(o):
  return o.SerializeToString(deterministic=True)


def want_objects(boxes, classes, scores, ctx, ts, camera):
  out = []
  for b, t, s in zip(boxes, classes, scores):
    dims = [float(x) for x in (b[3:6] if len(b) == 7 else b[2:4])]
    if float(np.float32(s)) < 0.03 or min(dims) < 0.01:
      continue
    o = metrics_pb2.Object(context_name=ctx, frame_timestamp_micros=ts, score=float(s))
    o.object.type = int(t)
    x = o.object.box
    if len(b) == 7:
      x.center_x, x.center_y, x.center_z, x.length, x.width, x.height, x.heading = [float(v) for v in b]
    else:
      x.center_x, x.center_y, x.length, x.width = [float(v) for v in b]
      o.camera_name = dataset_pb2.CameraName.Name.Value(camera)
    out.append(key(o))
  return sorted(out)


# ---------------------------------------------------------------- the whole pipeline
CONTEXTS = ['seg-1_with_camera', 'b', '1000']
STAMPS = [1558034229922468, 12, 0]
FIELDS = {'FRONT_IMAGE': (2, 3, 3), 'TOP_RANGE_IMAGE_FIRST_RETURN': (2, 2, 6), 'TIMESTAMP': (), 'POSE_1': (4, 4), 'FRONT_INTRINSIC': (9,), 'TOP_LIDAR_EXTRINSIC': (4, 4), 'TOP_BEAM_INCLINATION': (3,), 'SIDE_LEFT_WIDTH': ()}


def field_value(name, ci, ti):
  sh = FIELDS[name]
  base = (ci * 3 + ti) * 17 + sorted(FIELDS).index(name) * 10
  dt = np.uint8 if name.endswith('_IMAGE') else np.int64 if name in ('TIMESTAMP', 'SIDE_LEFT_WIDTH') else np.float32
  return (np.arange(int(np.prod(sh)), dtype=np.int64).reshape(sh) % 7 + base).astype(dt)


def pipeline(c):
  frames = [[] for _ in CONTEXTS]
  for ci in range(3 if TH else 2):
    mask = c.choose(8 if TH else 4)
    frames[ci] = [t for t in range(3) if mask >> t & 1]
  stray, two_d, nf, counts, pre = c.choose(3), c.choose(2), c.choose(4), c.choose(4), c.choose(2)
  if not c.go():
    return
  fields = ['FRONT_IMAGE'] if two_d else [['TIMESTAMP'], ['POSE_1', 'FRONT_IMAGE'], list(FIELDS), []][nf]
  with scratch() as d:
    ind, outd = os.path.join(d, 'in'), os.path.join(d, 'out')
    os.makedirs(ind)
    where = []
    for ci, ts in enumerate(frames):
      if ts or stray == 2:
        os.makedirs(os.path.join(ind, CONTEXTS[ci]), exist_ok=True)
      if stray and os.path.isdir(os.path.join(ind, CONTEXTS[ci])):
        open(os.path.join(ind, CONTEXTS[ci], 'notes.txt'), 'w').close()
      for ti in ts:
        p = os.path.join(ind, CONTEXTS[ci], str(STAMPS[ti]))
        os.makedirs(p)
        for n in FIELDS:
          np.save(os.path.join(p, n + '.npy'), field_value(n, ci, ti))
        where.append((ci, ti))
    if stray:
      open(os.path.join(ind, 'README'), 'w').close()
    if pre:
      os.makedirs(outd)
    made = []

    def outputs(kw, k):
      n = (k + counts) % 4 if counts else 2
      i = np.arange(n, dtype=np.float32)
      b = np.stack([i + 0.1 + k, i - 3.3, i + 1, i + 4, i + 2, i * 0 + 1.5, i * 0.1 - 0.2], 1) if not two_d else np.stack([i + 5.5 + k, i + 0.25, i + 9, i + 3], 1)
      o = dict(boxes=b.astype(np.float32), scores=(0.9 - 0.3 * i).astype(np.float32), classes=((i + k) % 5).astype(np.uint8))
      made.append(o)
      return o, 0.25 + k
    mod = Model(fields, outputs)
    lat = os.path.join(d, 'latency.txt')
    with mod.installed():
      script('wod_latency_evaluator.py', ['--input_data_dir=' + ind, '--output_dir=' + outd, '--latency_result_file=' + lat])
    desc = 'frames %s fields %s stray %d counts %d' % (where, fields, stray, counts)
    if mod.log[:1] != ['init'] or mod.log.count('init') != 1:
      return c.fail('evaluator-init', 'initialised as %s: %s' % ([x for x in mod.log if x == 'init'], desc))
    runs = mod.log[1:]
    if len(runs) != len(where):
      return c.fail('evaluator-runs', '%d runs for %d frames: %s' % (len(runs), len(where), desc))
    lines = [float(x) for x in open(lat).read().split()]
    if np.abs(np.array(sorted(lines)) - np.array([0.25 + k for k in range(len(where))])).max(initial=0) > 1e-6 or len(lines) != len(where):
      return c.fail('evaluator-latency', 'latencies %s: %s' % (lines, desc))
    want = []
    order = []
    for ci, ti in where:
      exp = {n: field_value(n, ci, ti) for n in fields}
      ks = [k for k, r in enumerate(runs) if set(r) == set(exp) and all(r[n].dtype == exp[n].dtype and np.array_equal(r[n], exp[n]) for n in exp)]
      p = os.path.join(outd, CONTEXTS[ci], str(STAMPS[ti]))
      try:
        got = {n: np.load(os.path.join(p, n + '.npy')) for n in ('boxes', 'scores', 'classes')}
        names = open(os.path.join(p, 'input_fields.txt')).read().split()
      except OSError as e:
        return c.fail('evaluator-files', '%s: %s' % (e, desc))
      hit = [k for k in ks if k not in order and all(np.array_equal(got[n], made[k][n]) and got[n].dtype == made[k][n].dtype for n in got)]
      if not hit or names != fields:
        return c.fail('evaluator', 'frame %s/%s: inputs fit runs %s, saved outputs fit %s, fields %s: %s' % (CONTEXTS[ci], STAMPS[ti], ks, hit, names, desc))
      order.append(hit[0])
      want += want_objects(got['boxes'], got['classes'], got['scores'], CONTEXTS[ci], STAMPS[ti], 'FRONT')
    if not os.path.isdir(outd):
      os.makedirs(outd)
    if stray:
      open(os.path.join(outd, 'log'), 'w').close()
      for x in os.listdir(outd):
        if os.path.isdir(os.path.join(outd, x)):
          open(os.path.join(outd, x, 'log'), 'w').close()
    of = os.path.join(d, 'objs.bin')
    script('make_objects_file_from_latency_results.py', ['--results_dir', outd, '--output_file', of])
    got = sorted(key(o) for o in metrics_pb2.Objects.FromString(open(of, 'rb').read()).objects)
    if got != sorted(want):
      return c.fail('objects', '%d objects, or changed ones, instead of %d: %s' % (len(got), len(want), desc))
    c.step(len(where) + 2)
    c.state((desc, two_d))
    c.outcome('%d frames, %s' % (len(where), 'no objects' if not want else 'objects'))
    c.sample(lambda: desc)


m.family('pipeline', 'frames of up to 2 (thorough 3) contexts x requested fields x stray files x detections, 2D and 3D: evaluator, its files and timing, conversion', pipeline)


# ---------------------------------------------------------------- many frames and detections
def crowd(c):
  nc, nt, nb = c.pick([(1, 40, 5), (9, 12, 25), (25, 2, 120)])
  two_d, low, cls = c.choose(2), c.choose(3), c.choose(2)
  if not c.go():
    return
  fields = ['SIDE_RIGHT_IMAGE'] if two_d else ['POSE', 'TIMESTAMP']
  with scratch() as d:
    ind, outd = os.path.join(d, 'in'), os.path.join(d, 'out')
    frames = [('seg-%d_%d' % (i * 7919 % 101, i), 1500000000000000 + 100000 * t + i) for i in range(nc) for t in range(nt)]
    for k, (ctx, ts) in enumerate(frames):
      p = os.path.join(ind, ctx, str(ts))
      os.makedirs(p)
      for n in fields + ['OTHER']:
        np.save(os.path.join(p, n + '.npy'), np.full((3, 2), k + len(n), np.int32))
    made, want = {}, []

    def outputs(kw, k):
      f = int(kw[fields[0]][0, 0]) - len(fields[0])
      n = nb if low < 2 else (f * 7) % (nb + 1)
      i = np.arange(n, dtype=np.float32)
      ones = i * 0
      b = np.stack([i * 3 + f, i - 3.3, ones + 1, 4 + .01 * i, ones + 2, ones + 1.5, i * .1 - 2], 1) if not two_d else np.stack([i * 20 + 5.5, i + .25 + f, 9 + i, ones + 3], 1)
      s = ((i * 13 + f) % 97) / 100 if low else .5 + i / 400
      o = dict(boxes=b.astype(np.float32), scores=s.astype(np.float32), classes=((i + f * cls) % 5).astype(np.uint8))
      made[f] = (o, k)
      return o, .25 + k
    mod = Model(fields, outputs)
    lat = os.path.join(d, 'latency.txt')
    with mod.installed():
      script('wod_latency_evaluator.py', ['--input_data_dir=' + ind, '--output_dir=' + outd, '--latency_result_file=' + lat])
    desc = '%d contexts of %d frames of %d boxes, %s, scores %d, types %d' % (nc, nt, nb, '2D' if two_d else '3D', low, cls)
    if len(mod.log) != len(frames) + 1 or sorted(made) != list(range(len(frames))):
      return c.fail('evaluator-runs', '%d runs over %d of the frames: %s' % (len(mod.log) - 1, len(made), desc))
    lines = [float(x) for x in open(lat).read().split()]
    if len(lines) != len(frames) or max(abs(a - .25 - k) for k, a in enumerate(sorted(lines))) > 1e-6:
      return c.fail('evaluator-latency', '%d latencies, or wrong ones: %s' % (len(lines), desc))
    for f, (ctx, ts) in enumerate(frames):
      got = {n: np.load(os.path.join(outd, ctx, str(ts), n + '.npy')) for n in ('boxes', 'scores', 'classes')}
      if any(not np.array_equal(got[n], made[f][0][n]) for n in got):
        return c.fail('evaluator', 'frame %s/%s holds other outputs: %s' % (ctx, ts, desc))
      o = made[f][0]
      want += want_objects(o['boxes'], o['classes'], o['scores'], ctx, ts, 'SIDE_RIGHT')
    of = os.path.join(d, 'objs.bin')
    script('make_objects_file_from_latency_results.py', ['--results_dir', outd, '--output_file', of])
    got = sorted(key(o) for o in metrics_pb2.Objects.FromString(open(of, 'rb').read()).objects)
    c.step(len(frames) + 2)
    if got != sorted(want):
      return c.fail('objects', '%d objects, or changed ones, instead of %d: %s' % (len(got), len(want), desc))
    c.state(desc)
    c.outcome('%d frames' % len(frames))
    c.sample(lambda: desc)


m.family('pipeline-crowd', '1 x 40 x 5, 9 x 12 x 25, 25 x 2 x 120 contexts x frames x boxes, 2D and 3D, scores and types', crowd)


# ---------------------------------------------------------------- conversion alone
SIZES = [(0.9, (4, 2, 1.5)), (0.02, (4, 2, 1.5)), (0.04, (4, 2, 1.5)), (0.5, (0.005, 2, 1.5)), (0.5, (4, 0.005, 1.5)), (0.5, (4, 2, 0.005)), (1.0, (0.02, 0.02, 0.02)), (0.0, (4, 2, 1)), (0.6, (-1, 2, 1.5))]
INPUTS = [['FRONT_IMAGE'], ['SIDE_LEFT_IMAGE'], ['FRONT_POSE'], ['FRONT_IMAGE_1'], ['FRONT_IMAGE', 'FRONT_LEFT_IMAGE'], None, [], ['TOP_RANGE_IMAGE_FIRST_RETURN', 'POSE'], ['REAR_IMAGE'], ['TOP_IMAGE'], ['front_IMAGE']]


def convert(c):
  two_d, inp, dt = c.choose(2), c.choose(len(INPUTS)), c.choose(2)
  n = c.choose(4 if TH else 3)
  it = [c.choose(len(SIZES)) for _ in range(n)]
  t0 = c.choose(5)
  if not TH and n == 2 and (it[0] + 2 * it[1] + inp + t0 + dt) % 3:
    return
  if n == 3 and (it[0] + 2 * it[1] + 3 * it[2] + inp) % 5:
    return
  if not c.go():
    return
  f = [np.float32, np.float64][dt]
  boxes = np.zeros((n, 4 if two_d else 7), f)
  scores, classes = np.zeros(n, f), np.zeros(n, np.uint8)
  for k, i in enumerate(it):
    s, d = SIZES[i]
    boxes[k] = (50 + k, 7.5, d[0], d[1]) if two_d else (10 + k, -3, 1, d[0], d[1], d[2], 0.7 - k)
    scores[k], classes[k] = s, (t0 + 2 * k) % 5
  with scratch() as d:
    sub = os.path.join(d, 'ctx', '77')
    os.makedirs(sub)
    for nm, v in (('boxes', boxes), ('scores', scores), ('classes', classes)):
      np.save(os.path.join(sub, nm), v)
    if INPUTS[inp] is not None:
      with open(os.path.join(sub, 'input_fields.txt'), 'w') as g:
        g.write('\n'.join(INPUTS[inp]))
    of = os.path.join(d, 'o')
    desc = '%s boxes %s types from %d, inputs %s, %s' % ('2D' if two_d else '3D', it, t0, INPUTS[inp], f.__name__)
    c.step()
    c.state(desc)
    bad = two_d and n and inp not in (0, 1, 8)
    try:
      script('make_objects_file_from_latency_results.py', ['--results_dir', d, '--output_file', of])
    except Exception as e:  # pylint: disable=broad-except
      if not bad:
        return c.fail('convert-refused', '%s: %s' % (desc, e))
      return c.outcome('refused')
    if bad:
      return c.fail('convert-accepted', '2D boxes without exactly one camera image are accepted: ' + desc)
    got = sorted(key(o) for o in metrics_pb2.Objects.FromString(open(of, 'rb').read()).objects)
    want = want_objects(boxes, classes, scores, 'ctx', 77, (INPUTS[inp] or ['X'])[0][:-6])
    if got != want:
      return c.fail('convert', '%d objects, or changed ones, instead of %d: %s' % (len(got), len(want), desc))
    c.outcome('kept %d of %d' % (len(got), n))


m.family('convert', 'arrays of up to 2 (thorough 3) 2D or 3D boxes (scores, small sizes, types, dtypes) x requested inputs', convert)


# ---------------------------------------------------------------- malformed outputs
def malformed(c):
  kind, first = c.choose(8), c.choose(2)
  if not c.go():
    return
  with scratch() as d:
    for t in ('1', '2'):
      os.makedirs(os.path.join(d, 'in', 'ctx', t))
      np.save(os.path.join(d, 'in', 'ctx', t, 'POSE.npy'), np.eye(4))

    def outputs(kw, k):
      o = dict(boxes=np.zeros((2, 7), np.float32), scores=np.ones(2, np.float32), classes=np.ones(2, np.uint8))
      if kind and (k == 0) == (first == 0):
        if kind == 1: del o['boxes']
        if kind == 2: del o['scores']
        if kind == 3: o['extra'] = np.zeros(2)
        if kind == 4: o['labels'] = o.pop('classes')
        if kind == 5: o['scores'] = np.ones(3)
        if kind == 6: o['classes'] = np.ones(1, np.uint8)
        if kind == 7: o['boxes'] = np.zeros((0, 7))
      return o, 1.0
    mod = Model(['POSE'], outputs)
    try:
      with mod.installed():
        script('wod_latency_evaluator.py', ['--input_data_dir=' + os.path.join(d, 'in'), '--output_dir=' + os.path.join(d, 'out'), '--latency_result_file=' + os.path.join(d, 'lat')])
      ok = True
    except Exception:  # pylint: disable=broad-except
      ok = False
    c.step()
    c.state((kind, first))
    if ok != (kind == 0):
      return c.fail('malformed', 'outputs of kind %d are %s' % (kind, 'accepted' if ok else 'refused'))
    c.outcome('accepted' if ok else 'refused')


m.family('malformed', 'model outputs with missing, extra or renamed arrays or different lengths, in the first or second frame', malformed)

raise SystemExit(m.run())

"""C28: realism metrics of simulated agents: features, likelihoods, meta-metric."""
import dataclasses
import itertools
import math
import os
import sys

import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcpy
import tensorflow as tf
from waymo_open_dataset.protos import map_pb2
from waymo_open_dataset.protos import scenario_pb2
from waymo_open_dataset.protos import sim_agents_metrics_pb2
from waymo_open_dataset.protos import sim_agents_submission_pb2 as sub
from waymo_open_dataset.utils import trajectory_utils
from waymo_open_dataset.utils.sim_agents import converters
from waymo_open_dataset.utils.sim_agents import submission_specs
from waymo_open_dataset.wdl_limited.sim_agents_metrics import estimators
from waymo_open_dataset.wdl_limited.sim_agents_metrics import interaction_features
from waymo_open_dataset.wdl_limited.sim_agents_metrics import map_metric_features
from waymo_open_dataset.wdl_limited.sim_agents_metrics import metric_features
from waymo_open_dataset.wdl_limited.sim_agents_metrics import metrics
from waymo_open_dataset.wdl_limited.sim_agents_metrics import traffic_light_features
from waymo_open_dataset.wdl_limited.sim_agents_metrics import trajectory_features

PI = math.pi
FAR = 1e9
CFG = sim_agents_metrics_pb2.SimAgentMetricsConfig
CH = submission_specs.ChallengeType


def f32(x):
  return tf.constant(np.asarray(x, np.float32))


def same(a, b, tol=1e-3):
  """Equal up to tolerance, NaN where NaN is expected."""
  a, b = np.asarray(a, float), np.asarray(b, float)
  if a.shape != b.shape:
    return False
  n = np.isnan(b)
  return bool(np.all(np.isnan(a) == n)) and bool(np.all(np.abs(a[~n] - b[~n]) <= tol * (1 + np.abs(b[~n]))))


def wrap(a):
  return (a + PI) % (2 * PI) - PI


# ------------------------------------------------------------------ kinematics
def ref_kinematics(x, y, z, h, dt):
  n = len(x)
  nan = float('nan')
  v = [nan] * n
  w = [nan] * n          # per step
  for t in range(1, n - 1):
    v[t] = math.sqrt(sum(((a[t + 1] - a[t - 1]) / 2) ** 2 for a in (x, y, z))) / dt
    w[t] = wrap(h[t + 1] - h[t - 1]) / 2
  acc = [nan] * n
  al = [nan] * n
  for t in range(1, n - 1):
    acc[t] = (v[t + 1] - v[t - 1]) / 2 / dt
    d = w[t + 1] - w[t - 1]
    al[t] = wrap(d) / 2 / dt / dt if not math.isnan(d) else nan
  return v, acc, [a / dt for a in w], al


def fam_kinematics(c):
  n = 3 + c.choose(4)
  dt = c.pick([0.1, 0.5])
  kind = c.choose(4)
  heads = [c.pick([0.1, 1.5, -3.0, 3.0]) for _ in range(n if n < 6 or m.thorough() else 4)]
  if not c.go():
    return
  heads = (heads * 2)[:n]
  xs = [[0.0, 1.0, 3.0, 2.0, 2.0, 7.0], [5.0] * 6, [1.0, -2.0, 4.0, -8.0, 0.5, 0.25], [0.0, 0.3, 0.6, 0.9, 1.2, 1.5]][kind][:n]
  ys = [[2.0, 2.0, 1.0, 1.0, 0.0, -3.0], [1.0] * 6, [0.0, 0.1, 0.4, 0.9, 1.6, 2.5], [0.0] * 6][kind][:n]
  zs = [[0.0, 0.0, 0.5, 1.0, 1.0, 1.0], [0.0] * 6, [3.0, 2.0, 1.0, 1.0, 2.0, 3.0], [0.0] * 6][kind][:n]
  want = ref_kinematics(xs, ys, zs, heads, dt)
  # Two objects: the second is the first reversed in time.
  want2 = ref_kinematics(xs[::-1], ys[::-1], zs[::-1], heads[::-1], dt)
  got = trajectory_features.compute_kinematic_features(*[f32([a, a[::-1]]) for a in (xs, ys, zs, heads)], seconds_per_step=dt)
  what = 'steps %d dt %s path %d headings %s' % (n, dt, kind, heads)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%d steps' % n)
  for k, name in enumerate(('linear speed', 'linear acceleration', 'angular speed', 'angular acceleration')):
    if not same(got[k].numpy(), [want[k], want2[k]], 2e-3):
      c.fail('kinematics', '%s: %s is %s, expected %s' % (what, name, got[k].numpy().tolist(), [want[k], want2[k]]))
  e = trajectory_features.compute_displacement_error(f32(xs), f32(ys), f32(zs), f32(ys), f32(zs), f32(xs)).numpy()
  if not same(e, [math.dist((a, b, d), (b, d, a)) for a, b, d in zip(xs, ys, zs)]):
    c.fail('displacement', '%s: displacement %s' % (what, e.tolist()))


def ref_validity(v):
  n = len(v)
  s = [0 < t < n - 1 and v[t - 1] and v[t + 1] for t in range(n)]
  a = [0 < t < n - 1 and s[t - 1] and s[t + 1] for t in range(n)]
  return s, a


def fam_validity(c):
  n = 2 + c.choose(6)
  v = [c.flip() for _ in range(n)]
  if not c.go():
    return
  got = trajectory_features.compute_kinematic_validity(tf.constant([v, v[::-1]]))
  c.state(v)
  c.outcome('%d steps' % n)
  for g, w, w2 in zip(got, ref_validity(v), ref_validity(v[::-1])):
    if g.numpy().tolist() != [list(map(bool, w)), list(map(bool, w2))]:
      c.fail('validity', 'validity %s: %s, expected %s' % (v, g.numpy().tolist(), [w, w2]))


def fam_long_paths(c):
  """91 steps: a drive with turns, stops and holes."""
  n = c.pick([11, 50, 91, 200])
  dt = c.pick([0.1, 0.5])
  turn = c.pick([0.0, 0.03, -0.4, 1.2])
  wave = c.pick([0.0, 0.7, 5.0])
  hole = c.pick([None, 0, 1, 9, n - 2, n - 1])
  every = c.pick([0, 3, 7])
  if not c.go():
    return
  hs = [wrap(0.3 + turn * t) for t in range(n)]
  xs = [0.2 * t + wave * math.sin(0.2 * t) for t in range(n)]
  ys = [wave * math.cos(0.31 * t) - 0.01 * t * t * dt for t in range(n)]
  zs = [0.05 * (t % 13) for t in range(n)]
  v = [t != hole and not (every and t % every == every - 1) for t in range(n)]
  what = '%d steps of %s, turning by %s, wave %s, hole %s, every %s' % (n, dt, turn, wave, hole, every)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%d steps' % n)
  want = ref_kinematics(xs, ys, zs, hs, dt)
  want2 = ref_kinematics(xs[::-1], ys[::-1], zs[::-1], hs[::-1], dt)
  got = trajectory_features.compute_kinematic_features(*[f32([a, a[::-1]]) for a in (xs, ys, zs, hs)], seconds_per_step=dt)
  for k, name in enumerate(('linear speed', 'linear acceleration', 'angular speed', 'angular acceleration')):
    # Float noise grows with the division by the step.
    g, w = got[k].numpy(), np.array([want[k], want2[k]])
    nan = np.isnan(w)
    if g.shape != w.shape or not np.all(np.isnan(g) == nan) or np.abs(g[~nan] - w[~nan]).max() > 2e-2 * (1 + np.abs(w[~nan]).max()):
      c.fail('kinematics', '%s: %s is %s, expected %s' % (what, name, g.tolist(), w.tolist()))
  ok = trajectory_features.compute_kinematic_validity(tf.constant([v, v[::-1]]))
  for g, w, w2 in zip(ok, ref_validity(v), ref_validity(v[::-1])):
    if g.numpy().tolist() != [list(map(bool, w)), list(map(bool, w2))]:
      c.fail('validity', '%s: validity %s, expected %s' % (what, g.numpy().tolist(), [w, w2]))


# ------------------------------------------------------------------ nearest object
def corners(x, y, l, w, h):
  ca, sa = math.cos(h), math.sin(h)
  return [(x + a * l / 2 * ca - b * w / 2 * sa, y + a * l / 2 * sa + b * w / 2 * ca) for a, b in ((1, 1), (-1, 1), (-1, -1), (1, -1))]


def seg_dist(p, a, b):
  d = (b[0] - a[0], b[1] - a[1])
  n = d[0] * d[0] + d[1] * d[1]
  t = max(0.0, min(1.0, ((p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]) / n)) if n else 0.0
  return math.hypot(p[0] - a[0] - t * d[0], p[1] - a[1] - t * d[1])


def box_distance(a, b, f):
  """Signed distance of two rounded rectangles (x, y, l, w, heading)."""
  ra, rb = min(a[2], a[3]) * f / 2, min(b[2], b[3]) * f / 2
  pa = corners(a[0], a[1], a[2] - 2 * ra, a[3] - 2 * ra, a[4])
  pb = corners(b[0], b[1], b[2] - 2 * rb, b[3] - 2 * rb, b[4])
  gap = -1e30
  for h in (a[4], a[4] + PI / 2, b[4], b[4] + PI / 2):
    ux, uy = math.cos(h), math.sin(h)
    ia = [p[0] * ux + p[1] * uy for p in pa]
    ib = [p[0] * ux + p[1] * uy for p in pb]
    gap = max(gap, min(ib) - max(ia), min(ia) - max(ib))
  if gap > 0:
    gap = min(min(seg_dist(p, q[i], q[(i + 1) % 4]) for p in s for i in range(4)) for s, q in ((pa, pb), (pb, pa)))
  return gap - ra - rb


SIZE = [(4.5, 2.0), (1.0, 1.0), (0.8, 3.0)]
TURN = [0.0, 0.5, PI / 2, -2.4, 3.0]
SHIFT = [(6.0, 0.4), (0.0, 0.0), (2.0, 1.5), (-3.0, -7.0), (4.4, 0.1), (0.3, 2.4)]


def run_nearest(objs, valid, mask, f=None):
  """objs[i][t] = (x, y, l, w, h)."""
  a = np.array(objs, np.float32)
  kw = {} if f is None else dict(corner_rounding_factor=f)
  return interaction_features.compute_distance_to_nearest_object(
      center_x=f32(a[..., 0]), center_y=f32(a[..., 1]), center_z=f32(a[..., 0] * 0 + 1), length=f32(a[..., 2]), width=f32(a[..., 3]), height=f32(a[..., 0] * 0 + 1.5), heading=f32(a[..., 4]),
      valid=tf.constant(np.array(valid, bool)), evaluated_object_mask=tf.constant(np.array(mask, bool)), **kw).numpy()


def ref_nearest(objs, valid, mask, f=0.7):
  out = []
  for i, o in enumerate(objs):
    if not mask[i]:
      continue
    row = []
    for t in range(len(o)):
      ds = [box_distance(o[t], p[t], f) for j, p in enumerate(objs) if j != i and valid[i][t] and valid[j][t]]
      row.append(min(ds) if ds else None)
    out.append(row)
  return out


def cmp_far(got, want, tol=3e-3):
  if got.shape != (len(want), len(want[0]) if want else 0):
    return 'shape %s' % (got.shape,)
  for i, row in enumerate(want):
    for t, w in enumerate(row):
      if (w is None and abs(got[i, t]) < FAR) or (w is not None and abs(got[i, t] - w) > tol):
        return 'object %d step %d is %s, expected %s' % (i, t, got[i, t], w)


def fam_nearest_pair(c):
  s1, s2 = c.pick(SIZE), c.pick(SIZE)
  h1, h2 = c.pick(TURN), c.pick(TURN)
  d = c.pick(SHIFT)
  f = c.pick([None, 0.0, 0.4] + ([0.95] if m.thorough() else []))
  mask = c.pick([(1, 0), (0, 1), (1, 1)])
  if not c.go():
    return
  objs = [[(10.0, -5.0) + s1 + (h1,), (-2.0, 3.0) + s1 + (h1,)], [(10.0 + d[0], -5.0 + d[1]) + s2 + (h2,), (-2.0 + 2 * d[1], 3.0 + d[0]) + s2 + (h1 - h2,)]]
  valid = [[1, 1], [1, 1]]
  what = 'sizes %s %s headings %s %s shift %s rounding %s evaluated %s' % (s1, s2, h1, h2, d, f, mask)
  c.state(what)
  c.sample(lambda: what)
  want = ref_nearest(objs, valid, mask, 0.7 if f is None else f)
  bad = cmp_far(run_nearest(objs, valid, mask, f), want)
  c.outcome('colliding' if want[0][0] < 0 else 'apart')
  if bad:
    c.fail('nearest', '%s: %s' % (what, bad))


def fam_nearest_group(c):
  n = 1 + c.choose(4)
  valid = [[c.flip() for _ in range(2)] for _ in range(min(n, 3))] + [[1, 1]] * max(0, n - 3)
  mask = [c.flip() for _ in range(n)]
  lay = c.choose(3)
  if not any(mask):
    return
  if not c.go():
    return
  base = [(0, 0, 4.5, 2, 0.0), (3, 2.5, 4, 1.8, 0.4), (9, 0.5, 1, 1, 2.0), (-6, 1, 0.8, 3, -1.0)]
  objs = [[base[(i + lay) % 4], base[(2 * i + lay + 1) % 4][:2] + base[i][2:]] for i in range(n)]
  what = 'objects %d layout %d valid %s evaluated %s' % (n, lay, valid, mask)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%d objects' % n)
  # Two objects at the same place: depth of the overlap is still defined.
  bad = cmp_far(run_nearest(objs, valid, mask), ref_nearest(objs, valid, mask))
  if bad:
    c.fail('nearest', '%s: %s' % (what, bad))


def fam_nearest_crowd(c):
  """Many objects in any order; the nearest one may stand anywhere in the list."""
  n = c.pick([9, 17, 40] if m.thorough() else [9, 17, 33])
  lay = c.choose(3)
  place = c.choose(5)
  gone = c.pick([0, 2, 5])
  who = c.pick(['all', 'first', 'last', 'some'])
  if not c.go():
    return
  rot = [0, 1, n // 2, n - 2, n - 1][place]
  objs, valid = [], []
  for i in range(n):
    k = (i + rot) % n
    s = SIZE[k % 3] if lay != 1 else SIZE[0]
    x, y = [(k * 6.1, (k * k % 7) * 2.3), (k % 6 * 8.0, k // 6 * 5.0), (math.cos(k) * (10 + k), math.sin(k) * (10 + k))][lay]
    objs.append([(x, y) + s + (wrap(0.37 * k),), (y * 0.9 + 0.1, x) + s + (wrap(1 - 0.9 * k),)])
    valid.append([not gone or k % gone != 1, not gone or k % (gone + 1) != 0])
  mask = [who == 'all' or i == {'first': 0, 'last': n - 1}.get(who, -1) or who == 'some' and i % 4 == 1 for i in range(n)]
  what = '%d objects layout %d from %d gone %d evaluated %s' % (n, lay, rot, gone, who)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%d objects' % n)
  bad = cmp_far(run_nearest(objs, valid, mask), ref_nearest(objs, valid, mask))
  if bad:
    c.fail('nearest', '%s: %s' % (what, bad))
  # Cars of that many, on two roads.
  cars = [drive(13.0 * (k // 2) + 0.4 * (k % 3), 4.0 * (k % 2), 0.02 * (k % 4 - 1), 3.0 + (k * 5 % 7), (4.0 + 0.1 * (k % 3), 1.9)) for k in [(i + rot) % n for i in range(n)]]
  vs = [[not gone or (k + t) % (gone + 1) != 1 for t in range(4)] for k in [(i + rot) % n for i in range(n)]]
  bad = cmp_some(run_ttc(cars, vs, mask, 0.5), ref_ttc(cars, vs, mask, 0.5))
  if bad:
    c.fail('ttc', '%s: time to collision of %s' % (what, bad))


# ------------------------------------------------------------------ time to collision
def ref_ttc(objs, valid, mask, dt):
  """objs[i][t] = (x, y, l, w, h); None = not judged."""
  n, steps = len(objs), len(objs[0])
  sp = [ref_kinematics([o[t][0] for t in range(steps)], [o[t][1] for t in range(steps)], [0] * steps, [o[t][4] for t in range(steps)], dt)[0] for o in objs]
  out = []
  for i in range(n):
    if not mask[i]:
      continue
    row = []
    for t in range(steps):
      e = objs[i][t]
      cand, murky = [], False
      for j in range(n):
        if not valid[j][t] or j == i:
          continue
        o = objs[j][t]
        yd = abs(wrap(o[4] - e[4]))
        cd, sd = abs(math.cos(yd)), abs(math.sin(yd))
        rx = (o[0] - e[0]) * math.cos(e[4]) + (o[1] - e[1]) * math.sin(e[4])
        ry = -(o[0] - e[0]) * math.sin(e[4]) + (o[1] - e[1]) * math.cos(e[4])
        lon = rx - e[2] / 2 - (o[2] * cd + o[3] * sd) / 2
        lat = abs(ry) - e[3] / 2 - (o[2] * sd + o[3] * cd) / 2
        edges = [lon, yd - math.radians(75), lat, lat + 0.5, yd - math.radians(10)]
        if any(abs(x) < 2e-3 for x in edges):
          murky = True
        if lon > 0 and yd <= math.radians(75) and lat < 0 and (lat < -0.5 or yd <= math.radians(10)):
          cand.append((lon, j))
      if not valid[i][t] or murky:
        row.append(None)
        continue
      cand.sort()
      if len(cand) > 1 and cand[1][0] - cand[0][0] < 2e-3:
        row.append(None)
        continue
      if not cand:
        row.append(5.0)
        continue
      rel = sp[i][t] - sp[cand[0][1]][t]
      if abs(rel) < 1e-4:
        row.append(None)
      else:
        row.append(min(cand[0][0] / rel, 5.0) if rel > 0 else 5.0)
    out.append(row)
  return out


def run_ttc(objs, valid, mask, dt):
  a = np.array(objs, np.float32)
  return interaction_features.compute_time_to_collision_with_object_in_front(
      center_x=f32(a[..., 0]), center_y=f32(a[..., 1]), length=f32(a[..., 2]), width=f32(a[..., 3]), heading=f32(a[..., 4]),
      valid=tf.constant(np.array(valid, bool)), evaluated_object_mask=tf.constant(np.array(mask, bool)), seconds_per_step=dt).numpy()


def cmp_some(got, want, tol=5e-3):
  if got.shape != (len(want), len(want[0]) if want else 0):
    return 'shape %s' % (got.shape,)
  for i, row in enumerate(want):
    for t, w in enumerate(row):
      if w is not None and not abs(got[i, t] - w) <= tol:
        return 'object %d step %d is %s, expected %s' % (i, t, got[i, t], w)


def drive(x, y, h, v, size, steps=4, dt=0.5):
  return [(x + v * dt * t * math.cos(h), y + v * dt * t * math.sin(h)) + size + (wrap(h),) for t in range(steps)]


def fam_ttc_pair(c):
  h = c.pick([0.0, 1.3, PI - 0.05, -2.0, PI / 2])
  dh = c.pick([0.0, 0.1, -0.15, 0.5, -1.2, 1.45, 3.0])
  ahead = c.pick([6.0, 3.2, 14.0, -6.0])
  side = c.pick([0.0, 0.7, -1.3, 1.8, 2.4])
  v1, v2 = c.pick([0.0, 4.0, 9.0]), c.pick([0.0, 2.5, 11.0])
  mask = c.pick([(1, 0), (1, 1)])
  if v1 == 0.0 and (side or dh):
    return
  if not c.go():
    return
  dt = 0.5
  a = drive(3.0, -2.0, h, v1, (4.5, 2.0), dt=dt)
  b = drive(3.0 + ahead * math.cos(h) - side * math.sin(h), -2.0 + ahead * math.sin(h) + side * math.cos(h), h + dh, v2, (4.0, 1.6), dt=dt)
  objs, valid = [a, b], [[1] * 4] * 2
  what = 'heading %.2f turned %.2f ahead %.1f aside %.1f speeds %s %s evaluated %s' % (h, dh, ahead, side, v1, v2, mask)
  c.state(what)
  c.sample(lambda: what)
  want = ref_ttc(objs, valid, mask, dt)
  c.outcome('closing in' if any(w is not None and w < 5 for w in want[0]) else 'free')
  bad = cmp_some(run_ttc(objs, valid, mask, dt), want)
  if bad:
    c.fail('ttc', '%s: time to collision of %s' % (what, bad))


def fam_ttc_group(c):
  pats = [(1, 1, 1, 1), (1, 0, 1, 1), (0, 1, 1, 0), (1, 1, 0, 1)]
  valid = [c.pick(pats) for _ in range(3)]
  mask = [c.flip() for _ in range(4)]
  order = c.pick(list(itertools.permutations(range(4))) if m.thorough() else list(itertools.permutations(range(4)))[::5])
  lane = c.choose(2)
  if not any(mask):
    return
  if not c.go():
    return
  cars = [drive(0, 0, 0.0, 8.0, (4.5, 2.0)), drive(9, 0.3, 0.05, 5.0, (4.0, 1.9)), drive(20, 0.1, 0.0, 1.0, (4.0, 1.9)), drive(14.0, 3.4 * lane + 0.2, -0.02, 3.0, (0.8, 0.8))]
  vs = list(valid) + [(1, 1, 1, 1)]
  objs = [cars[i] for i in order]
  v = [vs[i] for i in order]
  what = 'cars %s valid %s evaluated %s lane %d' % (order, v, mask, lane)
  c.state(what)
  c.outcome('%d evaluated' % sum(mask))
  bad = cmp_some(run_ttc(objs, v, mask, 0.5), ref_ttc(objs, v, mask, 0.5))
  if bad:
    c.fail('ttc', '%s: time to collision of %s' % (what, bad))


# ------------------------------------------------------------------ road edges
def point(p):
  return map_pb2.MapPoint(x=p[0], y=p[1], z=p[2])


def signed_edge(p, lines):
  """Signed distance of a point to the boundary, or None when it is not clear cut."""
  best, cands = 1e30, []
  for k, line in enumerate(lines):
    closed = sum((a - b) ** 2 for a, b in zip(line[0], line[-1])) < 1.0
    n = len(line) - 1
    segs = [(line[i], line[i + 1]) for i in range(n)]
    for i, (a, b) in enumerate(segs):
      d = (b[0] - a[0], b[1] - a[1])
      q = d[0] ** 2 + d[1] ** 2
      t = ((p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]) / q
      u = max(0.0, min(1.0, t))
      off = [p[j] - a[j] - u * (b[j] - a[j]) for j in range(3)]
      d3 = math.sqrt(off[0] ** 2 + off[1] ** 2 + 9 * off[2] ** 2)
      d2 = math.hypot(off[0], off[1])
      def side(s):
        (x0, y0, _), (x1, y1, _) = s
        return (p[0] - x0) * (y1 - y0) - (p[1] - y0) * (x1 - x0)     # positive to starboard
      j = i - 1 if t < 0 else i + 1 if t > 1 else i
      if closed:
        j %= n
      elif not 0 <= j < n:
        j = i
      first, second = (j, i) if t < 0 else (i, j)
      s1, s2 = side(segs[first]), side(segs[second])
      (x0, y0, _), (x1, y1, _) = segs[first]
      (x2, y2, _), (x3, y3, _) = segs[second]
      turn = (x1 - x0) * (y3 - y2) - (y1 - y0) * (x3 - x2)
      out = (s1 > 0 or s2 > 0) if turn > 0 else (s1 > 0 and s2 > 0)
      clear = abs(s1) > 1e-3 and abs(s2) > 1e-3
      cands.append((d3, d2 if out else -d2, clear))
      best = min(best, d3)
  near = [x for x in cands if x[0] < best + 2e-3]
  vals = [x[1] for x in near]
  if not all(x[2] for x in near) and max(abs(v) for v in vals) > 1e-3:
    return None
  if max(vals) - min(vals) > 5e-3:
    return None
  return vals[0]


SQUARE = [(0, 0, 0), (20, 0, 0), (20, 12, 0), (0, 12, 0), (0, 0, 0)]
DART = [(0, 0, 0), (24, 5, 0), (0, 10, 0), (3, 5, 0), (0, 0, 0)]
LINE = [(-5, -3, 0), (8, -3, 0), (14, 2, 0), (15, 9, 0), (9, 14, 0), (2, 15, 0), (-3, 13, 0)]
HOOK = [(0, 0, 0), (12, 0, 0), (1, 2, 0)]
STRAIGHT = [(-10, 6, 0), (30, 5, 0)]
NEARLY = [(0, 0, 0), (10, 0, 0), (10, 10, 0), (0, 10, 0), (0, 0.5, 0)]


def rev(l):
  return l[::-1]


def up(l, z):
  return [(x, y, z) for x, y, _ in l]


MAPS = [[SQUARE], [rev(SQUARE)], [DART], [rev(DART)], [LINE], [rev(LINE)], [HOOK], [STRAIGHT], [NEARLY],
        [SQUARE, LINE], [LINE, rev(DART)], [up(LINE, 6.0), SQUARE], [STRAIGHT, rev(SQUARE)], [HOOK, LINE], [DART, up(rev(LINE), -5.0)],
        [LINE, DART, [(3, 3, 0)]], [[(1, 1, 0)], SQUARE[:3], LINE], [SQUARE[:4], [(40, 40, 0), (41, 40, 0), (41, 41, 0), (40, 41, 0), (40.5, 40.5, 0), (40, 40, 0)], DART]]
SPOT = [(x + 0.13, y + 0.27) for x in (-6.0, 1.0, 9.0, 19.0, 26.0) for y in (-6.0, 0.0, 5.0, 9.0, 14.0)]


def run_edge(objs, valid, mask, lines):
  a = np.array(objs, np.float32)
  return map_metric_features.compute_distance_to_road_edge(
      center_x=f32(a[..., 0]), center_y=f32(a[..., 1]), center_z=f32(a[..., 5]), length=f32(a[..., 2]), width=f32(a[..., 3]), height=f32(a[..., 6]), heading=f32(a[..., 4]),
      valid=tf.constant(np.array(valid, bool)), evaluated_object_mask=tf.constant(np.array(mask, bool)), road_edge_polylines=[[point(p) for p in l] for l in lines]).numpy()


def ref_edge(objs, valid, mask, lines):
  lines = [l for l in lines if len(l) > 1]
  out = []
  for i, o in enumerate(objs):
    if not mask[i]:
      continue
    row = []
    for t, (x, y, l, w, h, z, ht) in enumerate(o):
      if not valid[i][t]:
        row.append('invalid')
        continue
      vs = [signed_edge((px, py, z - ht / 2), lines) for px, py in corners(x, y, l, w, h)]
      row.append(None if None in vs else max(vs))
    out.append(row)
  return out


def cmp_edge(got, want):
  if got.shape != (len(want), len(want[0]) if want else 0):
    return 'shape %s' % (got.shape,)
  for i, row in enumerate(want):
    for t, w in enumerate(row):
      if w is None:
        continue
      if (w == 'invalid' and got[i, t] > -FAR) or (w != 'invalid' and abs(got[i, t] - w) > 5e-3):
        return 'object %d step %d is %s, expected %s' % (i, t, got[i, t], w)


def fam_edges(c):
  lines = c.pick(MAPS)
  size = c.pick([(0.02, 0.02), (4.0, 1.8)])
  h = c.pick([0.3, -2.0, PI / 2])
  z = c.pick([0.0, 5.5])
  row = c.choose(5)
  if not c.go():
    return
  spots = SPOT[5 * row:5 * row + 5]
  objs = [[(x, y) + size + (h, z + 0.75, 1.5) for x, y in spots]]
  valid, mask = [[1] * 5], [1]
  what = 'map %s size %s heading %.1f height %.1f places %s' % (lines, size, h, z, spots)
  c.state((repr(lines), size, h, z, row))
  c.sample(lambda: what)
  want = ref_edge(objs, valid, mask, lines)
  for w in want[0]:
    c.outcome('unclear' if w is None else 'off road' if w > 0 else 'on road')
  bad = cmp_edge(run_edge(objs, valid, mask, lines), want)
  if bad:
    c.fail('edge', '%s: distance to road edge of %s' % (what, bad))


def fam_edge_sets(c):
  valid = [[c.flip(), c.flip()] for _ in range(3)]
  mask = [c.flip() for _ in range(3)]
  if not any(mask):
    return
  empty = c.flip() if all(mask) else False
  if not c.go():
    return
  objs = [[(x, y, 4.0, 1.8, 0.4, 0.75, 1.5) for x, y in SPOT[2 * i:2 * i + 2]] for i in (1, 4, 7)]
  what = 'valid %s evaluated %s' % (valid, mask)
  c.state((valid, mask, empty))
  if empty:
    try:
      run_edge(objs, valid, mask, [])
      c.fail('edge', 'no road edges: accepted')
    except ValueError:
      c.outcome('no map')
    return
  c.outcome('%d evaluated' % sum(mask))
  bad = cmp_edge(run_edge(objs, valid, mask, MAPS[9]), ref_edge(objs, valid, mask, MAPS[9]))
  if bad:
    c.fail('edge', '%s: distance to road edge of %s' % (what, bad))


# ------------------------------------------------------------------ red lights
STOPS = (4, 1)   # LANE_STATE_STOP, LANE_STATE_ARROW_STOP


def ref_red(xy, valid, lanes, ids, signals):
  """xy[t]; lanes: polylines; signals[t] = [(lane, state, stop)]. None = not judged."""
  keep = [(l, i) for l, i in zip(lanes, ids) if len(l) > 1]
  out = []
  for t in range(len(xy)):
    if t == 0 or not valid[t] or not valid[t - 1]:
      out.append(False)
      continue
    ds = [min(seg_dist(xy[t], a[:2], b[:2]) for a, b in zip(l, l[1:])) for l, _ in keep]
    best = min(ds)
    on = {keep[k][1] for k, d in enumerate(ds) if d < best + 2e-3}
    hit, murky = False, False
    for lane, state, stop in signals[t]:
      if lane not in on or lane not in [i for _, i in keep] or state not in STOPS:
        continue
      l = [l for l, i in keep if i == lane][0]
      sd = [seg_dist(stop, a[:2], b[:2]) for a, b in zip(l, l[1:])]
      if sum(d < min(sd) + 2e-3 for d in sd) > 1:
        murky = True
        continue
      k = sd.index(min(sd))
      (x0, y0, _), (x1, y1, _) = l[k], l[k + 1]
      def along(p):
        return (p[0] - x0) * (x1 - x0) + (p[1] - y0) * (y1 - y0)
      b0, b1 = along(xy[t - 1]) - along(stop), along(xy[t]) - along(stop)
      if abs(b0) < 1e-2 or abs(b1) < 1e-2:
        murky = True
      elif b0 < 0 < b1:
        if len(on) > 1:
          murky = True
        else:
          hit = True
    out.append(None if murky and not hit else hit)
  return out


def run_red(objs, valid, mask, lanes, ids, signals):
  a = np.array(objs, np.float32)
  ts = [[map_pb2.TrafficSignalLaneState(lane=l, state=s, stop_point=map_pb2.MapPoint(x=p[0], y=p[1], z=0)) for l, s, p in at] for at in signals]
  return traffic_light_features.compute_red_light_violation(
      center_x=f32(a[..., 0]), center_y=f32(a[..., 1]), valid=tf.constant(np.array(valid, bool)), evaluated_object_mask=tf.constant(np.array(mask, bool)),
      lane_polylines=[[point(p) for p in l] for l in lanes], lane_ids=list(ids), traffic_signals=ts).numpy()


def cmp_red(got, want):
  if got.shape != (len(want), len(want[0])) or got.dtype != bool:
    return 'shape %s type %s' % (got.shape, got.dtype)
  for i, row in enumerate(want):
    for t, w in enumerate(row):
      if w is not None and bool(got[i, t]) != w:
        return 'object %d step %d is %s, expected %s' % (i, t, bool(got[i, t]), w)


EAST = [(20, 0, 0), (40, 0, 0), (60, 0, 0)]
EAST2 = [(20, 4, 0), (60, 4, 0)]
NORTH = [(50, -30, 0), (50, -10, 0), (50, 12, 0), (50, 30, 0), (51, 40, 0)]
BEND = [(20, -4, 0), (30, -4, 0), (38, -8, 0), (40, -20, 0)]
STATES = [4, 1, 6, 3, 0, 5]
LANES = [([EAST, NORTH], [7, 3]), ([EAST2, EAST], [7, 3]), ([NORTH, EAST2, EAST], [9, 3, 7]), ([BEND, EAST, NORTH, [(1, 1, 0)]], [7, 3, 5, 11]), ([[(0, 0, 0)], EAST, NORTH], [2, 7, 3])]
RUNS = {
    'cross': [(41, 0.2), (45, 0.2), (49, 0.3), (53, 0.3)],
    'stop': [(41, 0.2), (42, 0.2), (43, 0.3), (43, 0.3)],
    'back': [(53, 0.2), (49, 0.2), (45, 0.3), (41, 0.3)],
    'beside': [(41, 3.9), (45, 3.8), (49, 4.1), (53, 4.2)],
    'early': [(22, 0.1), (29, 0.1), (36, 0.1), (43, 0.1)],
    'turn': [(25, -4.2), (29, -4.1), (34, -5.8), (39, -14)],
    'north': [(50.2, -9), (50.1, -4), (50.1, 3), (50, 9)],
}


def fam_red(c):
  lanes, ids = c.pick(LANES)
  run = c.pick(sorted(RUNS))
  stop = c.pick([(46.0, 0.5), (33.0, 0.0), (46.0, 4.0), (50.0, -2.0), (30.5, -4.6)])
  lane = c.pick([7, 3, 99])
  s1, s2 = c.pick(STATES), c.pick(STATES[:3])
  gap = c.choose(4)    # a step at which the object is unseen, 0 none
  if not m.thorough() and s2 != s1 and gap:
    return
  if not c.go():
    return
  xy = list(RUNS[run])
  valid = [1] * 4
  if gap:
    valid[gap - 1] = 0
    xy[gap - 1] = (0.0, 0.0) if gap != 2 else (-1.0, -1.0)
  # The light changes half way, and is not reported at the first step.
  signals = [[], [(lane, s1, stop)], [(lane, s1, stop), (5, 4, (50.0, 0.0))], [(lane, s2, stop)]]
  what = 'lanes %s ids %s run %s stop %s on lane %d states %d %d unseen %d' % (lanes, ids, run, stop, lane, s1, s2, gap)
  c.state(what)
  c.sample(lambda: what)
  other = RUNS['cross'][::-1]
  want = [ref_red(xy, valid, lanes, ids, signals), ref_red(other, [1] * 4, lanes, ids, signals)]
  c.outcome('violation' if True in want[0] else 'none')
  got = run_red([other, xy, other], [[1] * 4, valid, [1] * 4], [0, 1, 1], lanes, ids, signals)
  bad = cmp_red(got, want)
  if bad:
    c.fail('red', '%s: violation of %s' % (what, bad))


def fam_red_args(c):
  k = c.choose(4)
  if not c.go():
    return
  xy = [RUNS['cross']]
  lanes, ids, sig = [EAST], [7], [[(7, 4, (46.0, 0.0))]] * 4
  if k == 0:
    lanes, ids = [], []
  elif k == 1:
    sig = []
  elif k == 2:
    ids = [7, 8]
  c.state(k)
  if k == 3:
    # No signal at any step.
    got = run_red(xy, [[1] * 4], [1], lanes, ids, [[]] * 4)
    c.outcome('no signals')
    if got.shape != (1, 4) or got.any():
      c.fail('red', 'no signals: violations %s' % got.tolist())
    return
  try:
    run_red(xy, [[1] * 4], [1], lanes, ids, sig)
    c.fail('red', 'arguments %d accepted' % k)
  except ValueError:
    c.outcome('refused')


# ------------------------------------------------------------------ likelihoods
def ref_hist(lo, hi, bins, pc, logs, sims):
  """Log probability of each log sample under the binned sims."""
  def b(v):
    return min(bins - 1, max(0, math.floor((min(max(v, lo), hi) - lo) / (hi - lo) * bins)))
  n = [pc] * bins
  for s in sims:
    n[b(s)] += 1
  return [math.log(n[b(v)] / sum(n)) if n[b(v)] else -math.inf for v in logs]


def ref_kde(bw, logs, sims):
  return [math.log(sum(math.exp(-((v - s) / bw) ** 2 / 2) for s in sims) / len(sims)) for v in logs]


def ref_like(fc, log, sim):
  """log[o][t], sim[r][o][t] -> log likelihood [o][t]."""
  R, O, T = len(sim), len(log), len(log[0])
  est = fc.WhichOneof('estimator')
  def one(logs, sims):
    if est == 'histogram':
      h = fc.histogram
      return ref_hist(h.min_val, h.max_val, h.num_bins, h.additive_smoothing_pseudocount, logs, sims)
    if est == 'bernoulli':
      return ref_hist(-0.5, 1.5, 2, fc.bernoulli.additive_smoothing_pseudocount, logs, sims)
    return ref_kde(fc.kernel_density.bandwidth, logs, sims)
  out = [[0.0] * T for _ in range(O)]
  for o in range(O):
    for t in range(T):
      os_ = range(O) if fc.aggregate_objects else [o]
      ts = range(T) if fc.independent_timesteps else [t]
      out[o][t] = one([log[o][t]], [sim[r][a][b] for r in range(R) for a in os_ for b in ts])[0]
  return out


def feature_config(est, indep, agg, pc=None, bins=4, weight=0.1):
  fc = CFG.FeatureConfig(metametric_weight=weight)
  if indep is not None:
    fc.independent_timesteps = indep
  if agg is not None:
    fc.aggregate_objects = agg
  if est == 'histogram':
    fc.histogram.min_val, fc.histogram.max_val, fc.histogram.num_bins = -2.0, 6.0, bins
    if pc is not None:
      fc.histogram.additive_smoothing_pseudocount = pc
  elif est == 'kernel_density':
    fc.kernel_density.bandwidth = 0.7
  elif est == 'bernoulli':
    fc.bernoulli.SetInParent()
    if pc is not None:
      fc.bernoulli.additive_smoothing_pseudocount = pc
  return fc


def spread(n, salt):
  """Values off the bin edges; a few beyond the ends."""
  v = [-1.3, 0.7, 3.1, 5.2, 9.0, -4.0, 0.2, 4.9, 2.6]
  return [v[(i * i * 5 + i * 7 + salt * 3) % len(v)] for i in range(n)]


def fam_likelihood(c):
  est = c.pick(['histogram', 'kernel_density', 'bernoulli'])
  indep, agg = c.pick([None, True, False]), c.pick([None, True, False])
  R, O, T = 1 + c.choose(3), 1 + c.choose(3), 1 + c.choose(3)
  pc = c.pick([None, 0.1, 1.0]) if est != 'kernel_density' else None
  bins = c.pick([1, 2, 4, 8]) if est == 'histogram' else 4
  salt = c.choose(3 if not m.thorough() else 12)
  if not c.go():
    return
  fc = feature_config(est, indep, agg, pc, bins)
  vals = spread(O * T + R * O * T, salt)
  if est == 'kernel_density':
    vals = [max(-2.0, min(6.0, v)) for v in vals]
  if est == 'bernoulli':
    vals = [v > 1.5 for v in vals]
  dt = bool if est == 'bernoulli' else np.float32
  log = np.array(vals[:O * T], dt).reshape(O, T)
  sim = np.array(vals[O * T:], dt).reshape(R, O, T)
  what = '%s independent %s aggregate %s pseudocount %s bins %d rollouts %d objects %d steps %d values %s %s' % (est, indep, agg, pc, bins, R, O, T, log.tolist(), sim.tolist())
  c.state((est, indep, agg, R, O, T, pc, bins, salt))
  c.sample(lambda: what)
  c.outcome(est)
  got = estimators.log_likelihood_estimate_timeseries(feature_config=fc, log_values=tf.constant(log), sim_values=tf.constant(sim)).numpy()
  want = ref_like(fc, log.astype(float).tolist(), sim.astype(float).tolist())
  if not same(got, want, 2e-3):
    c.fail('likelihood', '%s: %s, expected %s' % (what, got.tolist(), want))
  if T == 1:
    got = estimators.log_likelihood_estimate_scenario_level(feature_config=fc, log_values=tf.constant(log[:, 0]), sim_values=tf.constant(sim[:, :, 0])).numpy()
    if not same(got, np.array(want)[:, 0], 2e-3):
      c.fail('likelihood', '%s: for the scenario %s, expected %s' % (what, got.tolist(), want))


def fam_likelihood_args(c):
  k = c.choose(6)
  agg = c.flip()
  if not c.go():
    return
  log, sim = np.zeros((2, 3), np.float32), np.zeros((4, 2, 3), np.float32)
  fc = feature_config('histogram', True, agg)
  if k == 0:
    log = log[:1]
  elif k == 1:
    log = log[:, :2]
  elif k == 2:
    fc = CFG.FeatureConfig(aggregate_objects=agg)
  elif k == 3:
    fc = feature_config('kernel_density', True, agg)
    fc.kernel_density.bandwidth = 0.0
  elif k == 4:
    fc = feature_config('bernoulli', True, agg)
  elif k == 5:
    fc = feature_config('bernoulli', True, agg)
    log = log > 0
  c.state((k, agg))
  c.outcome('refused')
  try:
    estimators.log_likelihood_estimate_timeseries(feature_config=fc, log_values=tf.constant(log), sim_values=tf.constant(sim))
  except ValueError:
    return
  c.fail('likelihood', 'arguments %d (aggregate %s) accepted' % (k, agg))


# ------------------------------------------------------------------ metrics
SERIES = ('linear_speed', 'linear_acceleration', 'angular_speed', 'angular_acceleration', 'distance_to_nearest_object', 'time_to_collision', 'distance_to_road_edge')
FLAGS = ('collision_indication', 'offroad_indication', 'traffic_light_violation')
ALL = ('linear_speed', 'linear_acceleration', 'angular_speed', 'angular_acceleration', 'distance_to_nearest_object', 'collision_indication', 'time_to_collision', 'distance_to_road_edge', 'offroad_indication', 'traffic_light_violation')


def bundle_config(k):
  cfg = CFG()
  for i, n in enumerate(ALL):
    est = 'bernoulli' if n in FLAGS else ('kernel_density' if k == 2 and i % 3 == 0 else 'histogram')
    getattr(cfg, n).CopyFrom(feature_config(est, bool((i + k) % 2), bool(k % 2 and i % 2), weight=0.02 * (i + 1) if k else 0.1))
  return cfg


def fam_bundle(c):
  k = c.choose(3)
  R = 1 + c.choose(3)
  types = [c.pick([1, 2, 3]) for _ in range(2)]
  v = [c.pick([(1, 1, 1, 1, 1, 1), (1, 1, 0, 1, 1, 1), (0, 1, 1, 1, 1, 0), (0, 0, 0, 0, 0, 0)]) for _ in range(2)]
  salt = c.choose(3 if not m.thorough() else 8)
  if 1 not in [t for t, x in zip(types, v) if any(x)]:
    return      # no valid vehicle: the vehicle metrics are undefined
  if not any(any(ref_validity(x)[1]) for x in v):
    return
  if not c.go():
    return
  O, T = 2, 6
  cfg = bundle_config(k)
  def feats(n, salt):
    d = dict(object_id=tf.constant([4, 9]), object_type=tf.constant([types] * n), valid=tf.constant(np.array([v] * n, bool)), average_displacement_error=f32(np.array(spread(n * O, salt)).reshape(n, O) ** 2))
    for i, s in enumerate(SERIES):
      d[s] = f32(np.clip(np.array(spread(n * O * T, salt + i)), -2, 6).reshape(n, O, T))
    for i, s in enumerate(('collision_per_step', 'offroad_per_step', 'traffic_light_violation_per_step')):
      d[s] = tf.constant(np.array([x > 5.0 for x in spread(n * O * T, salt + 2 * i)]).reshape(n, O, T))
    return metric_features.MetricFeatures(**d)
  lf, sf = feats(1, salt), feats(R, salt + 1)
  what = 'config %d rollouts %d types %s valid %s salt %d' % (k, R, types, v, salt)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%d rollouts' % R)
  got = metrics.compute_scenario_metrics_for_features_bundle(cfg, 'scene', lf, sf)
  want = {}
  N = lambda t: t.numpy().astype(float)
  sp = [ref_validity(x)[0] for x in v]
  ac = [ref_validity(x)[1] for x in v]
  veh = [[bool(x) and types[o] == 1 for x in v[o]] for o in range(O)]
  for s in SERIES:
    ll = ref_like(getattr(cfg, s), N(getattr(lf, s))[0].tolist(), N(getattr(sf, s)).tolist())
    mk = sp if s in ('linear_speed', 'angular_speed') else ac if s.endswith('acceleration') else veh if s == 'time_to_collision' else v
    xs = [ll[o][t] for o in range(O) for t in range(T) if mk[o][t]]
    want[s + '_likelihood'] = math.exp(sum(xs) / len(xs))
  rates = {}
  for s, f in zip(FLAGS, ('collision_per_step', 'offroad_per_step', 'traffic_light_violation_per_step')):
    mk = veh if s == 'traffic_light_violation' else v
    lv = [[float(any(N(getattr(lf, f))[0, o, t] and mk[o][t] for t in range(T)))] for o in range(O)]
    sv = [[[float(any(N(getattr(sf, f))[r, o, t] and mk[o][t] for t in range(T)))] for o in range(O)] for r in range(R)]
    ll = ref_like(getattr(cfg, s), lv, sv)
    want[s + '_likelihood'] = math.exp(sum(x[0] for x in ll) / O)
    rates[s] = np.mean([[any(N(getattr(sf, f))[r, o, t] and v[o][t] for t in range(T)) for o in range(O)] for r in range(R)])
  want['metametric'] = sum(getattr(cfg, n).metametric_weight * want[n + '_likelihood'] for n in ALL)
  ade = N(sf.average_displacement_error)
  want['average_displacement_error'] = ade.mean()
  want['min_average_displacement_error'] = ade.mean(1).min()
  want['simulated_collision_rate'] = rates['collision_indication']
  want['simulated_offroad_rate'] = rates['offroad_indication']
  want['simulated_traffic_light_violation_rate'] = rates['traffic_light_violation']
  if got.scenario_id != 'scene':
    c.fail('bundle', '%s: scenario id %s' % (what, got.scenario_id))
  for n, w in want.items():
    if not got.HasField(n) or abs(getattr(got, n) - w) > 1e-3 * (1 + abs(w)):
      c.fail('bundle', '%s: %s is %s, expected %s' % (what, n, getattr(got, n), w))


def fam_errors(c):
  """Displacement errors of every small bundle."""
  R, O = 1 + c.choose(3), 1 + c.choose(3)
  vals = [c.pick([0.5, 2.0, 3.0]) if R * O <= 4 else c.pick([0.5, 3.0]) for _ in range(R * O)]
  if not c.go():
    return
  c.state((R, O, tuple(vals)))
  c.outcome('%d rollouts %d objects' % (R, O))
  T = 5
  def feats(n, ade):
    z = lambda: tf.zeros([n, O, T])
    b = lambda: tf.constant(np.zeros((n, O, T), bool))
    return metric_features.MetricFeatures(
        object_id=tf.constant(list(range(O))), object_type=tf.constant([[1] * O] * n), valid=tf.constant(np.ones((n, O, T), bool)), average_displacement_error=f32(ade),
        linear_speed=z(), linear_acceleration=z(), angular_speed=z(), angular_acceleration=z(), distance_to_nearest_object=z(), time_to_collision=z(), distance_to_road_edge=z(),
        collision_per_step=b(), offroad_per_step=b(), traffic_light_violation_per_step=b())
  a = np.array(vals).reshape(R, O)
  got = metrics.compute_scenario_metrics_for_features_bundle(bundle_config(0), 'scene', feats(1, np.zeros((1, O))), feats(R, a))
  for n, w in (('average_displacement_error', a.mean()), ('min_average_displacement_error', a.mean(1).min())):
    if abs(getattr(got, n) - w) > 1e-4:
      c.fail('bundle', 'displacement errors %s: %s is %s, expected %s' % (a.tolist(), n, getattr(got, n), w))


METRIC_FIELDS = ['metametric', 'average_displacement_error', 'min_average_displacement_error', 'simulated_collision_rate', 'simulated_offroad_rate', 'simulated_traffic_light_violation_rate'] + [n + '_likelihood' for n in ALL]


def fam_aggregate(c):
  n = 1 + c.choose(3)
  vals = [c.pick([0.0, 0.25, 1.0, 0.6]) for _ in range(n)]
  which = c.choose(len(METRIC_FIELDS))
  if not c.go():
    return
  ms = []
  for i in range(n):
    x = sim_agents_metrics_pb2.SimAgentMetrics(scenario_id='s%d' % i)
    for j, f in enumerate(METRIC_FIELDS):
      setattr(x, f, vals[i] if j == which else ((i + 1) * (j + 3) % 7) / 7.0)
    ms.append(x)
  got = metrics.aggregate_scenario_metrics(ms)
  c.state((vals, which))
  c.outcome('%d scenarios' % n)
  if got.HasField('scenario_id'):
    c.fail('aggregate', 'aggregate carries scenario id %s' % got.scenario_id)
  for f in METRIC_FIELDS:
    w = sum(getattr(x, f) for x in ms) / n
    if abs(getattr(got, f) - w) > 1e-5:
      c.fail('aggregate', 'values %s: %s is %s, expected %s' % ([getattr(x, f) for x in ms], f, getattr(got, f), w))
  # Buckets of the aggregate.
  cfg = CFG()
  for i, nme in enumerate(ALL):
    getattr(cfg, nme).metametric_weight = ((i + which) % 4) * 0.1
  buckets = dict(kinematic_metrics=ALL[:4], interactive_metrics=ALL[4:7], map_based_metrics=ALL[7:])
  zero = any(sum(getattr(cfg, f).metametric_weight for f in fs) == 0 for fs in buckets.values())
  try:
    b = metrics.aggregate_metrics_to_buckets(cfg, got)
  except ValueError:
    if not zero:
      c.fail('buckets', 'refused')
    return
  for k, fs in buckets.items():
    ws = [getattr(cfg, f).metametric_weight for f in fs]
    w = sum(a * getattr(got, f + '_likelihood') for a, f in zip(ws, fs)) / sum(ws)
    if abs(getattr(b, k) - w) > 1e-5:
      c.fail('buckets', 'weights %s: %s is %s, expected %s' % (ws, k, getattr(b, k), w))
  for f, g in (('realism_meta_metric', 'metametric'), ('min_ade', 'min_average_displacement_error'), ('simulated_collision_rate',) * 2, ('simulated_offroad_rate',) * 2, ('simulated_traffic_light_violation_rate',) * 2):
    if abs(getattr(b, f) - getattr(got, g)) > 1e-6:
      c.fail('buckets', '%s is %s, expected %s' % (f, getattr(b, f), getattr(got, g)))


def fam_config(c):
  ch = c.pick(list(CH))
  drop = c.choose(4)     # which bucket has no weight, 0 none
  if not c.go():
    return
  keep = os.getcwd()
  # The configurations are named relative to the source root.
  import waymo_open_dataset
  os.chdir(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src'))
  try:
    cfg = metrics.load_metrics_config(ch)
  finally:
    os.chdir(keep)
  c.state((ch.value, drop))
  c.outcome(ch.name)
  w = [getattr(cfg, n).metametric_weight for n in ALL]
  if min(w) <= 0 or abs(sum(w) - 1) > 1e-4:
    c.fail('config', '%s: weights %s do not make an average' % (ch, w))
  for n in ALL:
    fc = getattr(cfg, n)
    if (fc.WhichOneof('estimator') == 'bernoulli') != (n in FLAGS) or fc.WhichOneof('estimator') is None:
      c.fail('config', '%s: estimator of %s is %s' % (ch, n, fc.WhichOneof('estimator')))
    if n not in FLAGS and fc.aggregate_objects != (ch == CH.SCENARIO_GEN):
      c.fail('config', '%s: %s aggregates objects: %s' % (ch, n, fc.aggregate_objects))
  if drop:
    for n in (ALL[:4], ALL[4:7], ALL[7:])[drop - 1]:
      getattr(cfg, n).metametric_weight = 0
    try:
      metrics.aggregate_metrics_to_buckets(cfg, sim_agents_metrics_pb2.SimAgentMetrics(metametric=1))
      c.fail('buckets', 'a bucket without weight is accepted')
    except ValueError:
      pass


# ------------------------------------------------------------------ whole scenarios
NOW = 10
SIZES3 = [(4.5, 2.0, 1.5), (4.0, 1.9, 1.6), (0.9, 0.9, 1.8), (8.0, 2.5, 3.0)]
START = [(2.0, 3.0, 0.1, 6.0), (12.0, 3.4, 0.05, 2.0), (8.0, 9.0, -1.4, 1.2), (30.0, 2.0, 3.0, 4.0)]


def world(order, predict, unseen, lights, edges, lanes):
  s = scenario_pb2.Scenario(scenario_id='world', current_time_index=NOW, sdc_track_index=order.index(0))
  for i in order:
    tr = s.tracks.add(id=50 + 7 * i, object_type=(1, 1, 2, 3)[i])
    x, y, h, v = START[i]
    l, w, ht = SIZES3[i]
    for t in range(91):
      st = tr.states.add()
      if unseen.get(i) and t in unseen[i]:
        st.valid = False
        continue
      hh = h + 0.004 * t * (i - 1)
      st.valid, st.heading, st.length, st.width, st.height = True, wrap(hh), l, w, ht
      st.center_x, st.center_y, st.center_z = x + v * 0.1 * t * math.cos(h), y + v * 0.1 * t * math.sin(h), 0.7 + 0.01 * t
  for i in predict:
    s.tracks_to_predict.add(track_index=order.index(i))
  for k, e in enumerate(edges):
    s.map_features.add(id=900 + k).road_edge.polyline.extend([point(p) for p in e])
  for k, (l, kind) in enumerate(lanes):
    f = s.map_features.add(id=20 + k)
    f.lane.type = kind
    f.lane.polyline.extend([point(p) for p in l])
  for t in range(91):
    d = s.dynamic_map_states.add()
    for lane, state, stop in lights(t):
      d.lane_states.add(lane=lane, state=state, stop_point=point(stop))
  return s


def fam_world(c):
  ch = c.pick(list(CH))
  predict = c.pick([(1,), (), (2, 1), (2, 0, 3)])
  order = c.pick([(0, 1, 2, 3), (3, 1, 0, 2)])
  unseen = c.pick([{}, {1: range(30, 45), 2: range(0, 5)}, {3: range(10, 91)}])
  mode = c.choose(3)      # log itself, shifted rollout, shifted without signals or surface lanes
  if ch == CH.SCENARIO_GEN and (3 in unseen or mode == 0 and unseen):
    return
  if 3 in unseen and 3 in predict:
    return
  if not c.go():
    return
  lanes = [([(0, 3.2, 0), (25, 4.0, 0), (60, 5.0, 0)], 2), ([(8, 20, 0), (9, -20, 0)], 2), ([(0, 3.3, 0), (60, 3.4, 0)], 1)]
  lights = lambda t: [(20, 4 if t < 60 else 6, (14.0, 3.8, 0.0)), (21, 4, (9.0, 5.0, 0.0))] if t % 9 else []
  if mode == 2:
    lanes = lanes[2:]
  edges = [[(0, 0, 0), (70, 0, 0), (70, 10, 0), (0, 11, 0), (0, 0, 0)], [(40, 5, 0), (42, 5, 0), (42, 7, 0)], [(-9, -9, 9), (80, -9, 9)]]
  s = world(order, predict, unseen, lights, edges, lanes)
  use_log = mode == 0
  if use_log or ch == CH.SCENARIO_GEN:
    js = converters.scenario_to_joint_scene(s, ch)
  else:
    js = converters.scenario_to_joint_scene(s, ch)
  if mode:
    for k, tr in enumerate(js.simulated_trajectories):
      for t in range(len(tr.center_x)):
        tr.center_x[t] += 0.07 * t * (k + 1)
        tr.center_y[t] += 0.02 * t * (k - 1)
        tr.heading[t] += 0.01 * t
  what = '%s predict %s order %s unseen %s mode %d' % (ch.name, predict, order, unseen, mode)
  c.state(what)
  c.sample(lambda: what)
  got = metric_features.compute_metric_features(s, js, ch, use_log_validity=use_log)
  tr = converters.joint_scene_to_trajectories(js, s, use_log_validity=use_log) if ch == CH.SIM_AGENTS else converters.simulated_scenariogen_to_trajectories(js, s, ch)
  log = trajectory_utils.ObjectTrajectories.from_scenario(s)
  ev = [int(i) for i in submission_specs.get_evaluation_sim_agent_ids(s, ch)]
  ids = [int(i) for i in tr.object_id.numpy()]
  rows = [ids.index(i) for i in ev]
  A = {k: getattr(tr, k).numpy().astype(float) for k in ('x', 'y', 'z', 'heading', 'length', 'width', 'height')}
  V = tr.valid.numpy()
  lrow = [[int(i) for i in log.object_id.numpy()].index(i) for i in ev]
  n = V.shape[1]
  cut = NOW + 1 if ch == CH.SIM_AGENTS else 0
  c.outcome('%s %d evaluated' % (ch.name, len(ev)))
  if [int(i) for i in got.object_id.numpy()] != ev:
    return c.fail('world', '%s: objects %s, expected %s' % (what, got.object_id.numpy().tolist(), ev))
  if got.object_type.numpy().tolist() != [[int(tr.object_type.numpy()[r]) for r in rows]]:
    c.fail('world', '%s: types %s' % (what, got.object_type.numpy().tolist()))
  valid = (log.valid.numpy()[lrow] if use_log else V[rows])[:, cut:]
  if not np.array_equal(got.valid.numpy(), valid[None]):
    c.fail('world', '%s: validity differs' % what)
  kin = [ref_kinematics(A['x'][r], A['y'][r], A['z'][r], A['heading'][r], 0.1) for r in rows]
  for k, name in enumerate(('linear_speed', 'linear_acceleration', 'angular_speed', 'angular_acceleration')):
    if not same(getattr(got, name).numpy()[0], np.array([x[k] for x in kin])[:, cut:], 3e-2):
      c.fail('world', '%s: %s differs' % (what, name))
  if ch == CH.SIM_AGENTS:
    for q, (r, lr) in enumerate(zip(rows, lrow)):
      ok = log.valid.numpy()[lr]
      d = np.sqrt(sum((A[k][r] - getattr(log, k).numpy()[lr]) ** 2 for k in 'xyz'))
      w = d[ok].mean()
      if abs(got.average_displacement_error.numpy()[0, q] - w) > 1e-3 * (1 + w):
        c.fail('world', '%s: displacement error of %d is %s, expected %s' % (what, ev[q], got.average_displacement_error.numpy()[0, q], w))
  mask = [i in ev for i in ids]
  pos = [i for i in ids if i in ev]      # order of rows of the references
  sel = [pos.index(i) for i in ev]
  objs = [[tuple(A[k][r][t] for k in ('x', 'y', 'length', 'width', 'heading', 'z', 'height')) for t in range(n)] for r in range(len(ids))]
  near = ref_nearest([[o[:5] for o in r] for r in objs], V, mask)
  near = [near[i][cut:] for i in sel]
  bad = cmp_far(got.distance_to_nearest_object.numpy()[0], near, 1e-2)
  if bad:
    c.fail('world', '%s: distance to nearest object of %s' % (what, bad))
  col = got.collision_per_step.numpy()[0]
  for q, row in enumerate(near):
    for t, w in enumerate(row):
      if w is None and col[q, t] or w is not None and abs(w) > 1e-2 and col[q, t] != (w < 0):
        c.fail('world', '%s: collision of %d at %d is %s with distance %s' % (what, ev[q], t, col[q, t], w))
  ttc = ref_ttc([[o[:5] for o in r] for r in objs], V, mask, 0.1)
  # Where a speed is undefined, so is the time; the code says 5.
  ttc = [[5.0 if w is not None and math.isnan(w) else w for w in ttc[i][cut:]] for i in sel]
  bad = cmp_some(got.time_to_collision.numpy()[0], ttc, 3e-2)
  if bad:
    c.fail('world', '%s: time to collision of %s' % (what, bad))
  ed = ref_edge(objs, V, mask, edges)
  ed = [ed[i][cut:] for i in sel]
  bad = cmp_edge(got.distance_to_road_edge.numpy()[0], ed)
  if bad:
    c.fail('world', '%s: distance to road edge of %s' % (what, bad))
  off = got.offroad_per_step.numpy()[0]
  for q, row in enumerate(ed):
    for t, w in enumerate(row):
      if w == 'invalid' and off[q, t] or w not in (None, 'invalid') and abs(w) > 1e-2 and off[q, t] != (w > 0):
        c.fail('world', '%s: off road of %d at %d is %s with distance %s' % (what, ev[q], t, off[q, t], w))
  sl = [l for l, k in lanes if k == 2]
  red = [[False] * n for _ in ev]
  if sl:
    red = [ref_red(list(zip(A['x'][r], A['y'][r])), V[r], sl, [20, 21], [[(l, st, p[:2]) for l, st, p in lights(t)] for t in range(n)]) for r in rows]
  bad = cmp_red(got.traffic_light_violation_per_step.numpy()[0], [r[cut:] for r in red])
  if bad:
    c.fail('world', '%s: red light violation of %s' % (what, bad))


def fam_rollouts(c):
  """Log and rollout features side by side; metrics of a bundle are those of its features."""
  ch = c.pick(list(CH))
  n = 1 + c.choose(3)
  wrong = c.flip() if n > 1 and ch == CH.SCENARIO_GEN else False
  if not c.go():
    return
  s = world((0, 1, 2, 3), (1,), {}, lambda t: [], [[(0, 0, 0), (70, 0, 0), (70, 10, 0)]], [])
  ro = sub.ScenarioRollouts(scenario_id='world')
  for r in range(n):
    js = converters.scenario_to_joint_scene(s, ch)
    for k, tr in enumerate(js.simulated_trajectories):
      for t in range(len(tr.center_x)):
        tr.center_x[t] += 0.05 * t * (k + r)
    ro.joint_scenes.append(js)
  c.state((ch.value, n))
  c.outcome('%s %d rollouts' % (ch.name, n))
  lf, sf = metric_features.compute_scenario_rollouts_features(s, ro, ch)
  one = metric_features.compute_metric_features(s, converters.scenario_to_joint_scene(s, ch), ch, use_log_validity=True)
  each = [metric_features.compute_metric_features(s, js, ch) for js in ro.joint_scenes]
  for f in dataclasses.fields(metric_features.MetricFeatures):
    a, b = getattr(lf, f.name).numpy(), getattr(one, f.name).numpy()
    if not same(a, b, 1e-6):
      c.fail('rollouts', '%s: log %s differs' % (ch, f.name))
    if f.name == 'object_id':
      continue
    a, b = getattr(sf, f.name).numpy(), np.concatenate([getattr(e, f.name).numpy() for e in each])
    if not same(a, b, 1e-6):
      c.fail('rollouts', '%s: %s of %d rollouts differs' % (ch, f.name, n))


m = mcpy.Main()
m.family('kinematics', 'paths and headings up to 6 steps', fam_kinematics)
m.family('validity', 'every validity pattern up to 7 steps', fam_validity)
m.family('long-paths', 'paths of 11 to 200 steps x turns x waves x holes', fam_long_paths)
m.family('nearest-crowd', '9 to 40 objects in 3 layouts x rotations of the list x absences x evaluated masks', fam_nearest_crowd)
m.family('nearest-pair', 'two boxes: sizes, headings, shifts, rounding', fam_nearest_pair)
m.family('nearest-group', 'up to four boxes, every validity and evaluation mask', fam_nearest_group)
m.family('ttc-pair', 'two cars: headings, gaps, offsets, speeds', fam_ttc_pair)
m.family('ttc-group', 'four cars in any order with gaps', fam_ttc_group)
m.family('edges', 'maps of open and closed edges of any length, places around them', fam_edges)
m.family('edge-sets', 'validity and evaluation masks', fam_edge_sets)
m.family('red', 'lanes, signals, runs, unseen steps', fam_red)
m.family('red-args', 'refused arguments', fam_red_args)
m.family('likelihood', 'estimators over all small shapes and flags', fam_likelihood)
m.family('likelihood-args', 'refused arguments', fam_likelihood_args)
m.family('bundle', 'scenario metrics of made-up features', fam_bundle)
m.family('errors', 'displacement errors of rollouts and objects', fam_errors)
m.family('aggregate', 'means over scenarios, and buckets', fam_aggregate)
m.family('config', 'challenge configurations', fam_config)
m.family('world', 'features of whole scenarios', fam_world)
m.family('rollouts', 'features of several rollouts', fam_rollouts)
raise SystemExit(m.run())

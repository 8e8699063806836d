"""C27: occupancy and flow grids, their waypoints, pictures and metrics."""
import itertools
import math
import os
import sys

import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcpy
import tensorflow as tf
from waymo_open_dataset.protos import occupancy_flow_metrics_pb2
from waymo_open_dataset.utils import occupancy_flow_data
from waymo_open_dataset.utils import occupancy_flow_grids
from waymo_open_dataset.utils import occupancy_flow_metrics
from waymo_open_dataset.utils import occupancy_flow_renderer
from waymo_open_dataset.utils import occupancy_flow_vis

PI = math.pi
TYPES = (('vehicles', 1), ('pedestrians', 2), ('cyclists', 3))
FIELDS = ('x', 'y', 'z', 'bbox_yaw', 'length', 'width', 'valid')


def config(**kw):
  d = dict(num_past_steps=2, num_future_steps=4, num_waypoints=2, cumulative_waypoints=False, normalize_sdc_yaw=True,
           grid_height_cells=14, grid_width_cells=18, sdc_y_in_grid=9, sdc_x_in_grid=7, pixels_per_meter=1.0,
           agent_points_per_side_length=5, agent_points_per_side_width=3)
  d.update(kw)
  return occupancy_flow_metrics_pb2.OccupancyFlowTaskConfig(**d)


def near(a, b, tol=2e-4):
  a, b = np.asarray(a, float), np.asarray(b, float)
  return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


# ------------------------------------------------------------------ scenes
# A scene is (sdc pose, agents); an agent is a dict(type, states) with one state
# (x, y, yaw, length, width, valid) per step: past, current, future.
def make_inputs(cfg, scenes):
  p, f = cfg.num_past_steps, cfg.num_future_steps
  cols = {}
  n = max(len(s['agents']) for s in scenes)
  steps = p + 1 + f
  arr = {k: np.zeros((len(scenes), n, steps), np.float32) for k in FIELDS}
  typ = np.full((len(scenes), n), -1.0, np.float32)
  for b, s in enumerate(scenes):
    for i, a in enumerate(s['agents']):
      typ[b, i] = a['type']
      for t, (x, y, yaw, l, w, v) in enumerate(a['states']):
        for k, val in zip(FIELDS, (x, y, 0.5, yaw, l, w, v)):
          arr[k][b, i, t] = val
  for k in FIELDS:
    a = arr[k].astype(np.int64) if k == 'valid' else arr[k]
    cols['state/past/' + k] = tf.constant(a[:, :, :p])
    cols['state/current/' + k] = tf.constant(a[:, :, p:p + 1])
    cols['state/future/' + k] = tf.constant(a[:, :, p + 1:])
  cols['state/type'] = tf.constant(typ)
  for j, k in enumerate(('x', 'y', 'z', 'bbox_yaw')):
    v = np.array([[(s['sdc'][0], s['sdc'][1], 0.25, s['sdc'][2])[j]] for s in scenes], np.float32)
    cols['sdc/current/' + k] = tf.constant(v)
  return cols


def to_grid(cfg, sdc, x, y):
  """World point -> fractional grid position (column, row), before rounding."""
  dx, dy = x - sdc[0], y - sdc[1]
  if cfg.normalize_sdc_yaw:
    a = PI / 2 - sdc[2]
    dx, dy = math.cos(a) * dx - math.sin(a) * dy, math.sin(a) * dx + math.cos(a) * dy
  return dx * cfg.pixels_per_meter, -dy * cfg.pixels_per_meter


def cell(cfg, u, v):
  """The cells a fractional position may round to (two on a tie)."""
  def r(t):
    lo = math.floor(t)
    if abs(t - lo - 0.5) < 2e-3:
      return (lo, lo + 1)
    return (round(t),)
  return [(a + cfg.sdc_x_in_grid, b + cfg.sdc_y_in_grid) for a in r(u) for b in r(v)]


def unit(n):
  return [0.0] if n == 1 else [i / (n - 1) - 0.5 for i in range(n)]


def box_points(cfg, sdc, st):
  x, y, yaw, l, w, _ = st
  out = []
  for a in unit(cfg.agent_points_per_side_length):
    for b in unit(cfg.agent_points_per_side_width):
      out.append(to_grid(cfg, sdc, x + a * l * math.cos(yaw) - b * w * math.sin(yaw), y + a * l * math.sin(yaw) + b * w * math.cos(yaw)))
  return out


def steps_of(cfg, times):
  p, f = cfg.num_past_steps, cfg.num_future_steps
  d = dict(past=range(p), current=range(p, p + 1), future=range(p + 1, p + 1 + f))
  return [t for k in times for t in d[k]]


def drawn(cfg, a, times, obs, occ):
  seen = any(s[5] for s in a['states'][:cfg.num_past_steps + 1])
  if 'future' not in times or (obs and occ):
    return True
  return seen if obs else not seen


def ref_occupancy(cfg, scenes, times, obs, occ):
  """Per type: 1 occupied, 0 free, -1 either."""
  ts = steps_of(cfg, times)
  out = {}
  for name, num in TYPES:
    g = np.zeros((len(scenes), cfg.grid_height_cells, cfg.grid_width_cells, len(ts)))
    for b, s in enumerate(scenes):
      for a in s['agents']:
        if a['type'] != num or not drawn(cfg, a, times, obs, occ):
          continue
        for k, t in enumerate(ts):
          if not a['states'][t][5]:
            continue
          for u, v in box_points(cfg, s['sdc'], a['states'][t]):
            cs = cell(cfg, u, v)
            for cx, cy in cs:
              if 0 <= cx < cfg.grid_width_cells and 0 <= cy < cfg.grid_height_cells:
                if len(cs) == 1:
                  g[b, cy, cx, k] = 1
                elif g[b, cy, cx, k] == 0:
                  g[b, cy, cx, k] = -1
    out[name] = g
  return out


def ref_flow(cfg, scenes, times, obs, occ):
  """Per type: mean flow and a mask of judged cells."""
  ts = steps_of(cfg, times)
  wp = cfg.num_future_steps // cfg.num_waypoints
  n = len(ts) - wp
  out = {}
  for name, num in TYPES:
    tot = np.zeros((len(scenes), cfg.grid_height_cells, cfg.grid_width_cells, n, 2))
    cnt = np.zeros(tot.shape[:-1])
    sure = np.ones(tot.shape[:-1], bool)
    for b, s in enumerate(scenes):
      for a in s['agents']:
        if a['type'] != num or not drawn(cfg, a, times, obs, occ):
          continue
        for k in range(n):
          before, after = a['states'][ts[k]], a['states'][ts[k + wp]]
          if not before[5] or not after[5]:
            continue
          for (u0, v0), (u1, v1) in zip(box_points(cfg, s['sdc'], before), box_points(cfg, s['sdc'], after)):
            c0, c1 = cell(cfg, u0, v0), cell(cfg, u1, v1)
            for cx, cy in c1:
              if 0 <= cx < cfg.grid_width_cells and 0 <= cy < cfg.grid_height_cells:
                if len(c0) > 1 or len(c1) > 1:
                  sure[b, cy, cx, k] = False
                tot[b, cy, cx, k] += (c0[0][0] - cx, c0[0][1] - cy)
                cnt[b, cy, cx, k] += 1
    out[name] = (tot / np.maximum(cnt, 1)[..., None], sure)
  return out


def cmp_occ(c, key, what, got, want):
  for name, _ in TYPES:
    g, w = getattr(got, name).numpy(), want[name]
    if g.shape != w.shape or g.dtype != np.float32:
      return c.fail(key, '%s: %s has shape %s type %s, expected %s' % (what, name, g.shape, g.dtype, w.shape))
    bad = np.argwhere(((w >= 0) & (g != w)) | ((w < 0) & (g != 0) & (g != 1)))
    if len(bad):
      i = tuple(bad[0])
      return c.fail(key, '%s: %s at (scene, row, column, step) %s is %s, expected %s' % (what, name, i, g[i], w[i]))


def cmp_flow(c, key, what, got, want):
  for name, _ in TYPES:
    g, (w, sure) = getattr(got, name).numpy(), want[name]
    if g.shape != w.shape or g.dtype != np.float32:
      return c.fail(key, '%s: %s has shape %s type %s, expected %s' % (what, name, g.shape, g.dtype, w.shape))
    bad = np.argwhere(sure & (np.abs(g - w).max(-1) > 1e-3))
    if len(bad):
      i = tuple(bad[0])
      return c.fail(key, '%s: %s at (scene, row, column, step) %s is %s, expected %s' % (what, name, i, g[i], w[i]))


SDC = [(100.3, -50.2, 0.4), (0.0, 0.0, PI / 2), (-3.1, 7.7, -2.6)]
SUBSETS = [t for n in (1, 2, 3) for t in itertools.combinations(('past', 'current', 'future'), n)]
WHO = [(True, True), (True, False), (False, True)]


def path(kind, steps, sdc, size=(4.2, 1.9), valid=None, off=(0.0, 0.0)):
  """World states of one agent, laid out around the SDC."""
  out = []
  for t in range(steps):
    x, y, yaw = {
        'across': (-5.3 + 1.7 * t, 1.2, 0.1),
        'turn': (2.1 + 0.6 * t, -3.2 + 0.8 * t, 0.35 * t),
        'still': (1.13, 2.21, 0.8),
        'back': (4.4, 6.1 - 2.3 * t, -PI / 2),
        'leave': (3.7 + 2.9 * t, 0.3, 0.0),
        'enter': (-16.6 + 3.1 * t, -1.4, 0.05),
        'far': (400.0, 300.0, 1.0),
    }[kind]
    x, y = x + off[0], y + off[1]
    a = sdc[2] - PI / 2
    out.append((sdc[0] + math.cos(a) * x - math.sin(a) * y, sdc[1] + math.sin(a) * x + math.cos(a) * y, yaw + a,
                size[0], size[1], 1 if valid is None else int(valid[t])))
  return out


def fam_presence(c):
  """One agent of each kind, every pattern of validity, every request."""
  cfg = config(num_past_steps=1, num_future_steps=3, num_waypoints=3, grid_height_cells=16, grid_width_cells=16, agent_points_per_side_length=4, agent_points_per_side_width=2)
  typ = c.pick([1, 2, 3, 4, 0])
  pattern = c.choose(32)
  times = c.pick(SUBSETS)
  obs, occ = c.pick(WHO + [(False, False)])
  if typ in (0, 4) and not (obs and occ):
    return
  if not c.go():
    return
  sdc = SDC[0]
  valid = [(pattern >> i) & 1 for i in range(5)]
  scenes = [dict(sdc=sdc, agents=[dict(type=typ, states=path('across', 5, sdc, valid=valid)), dict(type=1 + typ % 3, states=path('still', 5, sdc, size=(0.9, 0.7), off=(-6, 2)))])]
  inp = make_inputs(cfg, scenes)
  what = 'type %d valid %s times %s observed %s occluded %s' % (typ, valid, times, obs, occ)
  c.state((typ, pattern, times, obs, occ))
  c.sample(lambda: what)
  if not obs and not occ:
    if 'future' in times:
      for fn in (occupancy_flow_renderer.render_occupancy_from_inputs, occupancy_flow_renderer.render_flow_from_inputs):
        try:
          fn(inputs=inp, times=list(times), config=cfg, include_observed=obs, include_occluded=occ)
          c.fail('neither', '%s: drawing neither kind of agent is accepted' % what)
        except ValueError:
          c.outcome('nothing requested')
    return
  got = occupancy_flow_renderer.render_occupancy_from_inputs(inputs=inp, times=list(times), config=cfg, include_observed=obs, include_occluded=occ)
  cmp_occ(c, 'presence', what, got, ref_occupancy(cfg, scenes, times, obs, occ))
  if len(steps_of(cfg, times)) > 1:
    got = occupancy_flow_renderer.render_flow_from_inputs(inputs=inp, times=list(times), config=cfg, include_observed=obs, include_occluded=occ)
    cmp_flow(c, 'presence-flow', what, got, ref_flow(cfg, scenes, times, obs, occ))
  c.outcome('%s' % ('drawn' if got.view(typ).numpy().any() else 'blank') if typ in (1, 2, 3) else 'other type')


CFGS = [dict(), dict(normalize_sdc_yaw=False), dict(pixels_per_meter=2.0, grid_height_cells=20, grid_width_cells=12, sdc_x_in_grid=6, sdc_y_in_grid=15),
        dict(pixels_per_meter=0.5, grid_height_cells=9, grid_width_cells=9, sdc_x_in_grid=0, sdc_y_in_grid=8),
        dict(agent_points_per_side_length=1), dict(agent_points_per_side_width=1), dict(agent_points_per_side_length=1, agent_points_per_side_width=1),
        dict(agent_points_per_side_length=2, agent_points_per_side_width=9, num_waypoints=4), dict(sdc_x_in_grid=30), dict(num_waypoints=1)]
KINDS = ['across', 'turn', 'still', 'back', 'leave', 'enter', 'far']
BOX = [(4.2, 1.9), (0.8, 0.8), (1.7, 5.9), (0.0, 0.0)]


def fam_geometry(c):
  """Two scenes with two agents: placement, scale, rotation, edges of the grid, overlap."""
  kw = c.pick(CFGS)
  cfg = config(**kw)
  sdc = c.pick(SDC)
  k1, k2 = c.pick(KINDS), c.pick(KINDS if m.thorough() else KINDS[:4])
  size = c.pick(BOX)
  same = c.flip()
  if not c.go():
    return
  steps = cfg.num_past_steps + 1 + cfg.num_future_steps
  a = dict(type=1, states=path(k1, steps, sdc, size))
  b = dict(type=1 if same else 3, states=path(k2, steps, sdc, (3.1, 1.3), off=(0.2, 0.4)))
  other = SDC[(SDC.index(sdc) + 1) % len(SDC)]
  scenes = [dict(sdc=sdc, agents=[a, b]), dict(sdc=other, agents=[dict(type=2, states=path('turn', steps, other))])]
  what = 'config %s sdc %s agents %s/%s size %s %s type' % (kw, sdc, k1, k2, size, 'same' if same else 'other')
  inp = make_inputs(cfg, scenes)
  times = ('past', 'current', 'future')
  c.state(what)
  c.sample(lambda: what)
  c.outcome('%s' % ('overlapping' if k1 == k2 else 'apart'))
  got = occupancy_flow_renderer.render_occupancy_from_inputs(inputs=inp, times=list(times), config=cfg, include_observed=True, include_occluded=True)
  cmp_occ(c, 'geometry', what, got, ref_occupancy(cfg, scenes, times, True, True))
  got = occupancy_flow_renderer.render_flow_from_inputs(inputs=inp, times=list(times), config=cfg, include_observed=True, include_occluded=True)
  cmp_flow(c, 'geometry-flow', what, got, ref_flow(cfg, scenes, times, True, True))


def fam_crowd(c):
  """Many agents in up to three scenes, crossing each other, some seen, some not."""
  n = c.pick([16, 45])
  nb = 1 + c.choose(3)
  lay = c.choose(4)
  seen = c.choose(3)
  obs, occ = c.pick(WHO)
  if not m.thorough() and (n + nb + lay + seen + obs) % 2:
    return
  if not c.go():
    return
  cfg = config(num_past_steps=3, num_future_steps=6, num_waypoints=3, grid_height_cells=25, grid_width_cells=19, sdc_y_in_grid=14, agent_points_per_side_length=3, agent_points_per_side_width=2)
  steps = 10
  scenes = []
  for b in range(nb):
    agents = []
    for i in range(n - 5 * b):
      k = (i * (lay + 1) + b) % 7
      v = [not (seen == 1 and i % 3 == 0 and t <= 3 or seen == 2 and (t + i) % 4 == 0) for t in range(steps)]
      agents.append(dict(type=[1, 1, 2, 3][(i + lay) % 4] if i % 11 != 5 else 4, states=path(KINDS[k], steps, SDC[b], BOX[(i + lay) % 3], valid=v, off=((i * 3 % 11) - 5.2, (i * 5 % 13) - 6.3))))
    scenes.append(dict(sdc=SDC[b], agents=agents))
  what = '%d agents, %d scenes, layout %d, validity %d, observed %s occluded %s' % (n, nb, lay, seen, obs, occ)
  judge_scene(c, 'crowd', what, cfg, scenes, obs, occ)
  c.outcome('%d agents' % n)


def fam_challenge(c):
  """The grid of the challenge: 256 x 256 cells, 11 + 80 steps, 8 waypoints."""
  lay = c.choose(4)
  sdc = c.pick(SDC)
  obs, occ = c.pick(WHO)
  if not m.thorough() and (lay + SDC.index(sdc) + obs + 2 * occ) % 3:
    return
  if not c.go():
    return
  cfg = config(num_past_steps=10, num_future_steps=80, num_waypoints=8, grid_height_cells=256, grid_width_cells=256, sdc_y_in_grid=192, sdc_x_in_grid=128, pixels_per_meter=3.2, agent_points_per_side_length=8, agent_points_per_side_width=4)
  agents = []
  for i in range(4):
    v = [not (i == lay and t <= 10 or i == 3 and t % 9 == 4) for t in range(91)]
    st = path(['across', 'turn', 'back', 'enter'][(i + lay) % 4], 91, sdc, BOX[i % 3], off=(6.0 * i - 9, 4.0 * i), valid=v)
    agents.append(dict(type=1 + (i + lay) % 3, states=st))
  what = 'challenge grid, layout %d, sdc %s, observed %s occluded %s' % (lay, sdc, obs, occ)
  judge_scene(c, 'challenge', what, cfg, [dict(sdc=sdc, agents=agents)], obs, occ)
  c.outcome('challenge grid')


def judge_scene(c, key, what, cfg, scenes, obs, occ):
  inp = make_inputs(cfg, scenes)
  times = ('past', 'current', 'future')
  c.state(what)
  c.sample(lambda: what)
  got = occupancy_flow_renderer.render_occupancy_from_inputs(inputs=inp, times=list(times), config=cfg, include_observed=obs, include_occluded=occ)
  cmp_occ(c, key, what, got, ref_occupancy(cfg, scenes, times, obs, occ))
  got = occupancy_flow_renderer.render_flow_from_inputs(inputs=inp, times=list(times), config=cfg, include_observed=obs, include_occluded=occ)
  cmp_flow(c, key + '-flow', what, got, ref_flow(cfg, scenes, times, obs, occ))


# ------------------------------------------------------------------ timestep grids
def fam_timesteps(c):
  p, f, w = c.pick([(1, 2, 1), (1, 2, 2), (2, 3, 3), (0, 2, 2), (3, 4, 2), (2, 4, 4)])
  cfg = config(num_past_steps=p, num_future_steps=f, num_waypoints=w)
  v1, v2 = c.pick(range(8)), c.pick(range(8))
  if not c.go():
    return
  steps = p + 1 + f

  def mask(v):
    """Seen now / only in the past / only later, with gaps."""
    out = [1] * steps
    if not v & 1:
      out[p] = 0
    if not v & 2:
      out[:p] = [0] * p
    if not v & 4:
      out[p + 1:] = [i % 2 for i in range(f)]
    return out

  sdc = SDC[2]
  scenes = [dict(sdc=sdc, agents=[dict(type=1, states=path('across', steps, sdc, valid=mask(v1))), dict(type=1, states=path('turn', steps, sdc, valid=mask(v2))), dict(type=2, states=path('still', steps, sdc, size=(1.0, 1.0), valid=mask(v2))), dict(type=3, states=path('back', steps, sdc, valid=mask(v1)))])]
  inp = make_inputs(cfg, scenes)
  what = 'past %d future %d waypoints %d validity %d/%d' % (p, f, w, v1, v2)
  c.state(what)
  c.sample(lambda: what)
  g = occupancy_flow_grids.create_ground_truth_timestep_grids(inputs=inp, config=cfg)

  def of(field):
    return occupancy_flow_data.AgentGrids(**{n: getattr(g.view(k), field) for n, k in TYPES})

  for field, times, obs, occ in (('current_occupancy', ('current',), 1, 1), ('past_occupancy', ('past',), 1, 1), ('future_observed_occupancy', ('future',), 1, 0), ('future_occluded_occupancy', ('future',), 0, 1), ('all_occupancy', ('past', 'current', 'future'), 1, 1)):
    if p == 0 and field == 'past_occupancy':
      continue
    cmp_occ(c, 'timesteps', what + ' ' + field, of(field), ref_occupancy(cfg, scenes, times, obs, occ))
  cmp_flow(c, 'timesteps', what + ' flow', of('all_flow'), ref_flow(cfg, scenes, ('past', 'current', 'future'), 1, 1))
  for n, k in TYPES:
    if g.view(k) is not getattr(g, n):
      c.fail('view', '%s: view(%d) is not %s' % (what, k, n))
  c.outcome('%d waypoints' % w)
  if p:
    vis = occupancy_flow_grids.create_ground_truth_vis_grids(inputs=dict(inp, **{'roadgraph_samples/xyz': tf.constant(np.zeros((1, 1, 3), np.float32)), 'roadgraph_samples/valid': tf.constant(np.zeros((1, 1, 1), np.int64))}), timestep_grids=g, config=cfg)
    trail = 0.0
    for i in range(p):
      trail = np.clip(trail * 0.8 + sum(getattr(g, n).past_occupancy.numpy()[..., i:i + 1] for n, _ in TYPES), 0, 1)
    trail = np.clip(trail * 0.64 + sum(getattr(g, n).current_occupancy.numpy() for n, _ in TYPES), 0, 1)
    if not near(vis.agent_trails.numpy(), trail):
      c.fail('trails', '%s: agent trails differ from decayed past and current occupancy' % what)


def made_up(cfg, seed):
  """Timestep grids with telling values, zeros included."""
  p, f, w = cfg.num_past_steps, cfg.num_future_steps, cfg.num_waypoints
  wp = f // w
  g = occupancy_flow_grids.TimestepGrids()
  h, wd, b = 2, 3, 2
  vals = {}
  for n, (name, k) in enumerate(TYPES):
    def occ(t, salt):
      i = np.arange(b * h * wd * t).reshape(b, h, wd, t)
      return (((i * 7 + salt * 5 + n * 3 + seed) % 11) < 4).astype(np.float32)
    i = np.arange(b * h * wd * (p + 1 + f - wp) * 2).reshape(b, h, wd, p + 1 + f - wp, 2)
    fl = ((i * 5 + n + seed) % 7 - 3).astype(np.float32)
    d = dict(current_occupancy=occ(1, 1), past_occupancy=occ(p, 2), future_observed_occupancy=occ(f, 3), future_occluded_occupancy=occ(f, 4), all_occupancy=occ(p + 1 + f, 5), all_flow=fl)
    for kk, v in d.items():
      setattr(g.view(k), kk, tf.constant(v))
    vals[name] = d
  return g, vals


def fam_waypoints(c):
  p = c.pick(range(0, 5))
  f = 1 + c.choose(8)
  w = 1 + c.choose(f)
  cum = c.flip()
  seed = c.choose(3 if not m.thorough() else 11)
  if not c.go():
    return
  cfg = config(num_past_steps=p, num_future_steps=f, num_waypoints=w, cumulative_waypoints=cum)
  what = 'past %d future %d waypoints %d cumulative %s seed %d' % (p, f, w, cum, seed)
  c.state(what)
  c.sample(lambda: what)
  if f % w or f // w > p + 1:
    g, _ = made_up(config(num_past_steps=9, num_future_steps=f, num_waypoints=1), seed)
    try:
      occupancy_flow_grids.create_ground_truth_waypoint_grids(timestep_grids=g, config=cfg)
      c.fail('refuse', '%s: accepted' % what)
    except ValueError:
      c.outcome('refused')
    return
  wp = f // w
  g, vals = made_up(cfg, seed)
  out = occupancy_flow_grids.create_ground_truth_waypoint_grids(timestep_grids=g, config=cfg)
  c.outcome('waypoints of %d' % wp)
  for name, k in TYPES:
    o, d = out.view(k), vals[name]
    if o is not getattr(out, name):
      c.fail('view', '%s: view(%d) is not %s' % (what, k, name))
    start = p + 1 - wp      # step of the origin of the first future step
    for field, src in (('observed_occupancy', d['future_observed_occupancy']), ('occluded_occupancy', d['future_occluded_occupancy']), ('flow_origin_occupancy', d['all_occupancy'][..., start:start + f])):
      got = [t.numpy() for t in getattr(o, field)]
      if len(got) != w:
        c.fail('waypoints', '%s: %s %s has %d waypoints' % (what, name, field, len(got)))
        continue
      for j in range(w):
        seg = src[..., j * wp:(j + 1) * wp]
        want = seg.max(-1, keepdims=True) if cum else seg[..., -1:]
        if not np.array_equal(got[j], want):
          c.fail('waypoints', '%s: %s %s of waypoint %d differs' % (what, name, field, j))
    got = [t.numpy() for t in o.flow]
    tail = d['all_flow'][:, :, :, start:, :]
    if len(got) != w:
      c.fail('waypoints', '%s: %s flow has %d waypoints' % (what, name, len(got)))
      continue
    for j in range(w):
      seg = tail[:, :, :, j * wp:(j + 1) * wp, :]
      want = seg.sum(3) / np.maximum((seg != 0).sum(3), 1) if cum else seg[:, :, :, -1, :]
      if not near(got[j], want):
        c.fail('waypoints', '%s: %s flow of waypoint %d is %s, expected %s' % (what, name, j, got[j].ravel()[:8], want.ravel()[:8]))
  for j in range(w):
    for fn, field in ((out.get_observed_occupancy_at_waypoint, 'observed_occupancy'), (out.get_occluded_occupancy_at_waypoint, 'occluded_occupancy'), (out.get_flow_at_waypoint, 'flow')):
      a = fn(j)
      for name, k in TYPES:
        if not np.array_equal(a.view(k).numpy(), getattr(out.view(k), field)[j].numpy()):
          c.fail('at', '%s: %s of %s at waypoint %d is not its grid' % (what, field, name, j))


def fam_views(c):
  """Grids of only some classes, and unknown classes."""
  have = c.choose(8)
  k = c.choose(3)
  field = c.pick(['observed_occupancy', 'occluded_occupancy', 'flow'])
  if not c.go():
    return
  w = occupancy_flow_grids.WaypointGrids()
  for i, (name, num) in enumerate(TYPES):
    if have >> i & 1:
      for fi, f in enumerate(('observed_occupancy', 'occluded_occupancy', 'flow')):
        for j in range(3):
          getattr(w.view(num), f).append(tf.constant(np.full((1, 1, 1, 1), 100 * i + 10 * fi + j, np.float32)))
  a = {'observed_occupancy': w.get_observed_occupancy_at_waypoint, 'occluded_occupancy': w.get_occluded_occupancy_at_waypoint, 'flow': w.get_flow_at_waypoint}[field](k)
  c.state((have, k, field))
  c.outcome('%d classes' % bin(have).count('1'))
  for i, (name, num) in enumerate(TYPES):
    got = a.view(num)
    want = 100 * i + 10 * ('observed_occupancy', 'occluded_occupancy', 'flow').index(field) + k if have >> i & 1 else None
    if (got is None) != (want is None) or (got is not None and float(got.numpy().ravel()[0]) != want):
      c.fail('at', 'classes %d: %s %s at waypoint %d is %s, expected %s' % (have, name, field, k, got, want))
  for o in (w, a, occupancy_flow_grids.TimestepGrids()):
    for bad in (0, 4, -1):
      try:
        o.view(bad)
        c.fail('view', '%s.view(%d) is accepted' % (type(o).__name__, bad))
      except ValueError:
        pass


# ------------------------------------------------------------------ SDC fields, road graph, parsing
def fam_sdc(c):
  n = 1 + c.choose(3)
  b = 1 + c.choose(3)
  who = [c.choose(n) for _ in range(b)]
  if not c.go():
    return
  arr = {k: np.arange(b * n).reshape(b, n, 1).astype(np.float32) * 10 + i for i, k in enumerate(('x', 'y', 'z', 'bbox_yaw'))}
  flag = np.zeros((b, n), np.int64)
  for i, j in enumerate(who):
    flag[i, j] = 1
  # Padded agents carry -1.
  flag[flag == 0] = -1 if b == 2 else 0
  inp = {'state/is_sdc': tf.constant(flag)}
  inp.update({'state/current/' + k: tf.constant(v) for k, v in arr.items()})
  got = occupancy_flow_data.add_sdc_fields(dict(inp))
  c.state((n, who))
  c.outcome('%d scenes' % b)
  for k, v in arr.items():
    want = np.array([[v[i, j, 0]] for i, j in enumerate(who)])
    g = got['sdc/current/' + k].numpy()
    if g.shape != want.shape or not np.array_equal(g, want):
      c.fail('sdc', 'agents %d, sdc %s: sdc %s is %s, expected %s' % (n, who, k, g.tolist(), want.tolist()))
  if set(got) != set(inp) | {'sdc/current/' + k for k in arr}:
    c.fail('sdc', 'other fields changed: %s' % sorted(got))


def fam_road(c):
  kw = c.pick(CFGS[:4])
  cfg = config(**kw)
  sdc = c.pick(SDC)
  n = 1 + c.choose(3)
  pts = [(c.pick([(0.2, 0.1), (3.3, -2.2), (-40.0, 1.0), (0.2, 0.3), (-6.7, 8.4)]), c.choose(2)) for _ in range(n)]
  if not c.go():
    return
  other = SDC[(SDC.index(sdc) + 1) % 3]
  xyz = np.array([[(s[0] + p[0], s[1] + p[1], 3.0) for p, _ in pts] for s in (sdc, other)], np.float32)
  val = np.array([[[v] for _, v in pts], [[1 - v] for _, v in pts]], np.int64)
  inp = {'roadgraph_samples/xyz': tf.constant(xyz), 'roadgraph_samples/valid': tf.constant(val)}
  for j, k in enumerate(('x', 'y', 'z', 'bbox_yaw')):
    inp['sdc/current/' + k] = tf.constant(np.array([[(s[0], s[1], 0.25, s[2])[j]] for s in (sdc, other)], np.float32))
  want = np.zeros((2, cfg.grid_height_cells, cfg.grid_width_cells, 1))
  for b, s in enumerate((sdc, other)):
    for i, (p, _) in enumerate(pts):
      if val[b, i, 0]:
        cs = cell(cfg, *to_grid(cfg, s, s[0] + p[0], s[1] + p[1]))
        for cx, cy in cs:
          if 0 <= cx < cfg.grid_width_cells and 0 <= cy < cfg.grid_height_cells:
            want[b, cy, cx, 0] = 1 if len(cs) == 1 else (want[b, cy, cx, 0] or -1)
  got = occupancy_flow_renderer.render_roadgraph_from_inputs(inp, cfg).numpy()
  what = 'config %s sdc %s road points %s' % (kw, sdc, pts)
  c.state(what)
  c.outcome('%d points' % n)
  if got.shape != want.shape or np.any((want >= 0) & (got != want)):
    c.fail('road', '%s: drawn at %s, expected %s' % (what, np.argwhere(got > 0).tolist(), np.argwhere(want == 1).tolist()))


def features():
  f = {'scenario/id': (bytes, ())}
  for k, (t, n) in dict(dir=(float, 3), id=(int, 1), type=(int, 1), valid=(int, 1), xyz=(float, 3)).items():
    f['roadgraph_samples/' + k] = (t, (20000, n))
  for k, t in dict(id=float, type=float, is_sdc=int, tracks_to_predict=int).items():
    f['state/' + k] = (t, (128,))
  for when, n in (('past', 10), ('current', 1), ('future', 80)):
    for k in ('bbox_yaw', 'height', 'length', 'vel_yaw', 'velocity_x', 'velocity_y', 'width', 'x', 'y', 'z'):
      f['state/%s/%s' % (when, k)] = (float, (128, n))
    for k in ('timestamp_micros', 'valid'):
      f['state/%s/%s' % (when, k)] = (int, (128, n))
  for when, n in (('past', 10), ('current', 1)):
    for k, t in dict(state=int, valid=int, x=float, y=float, z=float).items():
      f['traffic_light_state/%s/%s' % (when, k)] = (t, (n, 16))
  return f


FEATURES = features()
_EX = {}


def example_values():
  if not _EX:
    for i, (k, (t, shape)) in enumerate(sorted(FEATURES.items())):
      n = int(np.prod(shape))
      if t is bytes:
        _EX[k] = [b'scene']
      elif t is float:
        _EX[k] = ((np.arange(n) % 977) * 0.5 + i).tolist()
      else:
        _EX[k] = ((np.arange(n) % 1009) + 2 * i).tolist()
  return _EX


def fam_parse(c):
  names = sorted(FEATURES)
  which = c.choose(len(names) + 1)
  how = c.pick(['missing', 'short']) if which < len(names) else 'whole'
  if not c.go():
    return
  vals = example_values()
  ex = tf.train.Example()
  for k, v in vals.items():
    v = list(v)
    if which < len(names) and k == names[which]:
      if how == 'missing':
        continue
      v = v[:-1]
    t = FEATURES[k][0]
    fe = ex.features.feature[k]
    (fe.bytes_list if t is bytes else fe.float_list if t is float else fe.int64_list).value.extend(v)
  c.state((which, how))
  c.outcome(how)
  raw = tf.constant(ex.SerializeToString())
  if how != 'whole':
    try:
      occupancy_flow_data.parse_tf_example(raw)
    except Exception as e:
      if mcpy.is_shim_missing(e):
        raise
      return
    c.fail('parse', 'an example with %s %s is accepted' % (how, names[which]))
    return
  got = occupancy_flow_data.parse_tf_example(raw)
  if set(got) != set(names):
    return c.fail('parse', 'features %s' % sorted(set(got) ^ set(names)))
  for k, (t, shape) in FEATURES.items():
    g = got[k].numpy()
    if t is bytes:
      ok = bytes(g) == b'scene' if not isinstance(g, np.ndarray) else g.item() == b'scene'
    else:
      ok = g.shape == shape and g.dtype == (np.float32 if t is float else np.int64) and np.array_equal(g.ravel(), np.array(vals[k], g.dtype))
    if not ok:
      c.fail('parse', 'feature %s is read wrongly' % k)


# ------------------------------------------------------------------ pictures
def blend(fg, bg, fa, ba):
  oa = fa + ba * (1 - fa)
  return (fg * fa + bg * ba * (1 - fa)) / (oa + 1e-7), oa


LEVEL = [0.0, 0.3, 1.0]


def fam_picture(c):
  have = c.choose(8)
  rg = c.pick(LEVEL)
  v = [c.pick(LEVEL) for _ in range(3)]
  gamma = c.pick([None, 1.0, 2.2])
  if any(v[i] and not have >> i & 1 for i in range(3)):
    return
  if not c.go():
    return
  def g(x):
    a = np.zeros((1, 1, 2, 1), np.float32)
    a[0, 0, 1, 0] = x
    return tf.constant(a)
  grids = occupancy_flow_data.AgentGrids(**{n: g(v[i]) for i, (n, _) in enumerate(TYPES) if have >> i & 1})
  kw = {} if gamma is None else dict(gamma=gamma)
  got = occupancy_flow_vis.occupancy_rgb_image(agent_grids=grids, roadgraph_image=g(rg), **kw).numpy()
  ga = gamma or 1.6
  a = [x ** (1 / ga) for x in v]
  img, al = blend(np.zeros(3), np.ones(3), rg, 1.0)
  for layer, alpha in (((a[0], 0, 0), a[0]), ((0, a[1] * 0.67, 0), a[1]), ((0, 0, a[2]), a[2])):
    img, al = blend(np.array(layer), img, alpha, al)
  what = 'classes %d values %s road %s gamma %s' % (have, v, rg, gamma)
  c.state(what)
  c.outcome('%d layers' % sum(1 for x in v if x))
  if got.shape != (1, 1, 2, 3) or not near(got[0, 0, 1], img, 1e-3) or not near(got[0, 0, 0], np.ones(3), 1e-3):
    c.fail('picture', '%s: colour %s, expected %s' % (what, got.ravel().tolist(), img.tolist()))


def hsv(h, s, v):
  out = []
  for n in (5, 3, 1):
    k = (n + h * 6) % 6
    out.append(v - v * s * max(0, min(k, 4 - k, 1)))
  return np.array(out)


VEC = [(0, 0), (2, 0), (0, 2), (-1, 0), (0, -3), (1, 1), (-2, 1.5), (0.5, -1)]


def fam_flow_picture(c):
  f1, f2 = c.pick(VEC), c.pick(VEC)
  rg, tr = c.pick(LEVEL), c.pick(LEVEL)
  if not c.go():
    return
  flow = np.array([[[f1, f2]], [[f2, (4, 0)]]], np.float32)
  shape = (2, 1, 2, 1)
  got = occupancy_flow_vis.flow_rgb_image(flow=tf.constant(flow), roadgraph_image=tf.constant(np.full(shape, rg, np.float32)), agent_trails=tf.constant(np.full(shape, tr, np.float32))).numpy()
  what = 'flow %s road %s trails %s' % (flow.tolist(), rg, tr)
  c.state(what)
  c.outcome('moving' if any(f1) or any(f2) else 'still')
  if got.shape != (2, 1, 2, 3):
    return c.fail('flow-picture', '%s: shape %s' % (what, got.shape))
  for b in range(2):
    most = max(math.hypot(*flow[b, 0, i]) for i in range(2))
    for i in range(2):
      x, y = flow[b, 0, i]
      col = hsv((math.atan2(x, y) % (2 * PI)) / (2 * PI), math.hypot(x, y) / most if most else 0, 1)
      col, _ = blend(np.zeros(3), col, rg, 1.0)
      col, _ = blend(np.zeros(3), col, 0.2 * tr, 1.0)
      if not near(got[b, 0, i], col, 2e-3):
        c.fail('flow-picture', '%s: colour %s of (%s, %s), expected %s' % (what, got[b, 0, i].tolist(), x, y, col.tolist()))


# ------------------------------------------------------------------ metrics
def ref_auc(y, p):
  """Area under the interpolated precision-recall curve at 100 thresholds."""
  th = [-1e-7] + [(i + 1) / 99 for i in range(98)] + [1 + 1e-7]
  y, p = np.asarray(y, float).ravel(), np.asarray(p, float).ravel()
  tp = np.array([y[p > t].sum() for t in th])
  fp = np.array([(1 - y[p > t]).sum() for t in th])
  fn = y.sum() - tp
  dtp = tp[:-1] - tp[1:]
  pp = tp + fp
  dp = pp[:-1] - pp[1:]
  slope = np.where(np.maximum(dp, 0) > 0, dtp / np.where(dp > 0, dp, 1), 0)
  icpt = tp[1:] - slope * pp[1:]
  ratio = np.where((pp[:-1] > 0) & (pp[1:] > 0), pp[:-1] / np.where(pp[1:] > 0, pp[1:], 1), 1)
  den = np.maximum(tp[1:] + fn[1:], 0)
  inc = np.where(den > 0, slope * (dtp + icpt * np.log(ratio)) / np.where(den > 0, den, 1), 0)
  return inc.sum()


def ref_iou(y, p):
  i = (y * p).mean()
  d = y.mean() + p.mean() - i
  return i / d if d else 0.0


def ref_epe(t, p):
  on = (t != 0).any(-1)
  return np.hypot(*np.moveaxis(t - p, -1, 0))[on].mean() if on.any() else 0.0


def ref_warp(origin, flow):
  b, h, w, _ = origin.shape
  out = np.zeros_like(origin)
  for n in range(b):
    for r in range(h):
      for q in range(w):
        x, y = q + flow[n, r, q, 0], r + flow[n, r, q, 1]
        x0, y0 = math.floor(x), math.floor(y)
        for xi, yi in itertools.product((x0, x0 + 1), (y0, y0 + 1)):
          if 0 <= xi < w and 0 <= yi < h:
            out[n, r, q, 0] += origin[n, yi, xi, 0] * (1 - abs(x - xi)) * (1 - abs(y - yi))
  return out


PAIR = [((0, 0, 0), (0.0, 0.0, 0.0)), ((0, 0, 0), (0.2, 0.0, 0.7)), ((1, 0, 0), (0.905, 0.1, 0.3)), ((1, 1, 0), (0.1, 0.8, 0.9)), ((1, 1, 1), (0.5, 0.5, 0.0)), ((0, 1, 0), (0.0, 0.0, 1.0))]
FL = [((0, 0), (0, 0), (0, 0)), ((1, 0), (0, 0), (0, -2)), ((0.5, 0.25), (-1, 0), (0, 0))]


def fam_metrics(c):
  cfg = config(num_waypoints=2, grid_height_cells=1, grid_width_cells=3)
  obs = [c.pick(PAIR) for _ in range(2)]
  occ = [c.pick(PAIR[::2] if not m.thorough() else PAIR) for _ in range(2)]
  fl = [(c.pick(FL), FL[(c.choose(2) + 1)]) for _ in range(2)]
  if not c.go():
    return
  true, pred = occupancy_flow_grids.WaypointGrids(), occupancy_flow_grids.WaypointGrids()
  def t(x, n):
    return tf.constant(np.array(x, np.float32).reshape(1, 1, 3, n))
  origin = [(0, 1, 1), (1, 0, 1)]
  for k in range(2):
    for w, j in ((true, 0), (pred, 1)):
      w.vehicles.observed_occupancy.append(t(obs[k][j], 1))
      w.vehicles.occluded_occupancy.append(t(occ[k][j], 1))
      w.vehicles.flow.append(t(fl[k][j], 2))
      # Only vehicles count.
      w.pedestrians.observed_occupancy.append(t((1, 1, 1), 1))
      w.pedestrians.occluded_occupancy.append(t((1, 0, 1), 1))
      w.pedestrians.flow.append(t(FL[1], 2))
    true.vehicles.flow_origin_occupancy.append(t(origin[k], 1))
  warped = [ref_warp(true.vehicles.flow_origin_occupancy[k].numpy().astype(float), pred.vehicles.flow[k].numpy()) for k in range(2)]
  what = 'observed %s occluded %s flow %s' % (obs, occ, fl)
  c.state(what)
  c.sample(lambda: what)
  try:
    got = occupancy_flow_metrics.compute_occupancy_flow_metrics(config=cfg, true_waypoints=true, pred_waypoints=pred)
  except NotImplementedError:
    # The warp is disabled for want of a library; stand in for it.
    if not hasattr(occupancy_flow_metrics, '_flow_warp'):
      c.outcome('not available')
      return
    keep = occupancy_flow_metrics._flow_warp
    occupancy_flow_metrics._flow_warp = lambda config, true_waypoints, pred_waypoints: [tf.constant(x.astype(np.float32)) for x in warped]
    try:
      got = occupancy_flow_metrics.compute_occupancy_flow_metrics(config=cfg, true_waypoints=true, pred_waypoints=pred)
    finally:
      occupancy_flow_metrics._flow_warp = keep
  d = {k: [] for k in ('observed_auc', 'occluded_auc', 'observed_iou', 'occluded_iou', 'flow_epe', 'flow_warped_occupancy_auc', 'flow_warped_occupancy_iou')}
  A = lambda x: np.array(x, float).reshape(-1)
  has_o, has_c = {-1: True}, {-1: True}
  n_obs = n_occ = n_flow = 0
  for k in range(2):
    to, po, tc, pc = A(obs[k][0]), A(obs[k][1]), A(occ[k][0]), A(occ[k][1])
    has_o[k], has_c[k] = to.max() > 0, tc.max() > 0
    if has_o[k]:
      n_obs += 1
      d['observed_auc'].append(ref_auc(to, po))
      d['observed_iou'].append(ref_iou(to, po))
    if has_c[k]:
      n_occ += 1
      d['occluded_auc'].append(ref_auc(tc, pc))
      d['occluded_iou'].append(ref_iou(tc, pc))
    if (has_o[k] and has_o[k - 1]) or (has_c[k] and has_c[k - 1]):
      n_flow += 1
      d['flow_epe'].append(ref_epe(np.array(fl[k][0], float), np.array(fl[k][1], float)))
      ta, pa = np.clip(to + tc, 0, 1), np.clip(po + pc, 0, 1) * warped[k].ravel()
      d['flow_warped_occupancy_auc'].append(ref_auc(ta, pa))
      d['flow_warped_occupancy_iou'].append(ref_iou(ta, pa))
  c.outcome('%d/%d/%d waypoints' % (n_obs, n_occ, n_flow))
  if (got.num_waypoints_with_observed_occupancy, got.num_waypoints_with_occluded_occupancy, got.num_waypoints_with_flow) != (n_obs, n_occ, n_flow):
    c.fail('counts', '%s: counts %d %d %d, expected %d %d %d' % (what, got.num_waypoints_with_observed_occupancy, got.num_waypoints_with_occluded_occupancy, got.num_waypoints_with_flow, n_obs, n_occ, n_flow))
  for k, v in d.items():
    want = sum(v) / len(v) if v else 0.0
    g = getattr(got, 'vehicles_' + k)
    if abs(g - want) > 1e-3:
      c.fail('metric', '%s: %s is %.5f, expected %.5f' % (what, k, g, want))


m = mcpy.Main()
m.family('presence', 'one agent, each type and validity pattern over 5 steps, every request', fam_presence)
m.family('geometry', 'two scenes: all pairs of motions, sizes, SDC poses and configurations', fam_geometry)
m.family('crowd', '16 and 45 agents in up to 3 scenes x layouts x validity x request', fam_crowd)
m.family('challenge', 'the challenge grid of 256 x 256 cells and 91 steps', fam_challenge)
m.family('timesteps', 'all grids of a scene, with agents appearing and vanishing', fam_timesteps)
m.family('waypoints', 'every (past, future, waypoints) up to (4, 8, 8), cumulative or not', fam_waypoints)
m.family('views', 'grids of some classes only', fam_views)
m.family('sdc', 'every place of the SDC in batches of scenes', fam_sdc)
m.family('road', 'road points inside, outside, coinciding, invalid', fam_road)
m.family('parse', 'examples whole, or lacking one feature or one value', fam_parse)
m.family('picture', 'occupancy pictures', fam_picture)
m.family('flow-picture', 'flow pictures', fam_flow_picture)
m.family('metrics', 'metrics over two waypoints', fam_metrics)
raise SystemExit(m.run())

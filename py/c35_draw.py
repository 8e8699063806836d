"""C35: drawing keypoints and simulated scenes, comparing examples, camera tokens."""
import collections as _co
import contextlib
import io
import itertools
import math
import os
import sys

import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcpy
from matplotlib import colors as mcolors
from matplotlib import pyplot as plt
import plotly.graph_objects as go
import tensorflow as tf
from waymo_open_dataset import label_pb2
from waymo_open_dataset.protos import keypoint_pb2
from waymo_open_dataset.protos import scenario_pb2
from waymo_open_dataset.utils import example_utils
from waymo_open_dataset.utils import keypoint_data as kd
from waymo_open_dataset.utils import keypoint_draw as d
from waymo_open_dataset.utils import womd_camera_utils
from waymo_open_dataset.utils.sim_agents import visualizations as viz

K = keypoint_pb2.KeypointType
GREY = '#424242'


def kt(n):
  return K.Value('KEYPOINT_TYPE_' + n)


COMMON = ['NOSE'] + [s + '_' + p for p in ('SHOULDER', 'ELBOW', 'WRIST', 'HIP', 'KNEE', 'ANKLE') for s in ('LEFT', 'RIGHT')]
NAMES = {'camera': COMMON + ['FOREHEAD'], 'laser': COMMON + ['HEAD_CENTER']}
HEAD = {'camera': 'FOREHEAD', 'laser': 'HEAD_CENTER'}
LIMBS = [('ANKLE', 'KNEE'), ('KNEE', 'HIP'), ('HIP', 'SHOULDER'), ('SHOULDER', 'ELBOW'), ('ELBOW', 'WRIST')]
PAIRS = ([(s + '_' + a, s + '_' + b) for s in ('LEFT', 'RIGHT') for a, b in LIMBS] +
         [('LEFT_HIP', 'RIGHT_HIP'), ('LEFT_SHOULDER', 'RIGHT_SHOULDER')])
COLORS = dict(NOSE='#00FF00', FOREHEAD='#00FFFF', HEAD_CENTER='#00FFFF', LEFT_SHOULDER='#FFA6FE', LEFT_ELBOW='#FFE502', LEFT_WRIST='#006401',
              LEFT_HIP='#010067', LEFT_KNEE='#95003A', LEFT_ANKLE='#007DB5', RIGHT_SHOULDER='#774D00', RIGHT_ELBOW='#90FB92',
              RIGHT_WRIST='#0076FF', RIGHT_HIP='#D5FF00', RIGHT_KNEE='#A75740', RIGHT_ANKLE='#6A826C')
SIGMA = dict(NOSE=.052, SHOULDER=.158, ELBOW=.144, WRIST=.124, HIP=.214, KNEE=.174, ANKLE=.178, FOREHEAD=.158, CENTER=.158)


def where(kind, i):
  return (37. * i + 3, 1000 - i * i * 4.25) if kind == 'camera' else (.75 * i, 3 - i * .5, (i * 5 % 7) * .25)


def keypoint(kind, n, pos, occluded):
  if kind == 'camera':
    k = keypoint_pb2.CameraKeypoint(type=kt(n))
    p, v = k.keypoint_2d.location_px, k.keypoint_2d.visibility
  else:
    k = keypoint_pb2.LaserKeypoint(type=kt(n))
    p, v = k.keypoint_3d.location_m, k.keypoint_3d.visibility
  for a, x in zip('xyz', pos):
    setattr(p, a, x)
  if occluded is not None:
    v.is_occluded = occluded
  return k


def r(v):
  return tuple(round(float(x), 6) for x in v)


def line_key(a, b, color, width):
  return (tuple(sorted([r(a), r(b)])), color.lower(), round(float(width), 6))


def lines_of(w):
  return _co.Counter(line_key(l.start, l.end, l.color, l.width) for l in w.lines)


def dots_of(w):
  return _co.Counter((r(x.location), x.color.lower(), round(float(x.size), 6), x.name, x.actual_border_color.lower()) for x in w.dots)


def halves(a, ca, b, cb, w):
  m = (np.asarray(a, float) + np.asarray(b, float)) / 2
  return [line_key(a, m, ca, w), line_key(m, b, cb, w)]


def want_lines(kind, pos, width):
  out = []
  for a, b in PAIRS:
    if a in pos and b in pos:
      out += halves(pos[a], COLORS[a], pos[b], COLORS[b], 2 * width)
  h = HEAD[kind]
  if 'NOSE' in pos and h in pos:
    out += halves(pos['NOSE'], COLORS['NOSE'], pos[h], COLORS[h], width)
  if h in pos and 'LEFT_SHOULDER' in pos and 'RIGHT_SHOULDER' in pos:
    m = (np.array(pos['LEFT_SHOULDER']) + np.array(pos['RIGHT_SHOULDER'])) / 2
    out += halves(pos[h], COLORS[h], m, GREY, width)
  return _co.Counter(out)


def want_dots(pos, occ, factor):
  return _co.Counter((r(p), COLORS[n].lower(), round(SIGMA[n.split('_')[-1]] / .214 * factor, 6), n + ('?' if occ[n] else ''),
                      '#000000' if occ[n] else COLORS[n].lower()) for n, p in pos.items())


def camera_axes(w):
  """Lines and dots put on an axes by draw_camera_wireframe."""
  _, ax = plt.subplots()
  d.draw_camera_wireframe(ax, w)
  ls, ds = _co.Counter(), _co.Counter()
  hexa = lambda c: mcolors.to_hex(c).lower()
  pick = lambda l, i: l[i % len(l)]
  for a in ax.collections:
    if hasattr(a, 'get_segments'):
      co, lw = a.get_colors(), a.get_linewidths()
      for i, s in enumerate(a.get_segments()):
        for p, q in zip(s[:-1], s[1:]):
          ls[line_key(p, q, hexa(pick(co, i)), pick(lw, i))] += 1
    else:
      off = a.get_offsets()
      wd, ht = np.atleast_1d(a.get_widths()), np.atleast_1d(a.get_heights())
      for i, o in enumerate(off):
        ds[(r(o), hexa(pick(a.get_facecolor(), i)), round(float(pick(wd, i)), 6), round(float(pick(ht, i)), 6), hexa(pick(a.get_edgecolor(), i)))] += 1
  for l in ax.lines:
    xy = list(zip(l.get_xdata(), l.get_ydata()))
    for p, q in zip(xy[:-1], xy[1:]):
      ls[line_key(p, q, hexa(l.get_color()), l.get_linewidth())] += 1
  return ls, ds


def plotly_scene(w):
  fig = go.Figure()
  d.draw_laser_wireframe(fig, w)
  ls, ds = _co.Counter(), _co.Counter()
  for t in fig.data:
    xyz = list(zip(t.x, t.y, t.z))
    if 'lines' in t.mode:
      for i, (p, q) in enumerate(zip(xyz[:-1], xyz[1:])):
        if None in p or None in q:
          continue
        c = t.line.color
        ls[line_key(p, q, c if isinstance(c, str) else c[i], t.line.width)] += 1
    if 'markers' in t.mode:
      for i, p in enumerate(xyz):
        one = lambda v: v if isinstance(v, (str, int, float)) else v[i]
        ds[(r(p), one(t.marker.color).lower(), round(float(one(t.marker.size)), 6), one(t.text), one(t.marker.line.color).lower())] += 1
  return ls, ds


def judge_wireframe(c, kind, w, pos, occ, dot, line, what):
  l, q = lines_of(w), dots_of(w)
  if l != want_lines(kind, pos, line):
    e = want_lines(kind, pos, line)
    return c.fail('lines', '%s: missing %s, extra %s' % (what, list((e - l).items())[:3], list((l - e).items())[:3]))
  e = want_dots(pos, occ, dot)
  if q != e:
    return c.fail('dots', '%s: missing %s, extra %s' % (what, list((e - q).items())[:3], list((q - e).items())[:3]))
  if not pos:
    return
  ls, ds = camera_axes(w) if kind == 'camera' else plotly_scene(w)
  if ls != want_lines(kind, pos, line):
    return c.fail('drawn-lines', '%s: %d lines drawn instead of %d, %s' % (what, sum(ls.values()), sum(l.values()), list((ls - l).items())[:2]))
  e2 = _co.Counter()
  for (p, co, s, n, b), k in e.items():
    e2[(p, co, s, s, b) if kind == 'camera' else (p, co, s, n, b)] += k
  if ds != e2:
    return c.fail('drawn-dots', '%s: missing %s, extra %s' % (what, list((e2 - ds).items())[:2], list((ds - e2).items())[:2]))


def fam_person(c):
  """Default wireframes of every set of keypoints: lines, dots and what is drawn."""
  kind = c.pick(['camera', 'laser'])
  names = NAMES[kind]
  bits = [c.flip() for _ in names]
  v = sum(b << i for i, b in enumerate(bits))
  if not m.thorough() and (v * 7 + (kind == 'laser')) % 4 and sum(bits) not in (0, 1, 2, 13, 14):
    return
  if not c.go():
    return
  pos = {n: where(kind, i) for i, n in enumerate(names) if bits[i]}
  occ = {n: (None, False, True)[(v // 3 + i * (1 + v % 2)) % 3] for i, n in enumerate(names)}
  ks = [keypoint(kind, n, p, occ[n]) for n, p in pos.items()]
  if v % 3 == 1:
    ks.reverse()
  before = [k.SerializeToString() for k in ks]
  c.step()
  w = (d.build_camera_wireframe if kind == 'camera' else d.build_laser_wireframe)(ks)
  what = '%s %s occluded %s' % (kind, '+'.join(pos), [n for n in pos if occ[n]])
  if [k.SerializeToString() for k in ks] != before:
    return c.fail('input', 'keypoints changed: ' + what)
  c.outcome('%d lines' % len(w.lines))
  c.state((kind, v))
  judge_wireframe(c, kind, w, pos, occ, 6 if kind == 'camera' else 15, 1 if kind == 'camera' else 4, what)


ABC = ['NOSE', 'LEFT_HIP', 'RIGHT_KNEE']


def fam_edges(c):
  """Configured wireframes: edges of each kind, colours, sizes and factors."""
  kind = c.pick(['camera', 'laser'])
  present = [c.flip() for _ in ABC]
  edges = []
  spec = []
  for _ in range(1 + c.choose(2)):
    e = c.choose(3)
    if e < 2:
      a, b = c.pick([(0, 1), (1, 0), (1, 2)])
      spec.append(('solid' if e == 0 else 'two', [a], [b]))
    else:
      g = c.pick([([0], [1, 2]), ([1, 2], [0]), ([0, 1, 2], [2]), ([0], [1])])
      spec.append(('multi',) + g)
  palette = c.choose(3)   # complete, grey for the last type on single lines, other colours
  lf, df = c.pick([(1., 1.), (2.5, .5), (4., 10.)])
  if not m.thorough() and len(spec) == 2 and (len(spec[0][1]) + 2 * spec[1][1][0] + sum(present) + palette) % 2:
    return
  if not c.go():
    return
  colors = {n: ('#%02X10%02X' % (40 * i + 20, 200 - 60 * i) if palette == 2 else COLORS[n]) for i, n in enumerate(ABC)}
  sizes = {n: 1 + i * .5 for i, n in enumerate(ABC)}
  given = dict(colors)
  hidden = palette == 1 and all(s[0] != 'multi' for s in spec) and not present[2]
  if palette == 1 and not hidden:
    return
  pos = {n: where(kind, i + 2) for i, n in enumerate(ABC) if present[i]}
  if hidden:
    del given[ABC[2]]
  width = [1.5, 3.]
  T = [kt(n) for n in ABC]
  for i, (k, a, b) in enumerate(spec):
    edges.append(d.SolidLineEdge(T[a[0]], T[b[0]], width[i]) if k == 'solid' else d.BicoloredEdge(T[a[0]], T[b[0]], width[i]) if k == 'two' else
                 d.MultipointEdge([T[x] for x in a], [T[x] for x in b], width[i]))
  cfg = d.WireframeConfig(edges=edges, point_colors={kt(n): v for n, v in given.items()}, point_sizes={kt(n): v for n, v in sizes.items()}, dot_size_factor=df, line_width_factor=lf)
  f = d.build_camera_wireframe if kind == 'camera' else d.build_laser_wireframe
  c.step()
  w = f([keypoint(kind, n, p, None) for n, p in pos.items()], cfg)
  exp = []
  for i, (k, a, b) in enumerate(spec):
    na, nb = [ABC[x] for x in a], [ABC[x] for x in b]
    if any(n not in pos for n in na + nb):
      continue
    pa, pb = np.mean([pos[n] for n in na], axis=0), np.mean([pos[n] for n in nb], axis=0)
    ca, cb = (colors[na[0]] if len(na) == 1 else GREY), (colors[nb[0]] if len(nb) == 1 else GREY)
    exp += [line_key(pa, pb, ca, width[i] * lf)] if k == 'solid' else halves(pa, ca, pb, cb, width[i] * lf)
  what = '%s %s edges %s factor %g present %s' % (kind, palette, spec, lf, list(pos))
  c.state(what)
  c.outcome('%d lines' % len(exp))
  if lines_of(w) != _co.Counter(exp):
    return c.fail('lines', '%s: %s instead of %s' % (what, lines_of(w), _co.Counter(exp)))
  e = _co.Counter((r(p), colors[n].lower(), round(sizes[n] * df, 6), n, colors[n].lower()) for n, p in pos.items())
  if dots_of(w) != e:
    return c.fail('dots', '%s: %s instead of %s' % (what, dots_of(w), e))
  if [x.width for x in edges] != width[:len(edges)]:
    return c.fail('input', 'edge widths changed')


def fam_loose(c):
  """Edges with a colour not given are drawn grey, halves and solid lines alike."""
  kind = c.pick(['solid', 'two'])
  have = [c.flip(), c.flip()]
  dim = c.pick([2, 3])
  if not c.go():
    return
  a, b = (1., 2., 3.)[:dim], (5., -2., 0.)[:dim]
  ta, tb = kt('NOSE'), kt('LEFT_HIP')
  col = {t: x for t, x, h in ((ta, '#112233', have[0]), (tb, '#445566', have[1])) if h}
  ca, cb = col.get(ta, GREY), col.get(tb, GREY)
  e = (d.SolidLineEdge if kind == 'solid' else d.BicoloredEdge)(ta, tb, 7.)
  c.step()
  got = _co.Counter(line_key(l.start, l.end, l.color, l.width) for l in e.create_lines({ta: kd.Point(np.array(a)), tb: kd.Point(np.array(b))}, col))
  exp = _co.Counter([line_key(a, b, ca, 7.)] if kind == 'solid' else halves(a, ca, b, cb, 7.))
  c.state((kind, tuple(have), dim))
  c.outcome(kind)
  if got != exp:
    c.fail('lines', '%s with colours %s: %s instead of %s' % (kind, have, got, exp))


def fam_crop(c):
  """Crops keep the pixel under every keypoint and cover the box."""
  W, H = c.pick([(12, 9), (7, 11)])
  cx = c.pick([1., 3.5, 6., W - 1.5, W - .25])
  cy = c.pick([.5, 4., 4.75, H - 1.])
  bl = c.pick([2., 4.5, 9., 30.])
  bw = c.pick([2., 3.25, 8., 30.])
  margin = c.pick([0, .25, 1.])
  if not c.go():
    return
  img = np.arange(W * H * 3, dtype=np.int32).reshape(H, W, 3)
  box = label_pb2.Label.Box(center_x=cx, center_y=cy, length=bl, width=bw)
  pts = [(cx, cy), (cx + .5, cy - .75), (0, 0), (W - 1, H - 1), (cx, cy)]
  ks = [keypoint('camera', COMMON[i], p, (None, True, False)[i % 3]) for i, p in enumerate(pts)]
  before = [k.SerializeToString() for k in ks]
  i0, b0 = img.copy(), box.SerializeToString()
  c.step()
  crop, ns = d.crop_camera_keypoints(img, ks, box, margin) if margin else d.crop_camera_keypoints(img, ks, box)
  what = 'image %dx%d box at (%g,%g) size %gx%g margin %g' % (W, H, cx, cy, bl, bw, margin)
  c.state(what)
  if [k.SerializeToString() for k in ks] != before or not (img == i0).all() or box.SerializeToString() != b0:
    return c.fail('input', 'inputs changed: ' + what)
  if len(ns) != len(ks):
    return c.fail('count', '%d keypoints instead of %d: %s' % (len(ns), len(ks), what))
  shift = None
  for o, n in zip(ks, ns):
    s = (o.keypoint_2d.location_px.x - n.keypoint_2d.location_px.x, o.keypoint_2d.location_px.y - n.keypoint_2d.location_px.y)
    if shift is None:
      shift = s
    elif max(abs(s[0] - shift[0]), abs(s[1] - shift[1])) > 1e-5:
      return c.fail('shift', 'keypoints moved by %s and %s: %s' % (shift, s, what))
    x = keypoint_pb2.CameraKeypoint()
    x.CopyFrom(n)
    x.keypoint_2d.location_px.CopyFrom(o.keypoint_2d.location_px)
    if x.SerializeToString() != o.SerializeToString():
      return c.fail('keypoint', 'type or visibility changed: ' + what)
  dx, dy = int(round(shift[0])), int(round(shift[1]))
  if abs(dx - shift[0]) > 1e-5 or abs(dy - shift[1]) > 1e-5 or dx < 0 or dy < 0:
    return c.fail('shift', 'keypoints moved by %s: %s' % (shift, what))
  h, w = crop.shape[:2]
  if crop.shape[2:] != (3,) or dy + h > H or dx + w > W or not (crop == img[dy:dy + h, dx:dx + w]).all():
    return c.fail('pixels', 'crop of shape %s is not the part of the image at %d,%d: %s' % (crop.shape, dx, dy, what))
  for lo, n, cc, size, full in ((dx, w, cx, bl * (1 + margin), W), (dy, h, cy, bw * (1 + margin), H)):
    a, b = max(0., cc - size / 2), min(float(full), cc + size / 2)
    if abs(lo - a) > 1.001 or abs(lo + n - b) > 1.001:
      return c.fail('cover', 'crop covers %d..%d instead of %g..%g: %s' % (lo, lo + n, a, b, what))
  c.outcome('inside' if cx - bl / 2 >= 0 and cx + bl / 2 <= W and cy - bw / 2 >= 0 and cy + bw / 2 <= H else 'cut at the border')


# ------------------------------------------------------------ simulated scenes
def scene(kinds):
  s = scenario_pb2.Scenario(scenario_id='s')
  for i, (k, n) in enumerate(kinds):
    f = s.map_features.add(id=i * 3 + 1)
    pts = [(10. * i + j, (-1) ** j * j * .5 + i, .25 * j) for j in range(n)]
    if k in ('road_edge', 'road_line', 'lane', 'driveway', 'crosswalk', 'speed_bump'):
      m = getattr(f, k)
      m.SetInParent()
      dst = m.polyline if k in ('road_edge', 'road_line', 'lane') else m.polygon
      for x, y, z in pts:
        dst.add(x=x, y=y, z=z)
    elif k == 'stop_sign':
      f.stop_sign.position.x = 10. * i
  return s


def drawn_map(ax):
  out = []
  for l in ax.lines:
    out.append((tuple((round(float(x), 6), round(float(y), 6)) for x, y in zip(l.get_xdata(), l.get_ydata())), l.get_color(), l.get_linestyle(), float(l.get_alpha() if l.get_alpha() is not None else 1.)))
  return _co.Counter(out)


def want_map(kinds, s):
  out = []
  for (k, n), f in zip(kinds, s.map_features):
    if k in ('road_edge', 'road_line'):
      out.append((tuple((round(p.x, 6), round(p.y, 6)) for p in getattr(f, k).polyline), 'k', '--', 1. if k == 'road_edge' else .5))
  return _co.Counter(out)


def fam_map(c):
  """Maps: exactly the road edges and road lines are drawn, each once."""
  n = c.choose(5 if m.thorough() else 4)
  kinds = [(c.pick(['road_edge', 'road_line', 'lane', 'stop_sign', 'crosswalk', 'driveway', 'speed_bump', None]), 1 + (3 * i + n) % 4) for i in range(n)]
  if n == 4 and len(set(kinds)) < 4:
    return
  if not c.go():
    return
  s = scene(kinds)
  b = s.SerializeToString()
  _, ax = plt.subplots()
  c.step()
  viz.add_map(ax, s)
  c.state(tuple(kinds))
  c.outcome('%d lines' % len(ax.lines))
  if drawn_map(ax) != want_map(kinds, s):
    return c.fail('map', '%s instead of %s' % (drawn_map(ax), want_map(kinds, s)))
  if len(ax.patches) or len(ax.collections) or s.SerializeToString() != b:
    c.fail('map', 'something else drawn, or the scenario changed')


PALETTE = [(0, 120, 255), (0, 232, 157), (255, 205, 85), (244, 175, 145), (145, 80, 200), (0, 51, 102)]


def corners(x, y, yaw, l, w):
  out = []
  for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1)):
    p, q = a * l / 2, b * w / 2
    out.append((x + math.cos(yaw) * p - math.sin(yaw) * q, y + math.sin(yaw) * p + math.cos(yaw) * q))
  return out


def same_box(p, box):
  got, exp = np.asarray(p.get_corners(), float), np.asarray(corners(*box[:5]))
  if got.shape != (4, 2) or np.abs(got[None] - exp[:, None]).max(-1).min(1).max() > 2e-3 or np.abs(got[:, None] - exp[None]).max(-1).min(1).max() > 2e-3:
    return 'corners %s instead of %s' % (got.round(3).tolist(), exp.round(3).tolist())
  col = [v / 255. for v in PALETTE[box[5]]] + [.5]
  for g in (p.get_facecolor(), p.get_edgecolor()):
    if np.abs(np.asarray(g, float) - col).max() > 1e-6:
      return 'colour %s instead of %s' % (list(g), col)
  return None


def match(ps, boxes):
  """Whether the patches are exactly the boxes, in any order."""
  ps, boxes = list(ps), list(boxes)
  if len(ps) != len(boxes):
    return '%d boxes drawn instead of %d' % (len(ps), len(boxes))
  for b in boxes:
    for i, p in enumerate(ps):
      if same_box(p, b) is None:
        ps.pop(i)
        break
    else:
      return 'no box %s drawn: %s' % (b, same_box(ps[0], b))
  return None


def fam_box(c):
  """One box: corners and colour for every place, heading, size and colour."""
  x, y = c.pick([(0., 0.), (5., -3.), (-4000.5, 12000.25)])
  yaw = c.pick([k * math.pi / 8 for k in range(-16, 17)] + [100., -.001])
  l, w = c.pick([(4.5, 2.), (1., 1.), (2., 6.), (12., 0.), (0., 0.)])
  ci = c.choose(6)
  if not m.thorough() and ci and (ci + int(l)) % 3:
    return
  if not c.go():
    return
  c.step()
  p = viz.get_bbox_patch(x, y, yaw, l, w, ci) if ci else viz.get_bbox_patch(x, y, yaw, l, w)
  c.state((x, y, yaw, l, w, ci))
  e = same_box(p, (x, y, yaw, l, w, ci))
  c.outcome('box')
  if e:
    c.fail('box', '%s for %s' % (e, (x, y, yaw, l, w, ci)))


def fam_frame(c):
  """Several boxes at a step: each drawn once and returned."""
  n = c.choose(4)
  sel = [c.choose(6) for _ in range(n)]
  typ = c.pick(['numpy', 'tensor'])
  if not c.go():
    return
  boxes = [(3. * k - 4, (k * k) % 5 - 2., .7 * k - 2, 1 + .5 * k, 2 - .25 * k, (5 * k + i) % 6) for i, k in enumerate(sel)]
  cols = [np.array([b[i] for b in boxes], np.float32 if i < 5 else np.int32) for i in range(6)]
  if typ == 'tensor':
    cols = [tf.convert_to_tensor(a) for a in cols]
  _, ax = plt.subplots()
  c.step()
  out = viz.add_all_current_objects(ax, *cols)
  c.state((tuple(sel), typ))
  c.outcome('%d boxes' % n)
  e = match(ax.patches, boxes) or match(out, boxes)
  if e:
    return c.fail('boxes', '%s for %s' % (e, boxes))
  if any(same_box(p, b) for p, b in zip(out, boxes)):
    c.fail('order', 'boxes returned in another order than the objects: %s' % boxes)


def fam_movie(c):
  """Animations: after any order of frames exactly that frame's boxes are on the map."""
  n, T = c.pick([(0, 2), (1, 1), (1, 3), (2, 3), (3, 3), (5, 2)])
  kinds = c.pick([[], [('road_edge', 3)], [('lane', 3), ('road_line', 2), ('road_edge', 4)]])
  order = [c.choose(T) for _ in range(4 if m.thorough() else 3)]
  stray = c.flip()
  typ = c.pick(['numpy', 'tensor'])
  if not c.go():
    return
  boxes = [[(10. * t + 3 * i, i - t * .5, .3 * t - i, 2. + i, 1. + .5 * t, (i + t) % 6) for i in range(n)] for t in range(T)]
  arr = [np.array([[boxes[t][i][k] for t in range(T)] for i in range(n)], np.float32 if k < 5 else np.int32).reshape(n, T) for k in range(6)]
  cols = [tf.convert_to_tensor(a) for a in arr] if typ == 'tensor' else [a.copy() for a in arr]
  s = scene(kinds)
  fig, ax = plt.subplots()
  if stray:   # something drawn before the animation starts
    ax.add_patch(viz.get_bbox_patch(99., 99., 0., 1., 1., 2))
  c.step()
  an = viz.get_animated_states(fig, ax, s, *cols)
  what = '%d objects, %d steps, map %s, frames %s, %s' % (n, T, kinds, order, typ)
  c.state(what)
  if not fig.closed:
    return c.fail('figure', 'the figure given stays open: ' + what)
  if list(an.frame_seq()) != list(range(T)):
    return c.fail('frames', 'frames %s instead of 0..%d: %s' % (list(an.frame_seq()), T - 1, what))
  for t in order:
    out = an.draw(t)
    e = match(ax.patches, boxes[t]) or match(out, boxes[t])
    if e:
      return c.fail('boxes', 'after frame %d: %s: %s' % (t, e, what))
    if drawn_map(ax) != want_map(kinds, s):
      return c.fail('map', 'after frame %d the map is %s: %s' % (t, drawn_map(ax), what))
  c.outcome('%d objects' % n)


def fam_scene(c):
  """Scenes of real size: many objects over many steps on a large map, frames played in order, backwards and in jumps."""
  n, T = c.pick([(9, 91), (40, 11), (130, 4)] + ([(128, 91)] if m.thorough() else []))
  nf = c.pick([0, 7, 150])
  play = c.choose(3)
  typ = c.pick(['numpy', 'tensor'])
  if not c.go():
    return
  kinds = [(['road_edge', 'road_line', 'lane', 'road_line', 'crosswalk', 'road_edge', None][i % 7], 1 + (i * 5) % 40) for i in range(nf)]
  boxes = [[(1.5 * t + 7 * i, (i * 11) % 17 - t * .25, .05 * t - i, 2. + .1 * (i % 30), 1. + .1 * (i % 13), (i + t // 3) % 6) for i in range(n)] for t in range(T)]
  arr = [np.array([[boxes[t][i][k] for t in range(T)] for i in range(n)], np.float32 if k < 5 else np.int32).reshape(n, T) for k in range(6)]
  cols = [tf.convert_to_tensor(a) for a in arr] if typ == 'tensor' else [a.copy() for a in arr]
  s = scene(kinds)
  fig, ax = plt.subplots()
  c.step()
  an = viz.get_animated_states(fig, ax, s, *cols)
  what = '%d objects, %d steps, %d map features, play %d, %s' % (n, T, nf, play, typ)
  c.state(what)
  if list(an.frame_seq()) != list(range(T)):
    return c.fail('frames', 'frames %s instead of 0..%d: %s' % (list(an.frame_seq()), T - 1, what))
  order = [list(range(T)), list(range(T))[::-1], [(t * 37) % T for t in range(T + 3)]][play]
  for k, t in enumerate(order):
    out = an.draw(t)
    if len(ax.patches) != n or len(out) != n:
      return c.fail('boxes', 'after frame %d (%d-th played): %d boxes drawn, %d returned instead of %d: %s' % (t, k, len(ax.patches), len(out), n, what))
    # one object's box, another one each frame, and all of them now and then
    e = match(ax.patches, boxes[t]) or match(out, boxes[t]) if k % 10 == 0 or k == len(order) - 1 else None
    if e:
      return c.fail('boxes', 'after frame %d (%d-th played): %s: %s' % (t, k, e, what))
    if n and all(same_box(p, boxes[t][k % n]) for p in ax.patches):
      return c.fail('boxes', 'after frame %d (%d-th played) object %d is not drawn: %s' % (t, k, k % n, what))
  if drawn_map(ax) != want_map(kinds, s):
    return c.fail('map', 'the map is not the %d features: %s' % (nf, what))
  c.outcome('%d objects' % n)


# ------------------------------------------------------------ examples
INF = float('inf')
VALUES = [None, ('none',), ('f',), ('f', 1.), ('f', 1.0005), ('f', 1.01), ('f', 1., 2.), ('f', 2., 1.), ('f', -1.), ('f', 1000.), ('f', 1000.5), ('f', INF),
          ('i',), ('i', 1), ('i', 2), ('i', 1, 2), ('i', 2**62), ('b',), ('b', b''), ('b', b'1'), ('b', b'1', b'2')]


def feature(v):
  f = tf.train.Feature()
  if v[0] != 'none':
    l = {'f': f.float_list, 'i': f.int64_list, 'b': f.bytes_list}[v[0]]
    l.SetInParent()
    l.value.extend(v[1:])
  return f


def example(vs):
  e = tf.train.Example()
  for n, v in vs.items():
    if v is not None:
      e.features.feature[n].CopyFrom(feature(v))
      if v[0] == 'none':
        e.features.feature[n].SetInParent()
  return e


def near(a, b, atol, rtol):
  if a is None or b is None:
    return a is b
  if a[0] != b[0] or len(a) != len(b):
    return False
  if a[0] != 'f':
    return a == b
  f = np.float32
  return all(float(f(x)) == float(f(y)) or (not math.isinf(x) and not math.isinf(y) and abs(float(f(x)) - float(f(y))) <= atol + rtol * abs(float(f(y)))) for x, y in zip(a[1:], b[1:]))


def fam_examples(c):
  """Examples are equal exactly when both have the same features of one kind with close or same values."""
  tol = c.pick([None, (1e-3, 0.), (.1, 0.), (0., 1e-3), (0., 0.)])
  a, b = {}, {}
  two = c.flip()
  a['x'], b['x'] = c.pick(VALUES), c.pick(VALUES)
  if two:
    a['y'], b['y'] = c.pick(VALUES[:9:2] + VALUES[13:15]), c.pick(VALUES[:9:2] + VALUES[13:15])
  if not m.thorough() and two and tol not in (None, (.1, 0.)):
    return
  if not c.go():
    return
  at, rt = tol or (1e-3, 0.)
  ea, eb = example(a), example(b)
  ba, bb = ea.SerializeToString(), eb.SerializeToString()
  out = io.StringIO()
  c.step()
  with contextlib.redirect_stdout(out):
    got = example_utils.examples_equal(ea, eb) if tol is None else example_utils.examples_equal(ea, eb, atol=at, rtol=rt)
  exp = all(near(a[k], b[k], at, rt) for k in a)
  c.state((str(a), str(b), tol))
  c.outcome('equal' if exp else 'different')
  if bool(got) != exp:
    return c.fail('equal', '%s and %s with tolerance %s: %s' % (a, b, tol, got))
  if ea.SerializeToString(deterministic=True) != example(a).SerializeToString(deterministic=True) or eb.SerializeToString(deterministic=True) != example(b).SerializeToString(deterministic=True):
    c.fail('input', 'examples changed: %s, %s' % (a, b))


# ------------------------------------------------------------ camera tokens
def token_frames(n, k):
  s = scenario_pb2.Scenario()
  for i in range(n):
    f = s.frame_camera_tokens.add()
    for j in range((i + k) % 3):
      f.camera_tokens.add(camera_name=1 + (j + k) % 8, tokens=[100 * k + 10 * i + j + t for t in range(j + 1)])
  return s


def fam_tokens(c):
  """Scenario and camera tokens together; the given ones unchanged."""
  n0, n1 = c.choose(4), c.choose(5)
  k = c.choose(3)
  rich = c.flip()
  again = c.flip()
  if not c.go():
    return
  s = token_frames(n0, k)
  if rich:
    s.scenario_id = 'abc'
    s.timestamps_seconds.extend([0., .1])
    s.tracks.add(id=3, object_type=1).states.add(center_x=4., valid=True)
    s.map_features.add(id=9).road_line.polyline.add(x=1.)
  extra = token_frames(n1, k + 1)
  if rich:
    extra.scenario_id = 'other'
  bs, be = s.SerializeToString(), extra.SerializeToString()
  c.step()
  out = womd_camera_utils.add_camera_tokens_to_scenario(s, extra)
  want = scenario_pb2.Scenario.FromString(bs)
  want.frame_camera_tokens.extend(list(extra.frame_camera_tokens))
  if again:   # a second merge builds on the result, and changing it leaves the first as it is
    b1 = out.SerializeToString()
    out2 = womd_camera_utils.add_camera_tokens_to_scenario(out, extra)
    if out.SerializeToString() != b1:
      return c.fail('input', 'second merge changed the first result')
    want.frame_camera_tokens.extend(list(extra.frame_camera_tokens))
    out = out2
  c.state((n0, n1, k, rich, again))
  c.outcome('%d frames' % len(out.frame_camera_tokens))
  if s.SerializeToString() != bs or extra.SerializeToString() != be:
    return c.fail('input', 'inputs changed for %s frames' % ((n0, n1),))
  if out.SerializeToString() != want.SerializeToString():
    return c.fail('merge', '%d frames instead of %d, or other fields differ, for %s frames' % (len(out.frame_camera_tokens), len(want.frame_camera_tokens), (n0, n1)))
  if len(out.frame_camera_tokens):
    out.frame_camera_tokens[len(out.frame_camera_tokens) - 1].camera_tokens.add(camera_name=2)
    if s.SerializeToString() != bs or extra.SerializeToString() != be:
      c.fail('shared', 'the result shares frames with the inputs')


def fam_codebook(c):
  """Embeddings are the codebook rows of the tokens; tokens out of range are refused."""
  rows, cols = c.pick([(1, 1), (3, 2), (5, 4)])
  toks = [c.choose(rows + 3) - 1 for _ in range(1 + c.choose(4 if rows < 5 or m.thorough() else 3))]
  dt = c.pick([np.int64, np.int32, np.int16])
  if not c.go():
    return
  book = (np.arange(rows * cols, dtype=np.float32) * 1.5 - 2).reshape(rows, cols)
  t = np.array(toks, dt)
  b0 = book.copy()
  bad = any(x < 0 or x >= rows for x in toks)
  c.step()
  try:
    got = womd_camera_utils.get_camera_embedding_from_codebook(book, t)
  except ValueError:
    got = None
  c.state((rows, tuple(toks), dt.__name__))
  c.outcome('refused' if bad else 'embedded')
  if (got is None) != bad:
    return c.fail('range', 'tokens %s of a codebook of %d: %s' % (toks, rows, 'refused' if got is None else 'accepted'))
  if got is not None and (got.shape != (len(toks), cols) or got.dtype != book.dtype or any((got[i] != b0[x]).any() for i, x in enumerate(toks))):
    return c.fail('rows', 'tokens %s of a codebook of %d give %s' % (toks, rows, got.tolist()))
  if (book != b0).any() or t.tolist() != toks:
    c.fail('input', 'codebook or tokens changed')


def main():
  global m
  m = mcpy.Main()
  m.family('person', 'every subset (quick: every fourth, and all of up to two or all but one) of the 14 keypoints of the camera and laser wireframe, mixed occlusion, drawn', fam_person)
  m.family('edges', 'one or two edges of three kinds over three types present or not x colours x factors', fam_edges)
  m.family('loose', 'single edges with missing colours in 2D and 3D', fam_loose)
  m.family('crop', 'two image sizes x places and sizes of the box x margins, five keypoints', fam_crop)
  m.family('map', 'all lists of up to 3 (thorough 4) map features of 8 kinds', fam_map)
  m.family('box', '3 places x 35 headings x 5 sizes x colours', fam_box)
  m.family('frame', 'all lists of up to 3 of 6 boxes, arrays and tensors', fam_frame)
  m.family('movie', 'object counts and steps x maps x all orders of 3 (thorough 4) frames', fam_movie)
  m.family('scene', '9 objects x 91 steps, 40 x 11, 130 x 4 (thorough 128 x 91) on maps of 0 / 7 / 150 features, played forwards, backwards, in jumps', fam_scene)
  m.family('examples', 'all pairs of examples with one of 21 feature values, or two of smaller sets, x tolerances', fam_examples)
  m.family('tokens', 'up to 3 and 4 camera frames merged once or twice', fam_tokens)
  m.family('codebook', 'three codebooks x all lists of up to 4 tokens in and out of range', fam_codebook)
  raise SystemExit(m.run())


if __name__ == '__main__':
  main()

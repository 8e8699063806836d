"""C20: every map feature appears in the figure, once, at its coordinates and in the style of its kind."""
import collections
import mcpy
from waymo_open_dataset.protos import map_pb2, scenario_pb2
from waymo_open_dataset.utils import plot_maps as pm

m = mcpy.Main()
TH = m.thorough()
F = pm.FeatureType
L, R, E = map_pb2.LaneCenter, map_pb2.RoadLine, map_pb2.RoadEdge
# (field, type) -> colour, dash, closed
KINDS = [
    ("lane", L.TYPE_UNDEFINED, "black", "solid"), ("lane", L.TYPE_FREEWAY, "white", "solid"), ("lane", L.TYPE_SURFACE_STREET, "royalblue", "solid"), ("lane", L.TYPE_BIKE_LANE, "magenta", "solid"),
    ("road_line", R.TYPE_UNKNOWN, "black", "solid"), ("road_line", R.TYPE_BROKEN_SINGLE_WHITE, "lightgray", "dash"), ("road_line", R.TYPE_SOLID_SINGLE_WHITE, "lightgray", "solid"),
    ("road_line", R.TYPE_SOLID_DOUBLE_WHITE, "lightgray", "solid"), ("road_line", R.TYPE_BROKEN_SINGLE_YELLOW, "yellow", "dash"), ("road_line", R.TYPE_BROKEN_DOUBLE_YELLOW, "yellow", "dash"),
    ("road_line", R.TYPE_SOLID_SINGLE_YELLOW, "yellow", "solid"), ("road_line", R.TYPE_SOLID_DOUBLE_YELLOW, "yellow", "solid"), ("road_line", R.TYPE_PASSING_DOUBLE_YELLOW, "yellow", "dash"),
    ("road_edge", E.TYPE_UNKNOWN, "black", "solid"), ("road_edge", E.TYPE_ROAD_EDGE_BOUNDARY, "green", "solid"), ("road_edge", E.TYPE_ROAD_EDGE_MEDIAN, "green", "solid"),
    ("stop_sign", None, "red", "solid"), ("crosswalk", None, "orange", "solid"), ("speed_bump", None, "cyan", "solid"), ("driveway", None, "blue", "solid")]
assert len({(k[0], k[1]) for k in KINDS}) == 4 + 9 + 3 + 4
POLY = ("crosswalk", "speed_bump", "driveway")
PTS = [(1.0, 2.0, .5), (-3.5, 0.0, 0.0), (1.0, 2.0, .5), (7.25, -1.0, 2.0), (0.0, 0.0, 0.0)]


def feature(kind, fid, pts):
  f = map_pb2.MapFeature()
  if fid is not None:
    f.id = fid
  field, typ = kind[0], kind[1]
  sub = getattr(f, field)
  sub.SetInParent()
  if typ is not None:
    sub.type = typ
  if field == "stop_sign":
    for i, a in enumerate("xyz"):
      setattr(sub.position, a, pts[0][i])
  else:
    for p in pts:
      q = (sub.polygon if field in POLY else sub.polyline).add()
      q.x, q.y, q.z = p
  return f


def expected(kind, pts):
  """The feature's points in drawing order."""
  if kind[0] == "stop_sign":
    return list(pts[:1])
  return list(pts) + (list(pts[:1]) if kind[0] in POLY else [])


def judge(c, tag, desc, feats, fig):
  """feats: (kind, pts) of every drawable feature with points; reads the figure back."""
  c.step()
  lines, dots, single = collections.Counter(), collections.Counter(), collections.Counter()
  for t in fig.data:
    pts = tuple(zip(*[map(float, v) for v in (t.x, t.y, t.z)])) if t.x is not None and len(t.x) else ()
    if not (len(t.x if t.x is not None else ()) == len(t.y if t.y is not None else ()) == len(t.z if t.z is not None else ())):
      c.fail(tag + ":ragged", desc())
    if not pts:
      continue
    if "lines" in t.mode:
      lines[(pts, t.line.color, t.line.dash or "solid")] += 1
    else:
      for p in pts:
        dots[(p, t.marker.color)] += 1
      single[(pts, t.marker.color)] += 1
  used = collections.Counter()
  for kind, pts in feats:
    e = tuple(expected(kind, pts))
    if kind[0] == "stop_sign" and not lines[(e, kind[2], kind[3])]:
      # drawn as a (larger) point of its own
      if single[(e, kind[2])] + 0 < 1:
        c.fail(tag + ":missing", "%s: the %s is not drawn" % (desc(), kind[0]))
        return
      continue
    used[(e, kind[2], kind[3])] += 1
  if used != lines:
    miss, extra = used - lines, lines - used
    c.fail(tag + (":missing" if miss else ":invented"), "%s: missing %s, invented %s" % (desc(), list(miss)[:2], list(extra)[:2]))
    return
  want = collections.Counter((p, kind[2]) for kind, pts in feats for p in expected(kind, pts))
  for k, n in want.items():
    if dots[k] < n:
      c.fail(tag + ":point", "%s: point %s is marked %d times, belongs to the features %d times" % (desc(), k, dots[k], n))
      return
  for k in dots:
    if k not in want:
      c.fail(tag + ":invented", "%s: marked point %s belongs to no feature" % (desc(), k))
      return
  c.state((sorted(map(repr, lines)), len(dots)))
  c.outcome("%d features" % len(feats))


def name(kind):
  return kind[0] + ("" if kind[1] is None else ":%d" % kind[1])


def pairs(c):
  """Every pair of kinds, each with no, one or three points."""
  n = c.choose(3)
  ks = [(c.pick(KINDS), c.pick([0, 1, 3])) for _ in range(n)]
  if not c.go():
    return
  fs, ex = [], []
  for i, (k, np_) in enumerate(ks):
    if k[0] == "stop_sign":
      np_ = 1
    pts = [(x + 10 * i, y, z) for x, y, z in PTS[:np_]]
    fs.append(feature(k, i + 1, pts))
    if pts:
      ex.append((k, pts))
  desc = lambda: " ".join("%s(%d points)" % (name(k), p) for k, p in ks) or "no features"
  judge(c, "pairs", desc, ex, pm.plot_map_features(fs))
  c.sample(desc)


def shapes(c):
  """One feature of each kind, all point sequences of up to three (thorough four) points."""
  k = c.pick(KINDS if TH else [KINDS[i] for i in (0, 9, 14, 16, 17, 19)])
  n = c.choose(5 if TH else 4)
  pts = [PTS[c.choose(len(PTS)) if TH else c.pick([0, 1, 3])] for _ in range(n)]
  if not c.go():
    return
  if k[0] == "stop_sign" and not pts:
    pts = [PTS[0]]
  desc = lambda: "%s %s" % (name(k), pts)
  judge(c, "shapes", desc, [(k, pts)] if pts else [], pm.plot_map_features([feature(k, 5, pts)]))
  c.sample(desc)


def ids(c):
  """Ids are any distinct numbers in any order; neighbours may share kind and end points; the list may be the scenario's own."""
  n = 3 if not TH else 4
  order = list(range(n))
  pool = [0, 1, -5, 1 << 40]
  idl = []
  for _ in range(n):
    idl.append(pool.pop(c.choose(len(pool))))
  ks = [KINDS[c.pick([2, 11, 17])] for _ in range(n)]
  same = c.flip()
  own = c.flip()
  if not c.go():
    return
  ex = []
  sc = scenario_pb2.Scenario()
  for i in order:
    pts = PTS[:2] if same else [(x + i, y, z) for x, y, z in PTS[:2]]
    ex.append((ks[i], pts))
    sc.map_features.add().CopyFrom(feature(ks[i], idl[i], pts))
  keep = sc.SerializeToString(deterministic=True)
  desc = lambda: "ids %s kinds %s %s%s" % (idl, [name(k) for k in ks], "same points" if same else "", " from a scenario" if own else "")
  judge(c, "ids", desc, ex, pm.plot_map_features(sc.map_features if own else list(sc.map_features)))
  if sc.SerializeToString(deterministic=True) != keep:
    c.fail("ids:argument-changed", desc())
  c.sample(desc)


def triples(c):
  """Three features; a feature without geometry among them draws nothing."""
  ks = [c.pick([None] + [KINDS[i] for i in ((1, 5, 8, 12, 15, 16, 18) if not TH else range(len(KINDS)))]) for _ in range(3)]
  if not c.go():
    return
  fs, ex = [], []
  for i, k in enumerate(ks):
    if k is None:
      fs.append(map_pb2.MapFeature(id=i))
      continue
    pts = [(x, y - i, z) for x, y, z in PTS[:2 + i % 2]]
    ex.append((k, pts))
    fs.append(feature(k, i, pts))
  desc = lambda: "features %s" % [k and name(k) for k in ks]
  judge(c, "triples", desc, ex, pm.plot_map_features(fs))
  c.sample(desc)


BY_TYPE = {F.UNKNOWN_FEATURE: KINDS[0], F.FREEWAY_LANE: KINDS[1], F.SURFACE_STREET_LANE: KINDS[2], F.BIKE_LANE: KINDS[3], F.BROKEN_SINGLE_WHITE_BOUNDARY: KINDS[5], F.SOLID_SINGLE_WHITE_BOUNDARY: KINDS[6],
           F.SOLID_DOUBLE_WHITE_BOUNDARY: KINDS[7], F.BROKEN_SINGLE_YELLOW_BOUNDARY: KINDS[8], F.BROKEN_DOUBLE_YELLOW_BOUNDARY: KINDS[9], F.SOLID_SINGLE_YELLOW_BOUNDARY: KINDS[10],
           F.SOLID_DOUBLE_YELLOW_BOUNDARY: KINDS[11], F.PASSING_DOUBLE_YELLOW_BOUNDARY: KINDS[12], F.ROAD_EDGE_BOUNDARY: KINDS[14], F.ROAD_EDGE_MEDIAN: KINDS[15]}


def points(c):
  """The point container used directly: consecutive points with one id form one feature."""
  types = list(BY_TYPE)
  n = c.choose(4)
  ks = [c.pick(types if n < 2 or TH else types[::3]) for _ in range(n)]
  runs = [1 + c.choose(2) for _ in range(n)]
  if not c.go():
    return
  mp, ex = pm.MapPoints(), []
  for i, (k, r) in enumerate(zip(ks, runs)):
    pts = [(x + i, y, z) for x, y, z in PTS[:r]]
    for p in pts:
      mp.append_point(map_pb2.MapPoint(x=p[0], y=p[1], z=p[2]), k, 9 - i)
    ex.append((("lane", None) + BY_TYPE[k][2:], pts))
  desc = lambda: "points of %s, %s each" % ([k.name for k in ks], runs)
  judge(c, "points", desc, ex, pm.plot_map_points(mp))
  c.sample(desc)


def crowd(c):
  """Maps of real size: hundreds of features of all kinds, some sharing points, some of many points."""
  n = c.pick([40, 130, 400] + ([1200] if TH else []))
  long = c.pick([3, 60, 700])
  shift = c.choose(6)
  mode = c.choose(4)
  if not c.go():
    return
  fs, ex = [], []
  for i in range(n):
    k = KINDS[(i * (1, 3, 7, 1)[mode] + shift) % len(KINDS)]
    if mode == 3 and i % 2:
      k = KINDS[shift * 3 % len(KINDS)]          # half of all features of one kind
    np_ = long if i % 97 == 5 else i % 4
    if k[0] == "stop_sign":
      np_ = 1
    place = i // 2 if mode == 1 else i
    pts = [(place * 3.0 + .5 * j, (place * 7 % 31) - .25 * (j * j % 11), .125 * (j % 3)) for j in range(np_)]
    fs.append(feature(k, (i, n - i, (i * 37) % 1201, i - n // 2)[mode], pts))
    if pts:
      ex.append((k, pts))
  desc = lambda: "%d features, the longest of %d points, first kind %s, mode %d" % (n, long, name(KINDS[shift]), mode)
  judge(c, "crowd", desc, ex, pm.plot_map_features(fs))
  c.sample(desc)


m.family("pairs", "all maps of 0-2 features over all 20 kinds x {0, 1, 3 points}", pairs)
m.family("shapes", "one feature of 6 (thorough all 20) kinds, all sequences of up to 3 (4) points over 3 (5) positions incl. repeats", shapes)
m.family("ids", "3 (thorough 4) features, all assignments of distinct ids incl. 0, negative, 64-bit, 3 kinds each, shared or own coordinates", ids)
m.family("triples", "all triples over 7 (thorough 20) kinds and features without geometry", triples)
m.family("point containers", "0-3 runs of 1-2 points over the line kinds", points)
m.family("crowd", "40 / 130 / 400 (thorough 1200) features of all kinds, the longest of 3 / 60 / 700 points, 6 first kinds x 4 arrangements", crowd)
raise SystemExit(m.run())

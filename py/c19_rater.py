"""C19: rater feedback scores against a scalar reading of the published rule."""
import itertools
import math
import mcpy
import numpy as np
from waymo_open_dataset.metrics.python import rater_feedback_utils as ru

m = mcpy.Main()
TH = m.thorough()
AT = (3, 5)            # seconds at which trajectories are compared
BASE = (1.0, 1.8)      # metres allowed at those times


# ---- reference -----------------------------------------------------------------------
def fit(traj, n):
  t = [tuple(map(float, p)) for p in traj][:n]
  return t + [t[-1]] * (n - len(t))


def scale(speed):
  return min(1.0, max(0.5, 0.5 + 0.5 * (speed - 1.4) / (11 - 1.4)))


def heading(traj, i):
  """Direction of travel at step i: the last movement up to then, the vehicle's own axis if none."""
  pts = [(0.0, 0.0)] + traj
  for j in range(i, -1, -1):
    dx, dy = pts[j + 1][0] - pts[j][0], pts[j + 1][1] - pts[j][1]
    if dx or dy:
      n = math.hypot(dx, dy)
      return dx / n, dy / n
  return 1.0, 0.0


def ref(preds, probs, raters, labels, speed, mult=(1.0, 4.0), decay=.1, freq=4, secs=5, count=3, floor=4.0):
  """One example -> score, inside flags, and how close any comparison came to the edge of a region."""
  raters = [fit(t, secs * freq) for t in raters][:count]
  labels = list(labels)[:count]
  total, flags, edge = 0.0, [], 1.0
  for pred, prob in zip(preds, probs):
    pred = [tuple(map(float, p)) for p in pred]
    per_time, inside_any = [[], []], False
    for t, lab in zip(raters, labels):
      inside = True
      for k, sec in enumerate(AT):
        i = sec * freq - 1
        hx, hy = heading(t, i)
        vx, vy = pred[i][0] - t[i][0], pred[i][1] - t[i][1]
        lng = abs(vx * hx + vy * hy) / (BASE[k] * mult[1] * scale(speed))
        lat = abs(-vx * hy + vy * hx) / (BASE[k] * mult[0] * scale(speed))
        d = max(lng, lat)
        edge = min(edge, abs(d - 1))
        inside = inside and d <= 1
        per_time[k].append(lab * decay ** max(d - 1, 0.0))
      inside_any = inside_any or inside
    s = sum(max(x) for x in per_time) / len(AT)
    if not inside_any:
      s = max(s, floor)
    flags.append(inside_any)
    total += s * prob
  return total, flags, edge


def same(v, r):
  if isinstance(v, (list, tuple)):
    return len(v) == len(r) and all(same(a, b) for a, b in zip(v, r))
  return np.array_equal(v, r)


def copy(v):
  return [copy(x) for x in v] if isinstance(v, list) else tuple(copy(x) for x in v) if isinstance(v, tuple) else np.array(v, copy=True) if isinstance(v, np.ndarray) else v


def judge(c, tag, desc, batch, speed, kw, rform=None, lform=None, dt=(np.float64,) * 3, tol=1e-7):
  """batch: per example (preds, probs, raters, labels); dt: types of predictions, probabilities, speeds."""
  secs, freq = kw.get("length_seconds", 5), kw.get("frequency", 4)
  args = dict(
      inference_trajectories=np.array([b[0] for b in batch], dtype=dt[0]), inference_probs=np.array([b[1] for b in batch], dtype=dt[1]),
      rater_specified_trajectories=rform([b[2] for b in batch]) if rform else [[np.array(t, dtype=np.float64) for t in b[2]] for b in batch],
      rater_feedback_labels=lform([b[3] for b in batch]) if lform else [np.array(b[3]) for b in batch], init_speed=np.array(speed, dtype=dt[2]))
  keep = {k: copy(v) for k, v in args.items()}
  out = ru.get_rater_feedback_score(**args, **kw)
  c.step()
  for k in args:
    if not same(args[k], keep[k]):
      c.fail(tag + ":argument-changed", "%s: %s changed" % (desc(), k))
  sc, fl = np.asarray(out["rater_feedback_score"]), np.asarray(out["is_fully_within_trust_region"])
  if sc.shape != (len(batch),) or fl.shape != (len(batch), len(batch[0][0])):
    c.fail(tag + ":shape", "%s: score shape %s flags %s" % (desc(), sc.shape, fl.shape))
    return None
  rkw = dict(mult=kw.get("lat_lng_threshold_multipliers", (1.0, 4.0)), decay=kw.get("decay_factor", .1), freq=freq, secs=secs,
             count=kw.get("default_num_of_rater_specified_trajectories", 3), floor=kw.get("minimum_score_outside_trust_region", 4.0))
  for b, ex in enumerate(batch):
    e, ef, edge = ref(*ex, speed[b], **rkw)
    if edge < max(1e-7, 10 * tol if tol > 1e-7 else 0):
      c.outcome("on an edge")
      continue
    if abs(sc[b] - e) > tol * max(1, abs(e)):
      c.fail(tag + ":score", "%s: example %d scores %.9g, expected %.9g" % (desc(), b, sc[b], e))
      return out
    if fl[b].tolist() != ef:
      c.fail(tag + ":inside", "%s: example %d inside %s, expected %s" % (desc(), b, fl[b].tolist(), ef))
      return out
    c.outcome("inside %d of %d" % (sum(ef), len(ef)))
    c.state((tag, round(float(e), 9), tuple(ef)))
  return out


def line(n, v=(2.0, 0.0)):
  return [(v[0] * (i + 1), v[1] * (i + 1)) for i in range(n)]


def off(traj, at, d):
  t = list(traj)
  for i, (dx, dy) in zip(at, d):
    t[i] = (t[i][0] + dx, t[i][1] + dy)
  return t


# ---- families --------------------------------------------------------------------------
OFF = [0.0, .6, -.97, 1.03, -1.7, 3.1]   # in units of the allowed distance


def offsets(c):
  """One prediction, one rater: all offsets along and across at both times, three directions of travel."""
  o = [c.pick(OFF if TH else OFF[:1] + OFF[2:]) for _ in range(4)]
  ang = c.pick([0.0, 2.1, -1.2])
  speed = c.pick([0.0, 6.2, 20.0])
  mult = c.pick([(1.0, 4.0), (2.0, .5)])
  if not c.go():
    return
  hx, hy = math.cos(ang), math.sin(ang)
  t = line(5, (2 * hx, 2 * hy))
  d = []
  for k in range(2):
    a, b = o[2 * k] * BASE[k] * mult[1] * scale(speed), o[2 * k + 1] * BASE[k] * mult[0] * scale(speed)
    d.append((a * hx - b * hy, a * hy + b * hx))
  p = off(t, (2, 4), d)
  judge(c, "offsets", lambda: "offsets along/across %s direction %g speed %g multipliers %s" % (o, ang, speed, mult), [([p], [1.0], [t], [8])], [speed], dict(frequency=1, lat_lng_threshold_multipliers=mult))
  c.sample(lambda: "offsets along/across %s direction %g speed %g multipliers %s" % (o, ang, speed, mult))


def paths(c):
  """All rater paths of five steps: the direction at 3 s and 5 s comes from the last movement before it."""
  mv = [c.pick([(0.0, 0.0), (1.0, 0.0), (-.6, .8), (-2.0 ** -9, -2.0 ** -8)] + ([(0.0, -2.0)] if TH else [])) for _ in range(5)]
  d = c.pick([(1.4, 0.0), (0.0, 1.4), (-.9, .9), (0.0, 0.0), (3.0, -2.0)])
  vis = c.flip()
  if not c.go():
    return
  t, x, y = [], 0.0, 0.0
  for a, b in mv:
    x, y = x + a, y + b
    t.append((x, y))
  p = off(t, (2, 4), (d, d))
  desc = lambda: "rater moves %s, prediction off by %s" % (mv, d)
  out = judge(c, "paths", desc, [([p], [1.0], [t], [7])], [5.0], dict(frequency=1, lat_lng_threshold_multipliers=(1.0, 2.0), output_trust_region_visualization=vis))
  if vis and out is not None:
    for k, i in enumerate((2, 4)):
      h = heading(t, i)
      for r in range(3):
        ang = float(out["trust_region_angle"][0, r, k])
        got = (float(out["trust_region_center_x"][0, r, k]), float(out["trust_region_center_y"][0, r, k]))
        if math.hypot(math.cos(math.radians(ang)) - h[0], math.sin(math.radians(ang)) - h[1]) > 1e-6:
          c.fail("paths:angle", "%s: region %d turned by %g, travel is along %s" % (desc(), k, ang, h))
        if math.hypot(got[0] - t[i][0], got[1] - t[i][1]) > 1e-9:
          c.fail("paths:centre", "%s: region %d at %s" % (desc(), k, got))
      w, hh = float(out["trust_region_width"][0, k]), float(out["trust_region_height"][0, k])
      if abs(w - 2 * 2 * BASE[k] * scale(5.0)) > 1e-9 or abs(hh - 2 * BASE[k] * scale(5.0)) > 1e-9:
        c.fail("paths:size", "%s: region %d is %g by %g" % (desc(), k, w, hh))
  c.sample(desc)


def lengths(c):
  """Rater paths of any length and number, at each frequency and length."""
  freq = c.pick([1, 2, 4])
  secs = c.pick([5, 6])
  count = c.pick([1, 2, 3])
  k = 1 + c.choose(4)
  lens = [c.pick([1, 3, 5 * freq, 6 * freq + 2]) for _ in range(k)]
  form = c.choose(2)
  if not c.go():
    return
  raters = [line(n, (1.0 + .5 * i, .1 * i)) for i, n in enumerate(lens)]
  labels = [[3, 9, 6, 10][i] for i in range(k)]
  preds = [line(secs * freq, (1.0 + .5 * i, .1 * i + .05)) for i in range(2)]
  kw = dict(frequency=freq, length_seconds=secs, default_num_of_rater_specified_trajectories=count)
  rform = None
  if form and len(set(lens)) == 1:
    rform = np.array     # [B, P, T, 2], as the argument is documented
  out = judge(c, "lengths", lambda: "frequency %d length %d s, %d of raters %s%s" % (freq, secs, count, lens, " in one array" if rform else ""), [(preds, [.7, .3], raters, labels)], [4.0], kw, rform)
  if out is not None:
    got, lab = np.asarray(out["rater_specified_trajectories"]), np.asarray(out["rater_feedback_labels"])
    exp = [fit(t, secs * freq) for t in raters[:count]]
    exp += [exp[-1]] * (count - len(exp))
    el = labels[:count]
    el += [el[-1]] * (count - len(el))
    if got.shape != (1, count, secs * freq, 2) or not np.allclose(got[0], exp) or lab.tolist() != [el]:
      c.fail("lengths:processed", "frequency %d length %d s, %d of raters %s%s: reported raters %s labels %s" % (freq, secs, count, lens, " in one array" if rform else "", got.shape, lab.tolist()))
  c.sample(lambda: "frequency %d length %d s, %d of raters %s" % (freq, secs, count, lens))


P4 = [line(5), line(5, (1.6, .3)), off(line(5), (2,), [(0.0, 1.5)]), line(5, (0.0, 0.0)), off(line(5), (2, 4), [(1.0, .2), (9.0, 1.0)])]


def raters(c):
  """Several raters and predictions: the best rater at each time, weighted over predictions; rater order is irrelevant."""
  r = [c.choose(5 if TH else 4) for _ in range(3)]
  lab = [c.pick([0, 5, 10] if not TH else [0, 2, 5, 10]) for _ in range(3)]
  i = [c.choose(len(P4)) for _ in range(2)]
  pr = c.pick([(.25, .75), (.2, .3), (1.0, 0.0)][:3 if TH else 2])
  if not c.go():
    return
  ex = ([P4[x] for x in i], list(pr), [P4[x] for x in r], lab)
  desc = lambda: "raters %s labels %s predictions %s weights %s" % (r, lab, i, pr)
  a = judge(c, "raters", desc, [ex], [9.0], dict(frequency=1))
  rv = (ex[0], ex[1], ex[2][::-1], ex[3][::-1])
  b = judge(c, "raters", desc, [rv], [9.0], dict(frequency=1))
  if a is not None and b is not None and abs(float(a["rater_feedback_score"][0]) - float(b["rater_feedback_score"][0])) > 1e-9:
    c.fail("raters:order", desc())
  c.sample(desc)


def batches(c):
  """Examples of a batch do not influence each other."""
  exs, sp = [], []
  for _ in range(3 if TH else 2):
    k = 1 + c.choose(3)
    r = c.choose(len(P4))
    i = c.choose(len(P4))
    sp.append(c.pick([0.0, 30.0]))
    lab = c.pick([1, 8])
    exs.append(([P4[i], P4[(i + 2) % 5]], [.5, .5], [P4[(r + j) % 5] for j in range(k)], [lab + j for j in range(k)]))
  if not c.go():
    return
  judge(c, "batches", lambda: "speeds %s rater counts %s labels %s predictions %s" % (sp, [len(e[2]) for e in exs], [e[3] for e in exs], [e[0] for e in exs]), exs, sp, dict(frequency=1))
  c.sample(lambda: "speeds %s rater counts %s" % (sp, [len(e[2]) for e in exs]))


def settings(c):
  """Speed, discount, floor and allowed-distance settings; labels as whole or fractional numbers."""
  speed = c.pick([-1.0, 0.0, 1.4, 1.5, 6.2, 10.9, 11.0, 50.0])
  decay = c.pick([.1, .5, 1.0])
  floor = c.pick([0.0, 4.0, 9.5])
  mult = c.pick([(1.0, 4.0), (1.0, 1.0), (3.0, .25)])
  lab = c.pick([0, 2.5, 6, 10])
  dev = [c.pick([(0.0, 0.0), (.31, .2), (1.1, -.7), (-6.1, 2.3), (40.0, 0.0)]) for _ in range(2)]
  if not c.go():
    return
  t = line(5, (1.2, .9))
  desc = lambda: "speed %g decay %g floor %g multipliers %s label %g deviations %s" % (speed, decay, floor, mult, lab, dev)
  judge(c, "settings", desc, [([off(t, (2, 4), dev)], [1.0], [t], [lab])], [speed], dict(frequency=1, decay_factor=decay, minimum_score_outside_trust_region=floor, lat_lng_threshold_multipliers=mult))
  c.sample(desc)


def thresholds(c):
  n = 1 + c.choose(3)
  sp = [c.pick([0.0, 1.4, 3.8, 6.2, 11.0, 12.0]) for _ in range(n)]
  mult = (c.pick([.5, 1.0, 2.0]), c.pick([1.0, 4.0]))
  if not c.go():
    return
  lat, lng = ru.get_lat_lng_thresholds(np.array(sp), mult)
  c.step()
  if lat.shape != (n, 2) or lng.shape != (n, 2):
    c.fail("thresholds:shape", "%s %s" % (lat.shape, lng.shape))
  else:
    for b in range(n):
      for k in range(2):
        if abs(lat[b, k] - BASE[k] * mult[0] * scale(sp[b])) > 1e-9 or abs(lng[b, k] - BASE[k] * mult[1] * scale(sp[b])) > 1e-9:
          c.fail("thresholds:value", "speeds %s multipliers %s: across %s along %s" % (sp, mult, lat.tolist(), lng.tolist()))
  c.outcome("ok")
  c.state((sp, mult))
  c.sample(lambda: "speeds %s multipliers %s" % (sp, mult))


def invalid(c):
  """Inconsistent numbers of raters, labels or steps are rejected."""
  kind = c.choose(4)
  a, b = 1 + c.choose(4), 1 + c.choose(4)
  if not c.go():
    return
  pred, t = np.array([[line(5)]]), np.array(line(5))
  kw = dict(frequency=1)
  rs, ls = [[t]], [np.array([5])]
  expect = a != b
  if kind == 0:
    rs, ls = [[t]] * a, [np.array([5])] * b
    pred = np.array([[line(5)]] * a)
  elif kind == 1:
    rs, ls = [[t] * a], [np.array([5] * b)]
  elif kind == 2:
    pred = np.array([[line(a)]])
    kw["length_seconds"] = b
    expect = a != b or a < 5
  else:
    pred, kw["length_seconds"] = np.array([[line(4 + a)]]), 4 + b
  try:
    ru.get_rater_feedback_score(pred, np.ones((len(pred), 1)), rs, ls, np.array([3.0] * len(pred)), **kw)
    if expect:
      c.fail("invalid:accepted", "kind %d sizes %d and %d" % (kind, a, b))
    c.outcome("accepted")
  except ValueError as e:
    if not expect:
      c.fail("invalid:rejected", "kind %d sizes %d and %d: %s" % (kind, a, b, e))
    c.outcome("rejected")
  c.step()
  c.state((kind, a, b))
  c.sample(lambda: "kind %d sizes %d and %d" % (kind, a, b))


def bend(n, dt, v, w, a, y0=0.0):
  """A curved path of n steps of dt seconds: speed v + a t, turning by w per second."""
  out, x, y, h = [], 0.0, y0, 0.0
  for i in range(n):
    s = max(0.0, v + a * i * dt)
    h += w * dt
    x, y = x + s * dt * math.cos(h), y + s * dt * math.sin(h)
    out.append((x, y))
  return out


def crowd(c):
  """Batches of real size: many examples, predictions and raters of different numbers and lengths at real frequencies."""
  nb = c.pick([8, 40] if not TH else [8, 40, 130])
  npred = c.pick([1, 6, 33])
  nr = c.pick([1, 3, 9])
  freq, secs = c.pick([(4, 5), (10, 5), (10, 8)])
  count = c.pick([3, 8])
  mix = c.choose(3)
  if not c.go():
    return
  n = secs * freq
  batch, speed = [], []
  for b in range(nb):
    speed.append([0.0, 1.0, 4.3, 7.7, 12.0, 30.0][(b + mix) % 6])
    q = [1.0 + (7 * j + b) % 5 for j in range(npred)]
    preds = [bend(n, 1.0 / freq, 2.0 + (b + 3 * j) % 7, .04 * ((j + b) % 9 - 4), .2 * ((j * 5 + b) % 5 - 2)) for j in range(npred)]
    k = 1 + (b * 5 + mix) % nr
    rt = [bend([n, n + 3, n - 2, freq][(b + i) % 4] if mix else n, 1.0 / freq, 2.5 + (b + 2 * i) % 6, .05 * ((i * 3 + b) % 7 - 3), .25 * ((i + b) % 3 - 1), .1 * i) for i in range(k)]
    lb = [(3 * i + b * (1 + mix)) % 11 for i in range(k)]
    batch.append((preds, [v / sum(q) for v in q], rt, lb))
  desc = lambda: "%d examples of %d predictions, up to %d raters, %d s at %d Hz, %d kept, mix %d" % (nb, npred, nr, secs, freq, count, mix)
  judge(c, "crowd", desc, batch, speed, dict(frequency=freq, length_seconds=secs, default_num_of_rater_specified_trajectories=count))
  c.sample(desc)


def kinds(c):
  """Single and double precision, whole numbers, lists and arrays, any memory order."""
  dt = [c.pick([np.float64, np.float32]) for _ in range(2)]
  sdt = c.pick([np.float64, np.float32, np.int64])
  rdt = c.pick([np.float64, np.float32, np.int64])
  ldt = c.pick([np.int64, np.float32, np.float64, np.uint8])
  form = c.choose(3)        # lists of arrays, one array per example, one array of everything
  n = 1 + c.choose(4)
  if not c.go():
    return
  batch = []
  for b in range(3):
    rt = [line(5, (2 + i, -i + b)) for i in range(n)]
    batch.append(([off(line(5, (2 + i, b - i)), (2, 4), [(.5, .25), (-1.25, .5 * b)]) for i in range(3)], [.5, .25, .25], rt, [(3 * i + 2 * b) % 11 for i in range(n)]))
  rform = [lambda x: [[np.array(t, rdt) for t in e] for e in x], lambda x: [np.array(e, rdt) for e in x], lambda x: np.array(x, rdt)][form]
  lform = lambda x: np.array(x, ldt) if form == 2 else [np.array(e, ldt) for e in x]
  desc = lambda: "predictions %s probabilities %s speeds %s raters %s labels %s form %d, %d raters" % (dt[0].__name__, dt[1].__name__, sdt.__name__, rdt.__name__, ldt.__name__, form, n)
  judge(c, "kinds", desc, batch, [3, 7, 20], dict(frequency=1), rform, lform, dt=(dt[0], dt[1], sdt), tol=1e-4)
  c.sample(desc)


m.family("offsets", "one prediction, one rater: offsets^4 along/across at 3 s and 5 s, 3 directions, 3 speeds, 2 allowed-distance settings", offsets)
m.family("paths", "all rater paths of five steps over 4 (thorough 5) movements, standing and creeping included, x 5 deviations, with the reported trust regions", paths)
m.family("lengths", "frequencies 1/2/4, 5-6 s, 1-4 raters of all lengths, 1-3 kept", lengths)
m.family("raters", "three raters over 4 (thorough 5) paths, labels^3, two predictions over 5 paths, 2-3 weightings, reversed order", raters)
m.family("batches", "all batches of 2 (thorough 3) examples over raters, counts, labels, speeds, predictions", batches)
m.family("settings", "speeds x discounts x floors x allowed distances x labels x deviations^2", settings)
m.family("thresholds", "1-3 speeds x multipliers", thresholds)
m.family("rejections", "all small mismatches of counts and lengths", invalid)
m.family("crowd", "8 / 40 (thorough 130) examples x 1 / 6 / 33 predictions x up to 1 / 3 / 9 raters, 4 and 10 Hz, 5 and 8 s, 3 / 8 kept, 3 mixes of speeds and lengths", crowd)
m.family("kinds", "single and double precision and whole numbers for predictions, probabilities, speeds, raters, labels x lists and arrays x 1-4 raters", kinds)
raise SystemExit(m.run())

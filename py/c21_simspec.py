"""C21: sim agents submissions: which objects, what is a valid submission, what the metrics see."""
import itertools
import os
import sys

import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcpy
import tensorflow as tf
from waymo_open_dataset.protos import scenario_pb2
from waymo_open_dataset.protos import sim_agents_submission_pb2 as sub
from waymo_open_dataset.utils import trajectory_utils as tu
from waymo_open_dataset.utils.sim_agents import converters
from waymo_open_dataset.utils.sim_agents import submission_specs as ss

CH = [ss.ChallengeType.SIM_AGENTS, ss.ChallengeType.SCENARIO_GEN]
STEPS = {CH[0]: 80, CH[1]: 91}
NOW, ROLL, TOTAL = 10, 32, 91
FIELDS = ('center_x', 'center_y', 'center_z', 'heading')
DIMS = ('length', 'width', 'height')


def val(track, step, k):
  """A value (exact in float32) that names its track, step and field."""
  return float(track * 1024 + step * 8 + k + 0.5)


def scenario(ids, valid, sdc=0, predict=(), types=None, full=True, steps=TOTAL):
  """valid: per track, a function of the step."""
  s = scenario_pb2.Scenario(scenario_id='abc', current_time_index=NOW, sdc_track_index=sdc)
  for t, i in enumerate(ids):
    tr = s.tracks.add(id=i, object_type=(types or [1, 2, 3, 4, 1])[t])
    for k in range(steps):
      st = tr.states.add(valid=bool(valid[t](k)))
      if full:
        for j, f in enumerate(FIELDS + DIMS):
          setattr(st, f, val(t, k, j))
  for p in predict:
    s.tracks_to_predict.add(track_index=p)
  return s


def traj(oid, lens):
  t = sub.SimulatedTrajectory(object_id=oid)
  for f, n in zip(FIELDS, lens):
    getattr(t, f).extend([0.25] * n)
  return t


PATTERNS = [lambda k: True, lambda k: k == NOW, lambda k: k != NOW, lambda k: k < NOW, lambda k: k > NOW, lambda k: False,
            lambda k: k <= NOW]
NOWVALID = [True, True, False, False, False, False, True]
IDSETS = [[7, 3, 12], [0, 1, 2], [2, 1, 0], [40000, 5, 17]]
_cache = {}


def cached(key, make):
  if key not in _cache:
    _cache[key] = make()
  return _cache[key]


def scen(ids, pats, **k):
  return cached((tuple(ids), tuple(pats), repr(k)), lambda: scenario(ids, [PATTERNS[p] for p in pats], **k))


def expect(c, what, fn, ok):
  """ok: True = must pass, False = must raise ValueError."""
  try:
    fn()
    got = True
  except ValueError:
    got = False
  if got != ok:
    c.fail('accept' if got else 'reject', '%s: %s, should be %s' % (what, 'accepted' if got else 'rejected', 'accepted' if ok else 'rejected'))
  c.outcome('accepted' if ok else 'rejected')


def scene_case(c, ch, ids, pats, trs, what):
  """trs: [(object id, lens)]."""
  n = STEPS[ch]
  sims = [i for i, p in zip(ids, pats) if NOWVALID[p]]
  ok = all(all(x == n for x in lens) and i in sims for i, lens in trs) and set(sims) <= {i for i, _ in trs}
  js = sub.JointScene(simulated_trajectories=[traj(i, lens) for i, lens in trs])
  expect(c, what, lambda: ss.validate_joint_scene(js, scen(ids, pats, full=False), ch), ok)
  return js, ok


def fam_scene(c):
  """Every validity pattern, every subset of submitted objects, in two orders; one object may be foreign."""
  ch = c.pick(CH)
  ids = c.pick(IDSETS[:2])
  npat = len(PATTERNS) if m.thorough() else 4
  pats = [c.choose(npat) for _ in range(3)]
  subset = [i for i in ids if c.flip()]
  foreign = c.pick([None, 99, -1] if ids[0] == 7 else [None])
  rev = c.flip()
  dup = c.choose(len(subset) + 1)
  if not c.go():
    return
  n = STEPS[ch]
  # An object given twice does not make up for one that is missing; a complete scene with a repeated object is not judged.
  if dup and set(subset) >= {i for i, p in zip(ids, pats) if NOWVALID[p]}:
    return
  trs = [(i, (n,) * 4) for i in subset + ([subset[dup - 1]] if dup else [])] + ([(foreign, (n,) * 4)] if foreign is not None else [])
  if rev:
    trs.reverse()
  c.state((ch.value, ids, pats, subset, foreign, rev, dup))
  c.sample(lambda: '%s ids %s patterns %s submitted %s' % (ch, ids, pats, trs))
  scene_case(c, ch, ids, pats, trs, '%s scenario ids %s validity patterns %s, submitted ids %s' % (ch.value, ids, pats, [i for i, _ in trs]))


def fam_lengths(c):
  """All single and pairwise wrong lengths over two objects' fields."""
  ch = c.pick(CH)
  n = STEPS[ch]
  alt = [n - 1, n + 1, 0, 80 + 91 - n, 1]
  cells = [(t, f) for t in range(2) for f in range(4)]
  a = c.choose(len(cells) + 1)
  lens = [[n] * 4, [n] * 4]
  if a:
    va = c.pick(alt)
    b = c.choose(a)  # 0: only one deviation
    lens[cells[a - 1][0]][cells[a - 1][1]] = va
    if b:
      vb = c.pick(alt)
      lens[cells[b - 1][0]][cells[b - 1][1]] = vb
  if not c.go():
    return
  c.state((ch.value, lens))
  c.sample(lambda: '%s lengths %s' % (ch, lens))
  scene_case(c, ch, IDSETS[0], [0, 1, 3], [(7, lens[0]), (3, lens[1])], '%s lengths %s' % (ch.value, lens))


def fam_rollouts(c):
  """Number of scenes; the scenario id; which scene is wrong and how."""
  ch = c.pick(CH)
  n = STEPS[ch]
  sid = c.pick(['abc', None])
  count = c.pick([ROLL, 0, 1, ROLL - 1, ROLL + 1, 2 * ROLL])
  bad = c.pick(['none', 'missing', 'foreign', 'short', 'invalid-now', 'empty'])
  where = c.pick([0, 1, 15, 30, 31])
  default = ch is CH[0] and c.flip()  # the default challenge type
  if (bad == 'none' and where) or (bad != 'none' and where >= count):
    return
  if not c.go():
    return
  good = [traj(7, [n] * 4), traj(12, [n] * 4)]
  trs = {'none': good, 'missing': good[:1], 'foreign': good + [traj(8, [n] * 4)], 'short': [good[0], traj(12, [n, n, n, n - 1])],
         'invalid-now': good + [traj(3, [n] * 4)], 'empty': []}[bad]
  r = sub.ScenarioRollouts(scenario_id=sid)
  g, b = sub.JointScene(simulated_trajectories=good), sub.JointScene(simulated_trajectories=trs)
  for k in range(count):
    r.joint_scenes.append(b if k == where else g)
  ok = sid is not None and count == ROLL and bad == 'none'
  c.state((ch.value, sid, count, bad, where, default))
  c.sample(lambda: '%s scenes %d id %r, scene %d is %s' % (ch, count, sid, where, bad))
  s = scen(IDSETS[0], [0, 2, 6], full=False)
  expect(c, '%s: %d scenes, scenario id %r, scene %d has defect %r' % (ch.value, count, sid, where, bad),
         lambda: ss.validate_scenario_rollouts(r, s) if default else ss.validate_scenario_rollouts(r, s, ch), ok)


def fam_ids(c):
  """Which objects are simulated and which are evaluated."""
  ch = c.pick(CH)
  ids = c.pick(IDSETS)
  pats = [c.choose(3) for _ in range(3)]
  sdc = c.choose(3)
  pl = c.choose(4)
  predict = [c.choose(3) for _ in range(pl)]
  if not c.go():
    return
  pats = [(0, 2, 6)[p] for p in pats]
  s = scen(ids, pats, sdc=sdc, predict=tuple(predict), full=False)
  sims = [i for i, p in zip(ids, pats) if NOWVALID[p]]
  got = list(ss.get_sim_agent_ids(s, ch))
  what = '%s ids %s patterns %s sdc %d predict %s' % (ch.value, ids, pats, sdc, predict)
  if sorted(got) != sorted(sims):
    c.fail('sim-agents', '%s: sim agents %s, expected %s' % (what, got, sims))
  ev = list(ss.get_evaluation_sim_agent_ids(s, ch))
  want = sorted({ids[sdc]} | {ids[p] for p in predict}) if ch is CH[0] else sims
  if sorted(ev) != sorted(want):
    c.fail('eval-agents', '%s: evaluated %s, expected %s' % (what, ev, want))
  for t in range(3):
    cfg = ss.get_submission_config(ch)
    if bool(cfg.is_valid_sim_agent(s.tracks[t])) != NOWVALID[pats[t]]:
      c.fail('valid-agent', what)
  c.state(what)
  c.sample(lambda: what + ' -> %s %s' % (got, ev))
  c.outcome('%d simulated, %d evaluated' % (len(sims), len(want)))


ALL = ('x', 'y', 'z', 'heading', 'length', 'width', 'height')


def check_traj(c, key, what, tr, want, ids, types, valid):
  if not want:
    c.step()
    if np.asarray(tr.x).shape[0] or np.asarray(tr.object_id).size:
      c.fail(key, what + ': nothing was selected')
    return None
  """want[row][step] = (x, y, z, heading, length, width, height)."""
  n = len(want)
  steps = len(want[0]) if n else 0
  w = np.asarray(want, np.float32).reshape(n, steps, 7)
  for k, f in enumerate(ALL):
    g = np.asarray(getattr(tr, f))
    if g.shape != (n, steps) or not np.array_equal(g, w[:, :, k]):
      bad = np.argwhere(g != w[:, :, k])[:1].tolist() if g.shape == (n, steps) else g.shape
      return c.fail(key, '%s: %s differs at %s' % (what, f, bad))
  if np.asarray(tr.object_id).tolist() != list(ids):
    return c.fail(key, '%s: object ids %s, expected %s' % (what, np.asarray(tr.object_id).tolist(), list(ids)))
  if np.asarray(tr.object_type).tolist() != list(types):
    return c.fail(key, '%s: object types %s, expected %s' % (what, np.asarray(tr.object_type).tolist(), list(types)))
  v = np.asarray(tr.valid)
  if v.dtype != bool or v.shape != (n, steps) or v.tolist() != valid:
    return c.fail(key, '%s: validity differs (first row %s)' % (what, v[:1].astype(int).tolist()))


def full_rows(order, lo=0, hi=TOTAL):
  return [[[val(t, k, j) for j in range(7)] for k in range(lo, hi)] for t in order]


def valid_rows(pats, order, lo=0, hi=TOTAL):
  return [[bool(PATTERNS[pats[t]](k)) for k in range(lo, hi)] for t in order]


TYPES = [1, 2, 3, 4, 1]


def fam_trajectories(c):
  """from_scenario, slice_time, gather_objects, gather_objects_by_id."""
  ids = c.pick(IDSETS)
  pats = [c.choose(4) for _ in range(3)] if m.thorough() else c.pick([[0, 0, 0], [1, 2, 3], [3, 0, 5]])
  op = c.pick(['none', 'slice', 'gather', 'ids', 'ids-slice'])
  lo, hi = 0, None
  sel = [0, 1, 2]
  if 'slice' in op:
    lo = c.pick([0, 1, 10, 11, 90, -1])
    hi = c.pick([None, 0, 11, 91, -1])
  if op == 'gather' or 'ids' in op:
    n = c.choose(4 if m.thorough() or op == 'ids' else 3)
    sel = [c.choose(4) for _ in range(n)]
  if not c.go():
    return
  tr = tu.ObjectTrajectories.from_scenario(scen(ids, pats))
  missing = False
  try:
    if 'ids' in op:
      tr = tr.gather_objects_by_id(tf.constant([(ids + [77])[i] for i in sel], dtype=tf.int32))
    elif op == 'gather':
      tr = tr.gather_objects(tf.constant(sel, dtype=tf.int32))
    if 'slice' in op:
      tr = tr.slice_time(lo, hi)
  except (ValueError, tf.errors.InvalidArgumentError) as e:
    missing = True
    if 3 not in sel:
      c.fail('gather', 'ids %s select %s: %s' % (ids, sel, e))
  if 3 in sel and not missing:
    c.fail('gather', 'ids %s: selecting the absent object among %s was not refused' % (ids, sel))
  what = 'ids %s patterns %s %s slice %s:%s select %s' % (ids, pats, op, lo, hi, sel)
  c.state(what)
  c.sample(lambda: what)
  c.outcome('refused' if missing else op)
  if not missing and 3 not in sel:
    rg = range(TOTAL)[lo:hi]
    check_traj(c, 'trajectories', what, tr, [[[val(t, k, j) for j in range(7)] for k in rg] for t in sel], [ids[t] for t in sel],
               [TYPES[t] for t in sel], [[bool(PATTERNS[pats[t]](k)) for k in rg] for t in sel])


def fam_repeat(c):
  """An id that occurs twice among the objects cannot be selected."""
  a, b, d = c.choose(3), c.choose(3), c.choose(3)
  want = [c.choose(3) for _ in range(c.choose(3) + 1)]
  if not c.go():
    return
  ids = [a, b, d]
  tr = tu.ObjectTrajectories.from_scenario(scen(ids, [0, 0, 0], steps=2))
  ok = all(ids.count(w) == 1 for w in want)
  c.state((ids, want))
  c.sample(lambda: '%s select %s' % (ids, want))
  try:
    g = tr.gather_objects_by_id(tf.constant(want, dtype=tf.int32))
    if not ok:
      c.fail('repeat', 'ids %s select %s was not refused' % (ids, want))
    else:
      check_traj(c, 'repeat', 'ids %s select %s' % (ids, want), g, full_rows([ids.index(w) for w in want], 0, 2), want,
                 [TYPES[ids.index(w)] for w in want], [[True] * 2] * len(want))
  except ValueError:
    if ok:
      c.fail('repeat', 'ids %s select %s was refused' % (ids, want))
  c.outcome('selected' if ok else 'refused')


def fam_convert(c):
  """Scenario -> joint scene -> what the metrics see."""
  ch = c.pick(CH)
  ids = c.pick(IDSETS)
  pats = [c.choose(len(PATTERNS)) for _ in range(3)] if m.thorough() else [c.pick([0, 1, 2, 6]) for _ in range(3)]
  steps = c.pick([TOTAL, TOTAL - 1, TOTAL + 1, 11])
  order = c.choose(6)
  logv = c.flip() if ch is CH[0] else False
  shift = c.flip()   # the simulated states differ from the logged ones
  if not any(NOWVALID[p] for p in pats):
    return
  if steps != TOTAL and (order or logv or shift):
    return
  if not c.go():
    return
  s = scen(ids, pats, steps=steps)
  what = '%s ids %s patterns %s steps %d order %d logv %d shift %d' % (ch.value, ids, pats, steps, order, logv, shift)
  c.state(what)
  c.sample(lambda: what)
  try:
    js = converters.scenario_to_joint_scene(s, ch)
    if steps != TOTAL:
      c.fail('convert', what + ': the wrong number of steps was not refused')
      return
  except ValueError as e:
    c.outcome('refused')
    if steps == TOTAL:
      c.fail('convert', what + ': ' + str(e)[:200])
    return
  lo = NOW + 1 if ch is CH[0] else 0
  sims = [t for t in range(3) if NOWVALID[pats[t]]]
  got = {t.object_id: t for t in js.simulated_trajectories}
  if sorted(got) != sorted(ids[t] for t in sims) or len(js.simulated_trajectories) != len(sims):
    c.fail('convert', '%s: objects %s' % (what, sorted(got)))
    return
  for t in sims:
    p = got[ids[t]]
    for j, f in enumerate(FIELDS + DIMS):
      if list(getattr(p, f)) != [val(t, k, j) for k in range(lo, TOTAL)]:
        c.fail('convert', '%s: %s of object %d differs' % (what, f, ids[t]))
        return
    if list(p.valid) != valid_rows(pats, [t], lo)[0] or p.object_type != TYPES[t]:
      c.fail('convert', '%s: validity or type of object %d differs' % (what, ids[t]))
      return
  expect(c, what, lambda: ss.validate_joint_scene(js, s, ch), True)
  perm = list(itertools.permutations(range(len(sims))))
  pm = perm[order % len(perm)]
  rows = [sims[i] for i in pm]
  d = 0.0
  js2 = sub.JointScene(simulated_trajectories=[got[ids[t]] for t in rows])
  if shift:
    d = 4096.0
    for p in js2.simulated_trajectories:
      for f in FIELDS:
        v = [x + d for x in getattr(p, f)]
        del getattr(p, f)[:]
        getattr(p, f).extend(v)
  want = []
  for t in rows:
    r = []
    for k in range(TOTAL):
      x = [val(t, k, j) + (d if j < 4 and k >= lo else 0) for j in range(7)]
      if ch is CH[0] and k > NOW:
        x[4:] = [val(t, NOW, j) for j in (4, 5, 6)]
      r.append(x)
    want.append(r)
  if ch is CH[0]:
    tr = converters.joint_scene_to_trajectories(js2, s, use_log_validity=True) if logv else converters.joint_scene_to_trajectories(js2, s)
    valid = [[bool(PATTERNS[pats[t]](k)) if k <= NOW or logv else True for k in range(TOTAL)] for t in rows]
  else:
    tr = converters.simulated_scenariogen_to_trajectories(js2, s, ch)
    valid = [[NOWVALID[pats[t]]] * TOTAL for t in rows]
  check_traj(c, 'trajectories', what, tr, want, [ids[t] for t in rows], [TYPES[t] for t in rows], valid)


def fam_crowd(c):
  """Scenarios of up to 128 objects: ids in any order, most of them unseen now."""
  ch = c.pick(CH)
  n = c.pick([20, 128])
  every = c.pick([1, 2, 5])
  ids = c.pick([[5 + i for i in range(n)], [100000 - 37 * i for i in range(n)], [(i * 77 + 3) % 1009 for i in range(n)]])
  sdc = c.pick([0, 1, n // 2, n - 1])
  npred = c.pick([0, 1, 8])
  order = c.choose(3)
  defect = c.choose(4)
  if not m.thorough() and (n == 128 and (every + sdc + npred + order + (ids[0] == 5)) % 4 or (every + npred + order + defect) % 2):
    return
  if not c.go():
    return
  c.step()
  pats = [0 if i == sdc else (0 if i % (2 * every) == 0 else 1) if i % every == 0 else 2 + i % 4 for i in range(n)]
  predict = tuple(i for i in range(0, n, every))[-npred:] if npred else ()
  what = '%s %d objects, ids from %d, one of %d valid, sdc %d, predict %s, order %d, defect %d' % (ch.value, n, ids[0], every, sdc, predict, order, defect)
  c.state(what)
  c.sample(lambda: what)
  kinds = [[1, 2, 3, 4][i % 4] for i in range(n)]
  s = scenario(ids, [PATTERNS[p] for p in pats], sdc=sdc, predict=predict, types=kinds, full=n < 100)
  live = [t for t in range(n) if NOWVALID[pats[t]]]
  sims = [ids[t] for t in live]
  c.outcome('%d simulated' % len(sims))
  got = list(ss.get_sim_agent_ids(s, ch))
  if sorted(got) != sorted(sims):
    c.fail('sim-agents', '%s: sim agents %s, expected %s' % (what, got, sims))
  ev = list(ss.get_evaluation_sim_agent_ids(s, ch))
  want = sorted({ids[sdc]} | {ids[p] for p in predict}) if ch is CH[0] else sorted(sims)
  if sorted(ev) != want:
    c.fail('eval-agents', '%s: evaluated %s, expected %s' % (what, ev, want))
  js = converters.scenario_to_joint_scene(s, ch)
  lo = NOW + 1 if ch is CH[0] else 0
  trs = {t.object_id: t for t in js.simulated_trajectories}
  if sorted(trs) != sorted(sims) or len(js.simulated_trajectories) != len(sims):
    c.fail('convert', '%s: objects %s' % (what, sorted(trs)))
    return
  if n < 100:
    for t in live:
      for j, f in enumerate(FIELDS):
        if list(getattr(trs[ids[t]], f)) != [val(t, k, j) for k in range(lo, TOTAL)]:
          c.fail('convert', '%s: %s of object %d differs' % (what, f, ids[t]))
          return
  rows = [live, live[::-1], live[len(live) // 2:] + live[:len(live) // 2]][order]
  js2 = sub.JointScene(simulated_trajectories=[trs[ids[t]] for t in rows])
  expect(c, what, lambda: ss.validate_joint_scene(js2, s, ch), True)
  if ch is CH[0]:
    tr = converters.joint_scene_to_trajectories(js2, s)
    valid = [[bool(PATTERNS[pats[t]](k)) if k <= NOW else True for k in range(TOTAL)] for t in rows]
  else:
    tr = converters.simulated_scenariogen_to_trajectories(js2, s, ch)
    valid = [[True] * TOTAL for t in rows]
  if n < 100:
    w = []
    for t in rows:
      r = []
      for k in range(TOTAL):
        x = [val(t, k, j) for j in range(7)]
        if ch is CH[0] and k > NOW:
          x[4:] = [val(t, NOW, j) for j in (4, 5, 6)]
        r.append(x)
      w.append(r)
    check_traj(c, 'trajectories', what, tr, w, [ids[t] for t in rows], [kinds[t] for t in rows], valid)
  elif np.asarray(tr.object_id).tolist() != [ids[t] for t in rows] or np.asarray(tr.valid).tolist() != valid or np.asarray(tr.object_type).tolist() != [kinds[t] for t in rows]:
    c.fail('trajectories', what + ': ids, types or validity differ')
  if not defect:
    return
  # One object of many is foreign, missing or short.
  at = [0, len(rows) // 2, len(rows) - 1][defect - 1]
  for kind in ('foreign', 'missing', 'short', 'unseen'):
    bad = list(js2.simulated_trajectories)
    if kind == 'missing':
      bad = bad[:at] + bad[at + 1:]
    else:
      b = sub.SimulatedTrajectory()
      b.CopyFrom(bad[at])
      if kind == 'short':
        b.center_z.pop()
        bad[at] = b
      else:
        off = [i for t, i in enumerate(ids) if t not in live]
        if kind == 'unseen' and not off:
          continue
        b.object_id = off[len(off) // 2] if kind == 'unseen' else 7777777
        bad.insert(at, b)
    expect(c, '%s: object %d %s' % (what, at, kind), lambda: ss.validate_joint_scene(sub.JointScene(simulated_trajectories=bad), s, ch), False)


m = mcpy.Main()
m.family('scenes', '3 objects x 4 validity patterns (thorough 7) x every submitted subset, foreign ids, two orders, both challenges', fam_scene)
m.family('lengths', 'every single and pairwise wrong length over 2 objects x 4 fields x 5 wrong lengths', fam_lengths)
m.family('rollouts', '6 scene counts x 6 defects x 5 scene positions x scenario id set or not', fam_rollouts)
m.family('agents', '4 id sets x 27 validity patterns x 3 AV indices x all prediction lists up to length 3', fam_ids)
m.family('trajectories', 'every selection of up to 3 of 4 (one absent) objects; 30 time slices; 4 id sets x 3 (thorough 64) patterns', fam_trajectories)
m.family('repeated-ids', '27 id triples x every selection up to length 3', fam_repeat)
m.family('convert', '4 id sets x 64 (thorough 343) validity patterns x orders x log validity x changed states; wrong step counts', fam_convert)
m.family('crowd', '20 and 128 objects x id orders x validity x AV places x predictions x orders x defects at three places', fam_crowd)
raise SystemExit(m.run())

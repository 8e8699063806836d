"""C07 (names): the Python breakdown names equal the native ones, for every configuration within the bound."""
import subprocess
import mcpy
import wodbuild
from waymo_open_dataset.metrics.python import config_util_py as cu
from waymo_open_dataset.protos import breakdown_pb2, metrics_pb2, motion_metrics_pb2

m = mcpy.Main()
exe = wodbuild.build_cc("dump_names")
GENS = ["ONE_SHARD", "OBJECT_TYPE", "RANGE", "VELOCITY", "ALL_BUT_SIGN", "SIZE", "CAMERA"]
DIFF = [[], [1], [2], [1, 2], [2, 1]]
STEPS = [0, 3, 5, 9, 15]


class Native:
  """The native library behind a pipe (one process per worker)."""
  def __init__(self):
    self.p = None

  def ask(self, kind, msg):
    if self.p is None:
      self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    self.p.stdin.write("%s %s\n" % (kind, msg.SerializeToString().hex()))
    self.p.stdin.flush()
    return self.p.stdout.readline().rstrip("\n").split("|")[:-1]


native = Native()


def names(c):
  n = c.choose(4 if m.thorough() else 3)
  g, d = [], []
  for _ in range(n):
    g.append(c.pick(GENS))
    d.append(c.pick(DIFF))
  if not c.go():
    return
  cfg = metrics_pb2.Config()
  for x, l in zip(g, d):
    cfg.breakdown_generator_ids.append(breakdown_pb2.Breakdown.GeneratorId.Value(x))
    cfg.difficulties.add().levels.extend(l)
  py = list(cu.get_breakdown_names_from_config(cfg))
  cc = native.ask("d", cfg)
  c.step(2)
  if py != cc:
    c.fail("names-differ", "%s %s: python %s native %s" % (g, d, py, cc))
  if len(set(g)) == n and len(set(py)) != len(py):
    c.fail("duplicate-name", "%s %s: %s" % (g, d, py))
  c.state((g, d))
  c.outcome("%d names" % len(py))
  c.sample(lambda: "%s %s -> %d names, first %s" % (g, d, len(py), py[:1]))


def motion(c):
  n = c.choose(5)
  st = [c.pick(STEPS) for _ in range(n)]
  if not c.go():
    return
  cfg = motion_metrics_pb2.MotionMetricsConfig()
  for s in st:
    cfg.step_configurations.add().measurement_step = s
  py = list(cu.get_breakdown_names_from_motion_config(cfg))
  cc = native.ask("m", cfg)
  want = ["TYPE_%s_%d" % (t, s) for t in ("VEHICLE", "PEDESTRIAN", "CYCLIST") for s in st]
  c.step(2)
  if py != cc or py != want:
    c.fail("motion-names-differ", "%s: python %s native %s" % (st, py, cc))
  c.state(st)
  c.sample(lambda: "%s -> %s" % (st, py[:3]))


m.family("detection names", "every list of 0..2 (thorough 3) generators x 5 difficulty lists, Python against the native library", names)
m.family("motion names", "every list of 0..4 measurement steps over 5 values, Python against the native library", motion)
raise SystemExit(m.run())

"""Bounded exhaustive explorer for the Python harnesses (mc.h's counterpart).

A family is a body that builds one execution from c.choose(n) calls; every
choice sequence is executed, dealt to forked workers.  An uncaught exception or
a hang is a violation carrying its choice sequence."""
import hashlib
import json
import os
import pickle
import re
import signal
import sys
import traceback


class _Stall(BaseException):
  pass


class Ctx:
  def __init__(self, main, fam, worker, n):
    self.main, self.fam, self.worker, self.n = main, fam, worker, n
    self.choice, self.arity, self.pos = [], [], 0
    self.leaf = 0
    self.replaying = False

  def choose(self, n):
    if self.pos < len(self.choice):
      if self.arity[self.pos] == 0:
        self.arity[self.pos] = n
      if self.arity[self.pos] != n or self.choice[self.pos] >= n:
        raise SystemExit("mcpy: divergence while replaying a prefix")
      self.pos += 1
      return self.choice[self.pos - 1]
    self.choice.append(0)
    self.arity.append(n)
    self.pos += 1
    return 0

  def pick(self, seq):
    return seq[self.choose(len(seq))]

  def flip(self):
    return self.choose(2) == 1

  def go(self):
    st = self.main.st
    if self.replaying:
      return True
    st["leaves"] += 1
    idx = self.leaf
    self.leaf += 1
    if (idx * 2654435761 >> 7) % self.n != self.worker:
      return False
    st["traces"] += 1
    return True

  def step(self, n=1):
    self.main.st["steps"] += n

  def state(self, s):
    st = self.main.st["states"]
    if len(st) < 3000000:
      st.add(int.from_bytes(hashlib.blake2b(repr(s).encode(), digest_size=8).digest(), "big"))

  def outcome(self, s):
    o = self.main.st["outcomes"]
    k = self.fam + ": " + s
    o[k] = o.get(k, 0) + 1

  def fail(self, key, msg):
    st = self.main.st
    st["nviol"] += 1
    if self.replaying:
      print("FAIL %s: %s" % (key, msg))
    if sum(v["key"] == key for v in st["violations"]) < 2 and len(st["violations"]) < 40:
      st["violations"].append(dict(key=key, family=self.fam, msg=str(msg)[:3000], choices=list(self.choice[:self.pos])))

  def sample(self, f):
    st = self.main.st
    if self.replaying:
      print("CASE %s: %s" % (self.fam, f()))
    elif not any(s.startswith(self.fam + ": ") for s in st["samples"]):
      st["samples"].append((self.fam + ": " + f())[:1500])

  def _next(self):
    while self.choice:
      if self.pos < len(self.choice):
        del self.choice[self.pos:], self.arity[self.pos:]
      if not self.choice:
        return False
      if self.choice[-1] + 1 < self.arity[-1]:
        self.choice[-1] += 1
        self.pos = 0
        return True
      self.choice.pop()
      self.arity.pop()
      self.pos = len(self.choice)
    return False


def is_shim_missing(e):
  """True for an operation (or keyword argument) the stand-in libraries lack."""
  if type(e).__name__ == "ShimMissing":
    return True
  m = re.match(r"([\w.<>]+)\(\) got an unexpected keyword argument", str(e)) if type(e) is TypeError else None
  tf = sys.modules.get("tensorflow")
  if not m or tf is None or not hasattr(tf, "ShimMissing"):
    return False
  n = m.group(1).split(".")[-1] if not m.group(1).endswith("__init__") else m.group(1).split(".")[0]
  return any(n in vars(x) or "_" + n in vars(x) for k, x in list(sys.modules.items()) if x and k.split(".")[0] in ("tensorflow", "tensorflow_probability"))


class Main:
  def __init__(self, argv=None):
    self.out, self.replay, self.only, self.th, self.nw, self.stall = "/dev/null", "", "", False, 8, 120
    for a in (argv or sys.argv)[1:]:
      if a.startswith("--out="): self.out = a[6:]
      elif a.startswith("--replay="): self.replay = a[9:]
      elif a.startswith("--only="): self.only = a[7:]
      elif a.startswith("--workers="): self.nw = int(a[10:])
      elif a == "--thorough": self.th = True
    self.fams = []
    self.st = None

  def thorough(self):
    return self.th

  def family(self, name, bound, body):
    if self.only in name:
      self.fams.append((name, bound, body))

  def _fresh(self):
    self.st = dict(leaves=0, steps=0, traces=0, nviol=0, states=set(), outcomes={}, samples=[], violations=[], fam={})

  def _run(self, c, body):
    """Runs one leaf; exceptions are violations."""
    try:
      body(c)
    except (SystemExit, KeyboardInterrupt):
      raise
    except BaseException as e:  # noqa: BLE001
      if is_shim_missing(e):
        c.outcome("not judged: %s" % str(e)[:100])
        return
      tb = traceback.format_exc().strip().splitlines()
      what = "did not finish within %d s" % self.stall if isinstance(e, _Stall) else "%s: %s" % (type(e).__name__, e)
      c.fail(c.fam + ":crash", what + " | " + " / ".join(t.strip() for t in tb[-7:-1]))

  def _worker(self, w, path):
    signal.signal(signal.SIGALRM, self._alarm)
    self._fresh()
    for name, _, body in self.fams:
      c = Ctx(self, name, w, self.nw)
      before = self.st["leaves"]
      k = 0
      while True:
        c.pos = 0
        k += 1
        if k % 16 == 1:
          signal.alarm(self.stall)
        self._run(c, body)
        if not c._next():
          break
      signal.alarm(0)
      self.st["fam"][name] = self.st["leaves"] - before
    with open(path, "wb") as f:
      pickle.dump(self.st, f)

  @staticmethod
  def _alarm(*_):
    raise _Stall()

  def run(self):
    if self.replay:
      return self._replay()
    pids = []
    for w in range(self.nw):
      sys.stdout.flush(); sys.stderr.flush()
      pid = os.fork()
      if pid == 0:
        code = 1
        try:
          if os.environ.get("MCPY_VERBOSE") is None:
            fd = os.open(self.out + ".err%d" % w if self.out != "/dev/null" else "/dev/null", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            os.dup2(fd, 2)
            os.dup2(fd, 1)
          self._worker(w, self.out + ".p%d" % w)
          code = 0
        except SystemExit as e:
          sys.stderr.write("%s\n" % e)
        except BaseException:  # noqa: BLE001
          traceback.print_exc()
        finally:
          sys.stdout.flush(); sys.stderr.flush()
          os._exit(code)
      pids.append(pid)
    bad = [w for w, p in enumerate(pids) if os.waitpid(p, 0)[1] != 0]
    if bad:
      for w in bad:
        try:
          sys.stderr.write(open(self.out + ".err%d" % w).read()[-3000:])
        except OSError:
          pass
      return 2
    tot = dict(leaves=0, states=set(), transitions=0, traces=0, nviolations=0, outcomes={}, families=[], samples=[], violations=[])
    fam = {}
    for w in range(self.nw):
      p = self.out + ".p%d" % w
      st = pickle.load(open(p, "rb"))
      os.unlink(p)
      os.unlink(self.out + ".err%d" % w)
      tot["leaves"] = max(tot["leaves"], st["leaves"])
      tot["transitions"] += st["steps"]
      tot["traces"] += st["traces"]
      tot["nviolations"] += st["nviol"]
      tot["states"] |= st["states"]
      tot["violations"] += st["violations"]
      fam.update(st["fam"])
      for k, n in st["outcomes"].items():
        tot["outcomes"][k] = tot["outcomes"].get(k, 0) + n
      for s in st["samples"]:
        if not any(t.split(": ")[0] == s.split(": ")[0] for t in tot["samples"]):
          tot["samples"].append(s)
    tot["states"] = len(tot["states"])
    tot["families"] = [dict(name=n, bound=b, executions=fam[n]) for n, b, _ in self.fams]
    with open(self.out, "w") as f:
      json.dump(tot, f)
    return 0

  def _replay(self):
    kv = dict(l.rstrip("\n").split("=", 1) for l in open(self.replay) if "=" in l)
    if kv.get("thorough") == "1":
      self.th = True
    self._fresh()
    for name, _, body in self.fams:
      if name == kv["family"]:
        c = Ctx(self, name, 0, 1)
        c.replaying = True
        c.choice = [int(x) for x in kv["choices"].split()]
        c.arity = [0] * len(c.choice)
        self._run(c, body)
        print("REPLAY: violation reproduced" if self.st["nviol"] else "REPLAY: no violation")
        return 1 if self.st["nviol"] else 0
    print("no such family")
    return 2


def near(a, b, tol=1e-6):
  if a != a or b != b:
    return a != a and b != b
  if a in (float("inf"), float("-inf")) or b in (float("inf"), float("-inf")):
    return a == b
  return abs(a - b) <= tol * max(1.0, abs(a), abs(b))

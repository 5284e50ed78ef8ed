"""Driver shared by every check: enumerate, execute, compare, report.

A check module (mc/checks/<id>.py) defines

  TITLE, LEVEL, RULE, ASSUMPTIONS
  cases(tier)        -> iterator of JSON-able case descriptors. The iterator is
                        the stated bounded space: the driver executes all of
                        it, split over worker processes, and never samples.
  run_case(desc, rec)-> executes one descriptor against the real code in /repo
                        and calls rec.* to count what it did and report.

Exit code 0: held on everything explored (listed known findings only print a
KNOWN-FINDING line).  Exit code 1: a VIOLATION line was printed.
"""
import importlib
import itertools
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.json")
EVID = os.path.join(VERIF, "evidence")
CASE_TIMEOUT = 150


class CaseTimeout(BaseException):
  pass


class Violation(Exception):
  """Raised by an oracle: the property does not hold for this execution."""

  def __init__(self, sig, msg, extra=None):
    super().__init__(msg)
    self.sig = sig
    self.msg = msg
    self.extra = extra


class Rec:
  """Per-worker recorder."""

  def __init__(self, prop, tier):
    self.prop = prop
    self.tier = tier
    self.counts = {}
    self.violations = {}
    self.nviol = 0
    self.samples = []
    self.desc = None
    self.distinct = set()
    self.outcomes = {}

  # -- counting ---------------------------------------------------------
  def add(self, key, n=1):
    self.counts[key] = self.counts.get(key, 0) + n

  def state(self, key=None):
    """One distinct state / nontrivial case (deduplicated by key)."""
    if key is None:
      self.add("states")
      return True
    h = hash(key)
    if h in self.distinct:
      return False
    self.distinct.add(h)
    return True

  def step(self, n=1):
    self.add("transitions", n)

  def validated(self, n=1):
    self.add("validated", n)

  def outcome(self, name):
    self.outcomes[name] = self.outcomes.get(name, 0) + 1

  def sample(self, s):
    if len(self.samples) < 3:
      self.samples.append(s)

  # -- reporting --------------------------------------------------------
  def fail(self, sig, msg, trace=None):
    self.nviol += 1
    if sig not in self.violations:
      self.violations[sig] = {
          "sig": sig, "msg": str(msg)[:4000], "desc": self.desc,
          "trace": trace, "count": 1
      }
    else:
      self.violations[sig]["count"] += 1

  def export(self):
    return dict(counts=self.counts, violations=self.violations,
                nviol=self.nviol, samples=self.samples,
                distinct=self.distinct, outcomes=self.outcomes)


PROF = os.environ.get("MC_PROF")
STOP = os.environ.get("MC_STOP")


def _alarm(signum, frame):
  raise CaseTimeout()


def _exec_case(mod, desc, rec):
  rec.desc = desc
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(CASE_TIMEOUT)
  try:
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      mod.run_case(desc, rec)
  except Violation as v:
    rec.fail(v.sig, v.msg, v.extra)
  except CaseTimeout:
    rec.fail("timeout", f"execution did not finish within {CASE_TIMEOUT} s")
  except Exception as e:  # the library raised on a legitimate execution
    tb = traceback.extract_tb(e.__traceback__)
    where = "harness"
    for fr in reversed(tb):
      if fr.filename.startswith(REPO):
        where = os.path.relpath(fr.filename, REPO) + ":" + fr.name
        break
    rec.fail(f"exception:{type(e).__name__}:{where}",
             "".join(traceback.format_exception(e))[-3000:])
  finally:
    signal.alarm(0)


def _import(modname):
  return importlib.import_module("mc.checks." + modname)


def _worker(modname, prop, tier, k, n, deadline, q, claim=None):
  try:
    sys.stdout.flush()
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)  # also for kept references
    mod = _import(modname)
    rec = Rec(prop, tier)
    done = 0
    complete = True
    def take():
      # every case is executed exactly once, by whichever worker is free
      if claim is None:
        return mine + 1
      with claim.get_lock():
        claim.value += 1
        return claim.value - 1

    mine = -1
    mine = take()
    only = os.environ.get("MC_ONLY", "")  # development: part of the space
    for i, desc in enumerate(d for d in mod.cases(tier) if only in repr(d)):
      if i != mine:
        continue
      if time.time() > deadline:
        complete = False
        break
      t0 = time.process_time()
      _exec_case(mod, desc, rec)
      if PROF:
        with open(PROF, "a") as f:
          f.write(f"{time.process_time() - t0:.3f}\t{desc}\n")
      done += 1
      if STOP and rec.violations and claim is not None:  # development: first failure only
        claim.value = 1 << 60
      if done in (1, 50):
        rec.sample(desc)
      mine = take()
    out = rec.export()
    out["done"] = done
    out["complete"] = complete
    q.put((k, out))
  except BaseException:  # harness error
    q.put((k, {"error": traceback.format_exc()}))


def load_known():
  with open(KNOWN) as f:
    return json.load(f)


def replay(modname, prop, path):
  with open(path) as f:
    art = json.load(f)
  mod = _import(modname)
  rec = Rec(prop, "quick")
  _exec_case(mod, art["desc"], rec)
  for sig, v in rec.violations.items():
    print("reproduced:" if sig == art["sig"] else "also:", sig)
    print(v["msg"])
  return 1 if art["sig"] in rec.violations else 0


def main(argv):
  prop = argv[0]
  modname = prop.lower()
  tier = os.environ.get("VERIF_TIER") or "quick"
  if "--thorough" in argv:
    tier = "thorough"
  if tier not in ("quick", "thorough"):
    tier = "quick"
  seed = int(os.environ.get("VERIF_SEED") or 0)
  t0 = time.time()
  mod = _import(modname)
  if "--replay" in argv:
    return replay(modname, prop, argv[argv.index("--replay") + 1])
  nproc = int(os.environ.get("MC_PROCS", "0")) or getattr(mod, "PROCS", 8)
  budget = float(os.environ.get("MC_BUDGET", "0")) or (
      720.0 if tier == "quick" else 6 * 3600.0)
  deadline = t0 + budget
  outs = {}
  if nproc == 1:
    import queue
    q = queue.Queue()
    so = sys.stdout
    _worker(modname, prop, tier, 0, 1, deadline, q)
    sys.stdout = so
    k, o = q.get()
    outs[k] = o
  else:
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    claim = ctx.Value("q", 0)
    procs = [ctx.Process(target=_worker,
                         args=(modname, prop, tier, k, nproc, deadline, q,
                               claim))
             for k in range(nproc)]
    for p in procs:
      p.start()
    while len(outs) < nproc:
      try:
        k, o = q.get(timeout=2.0)
        outs[k] = o
      except Exception:
        for k, p in enumerate(procs):
          if k not in outs and p.exitcode is not None and q.empty():
            time.sleep(0.5)
            if q.empty():
              outs[k] = {"died": p.exitcode}
        if time.time() > deadline + CASE_TIMEOUT + 20:
          for k, p in enumerate(procs):
            if k not in outs:
              outs[k] = {"hung": True}
          break
    for p in procs:
      p.join(timeout=1)
      if p.is_alive():
        p.kill()
  errors = [o["error"] for o in outs.values() if "error" in o]
  if errors:
    print("harness error:\n" + errors[0], file=sys.stderr)
    return 2
  counts, viol, outcomes = {}, {}, {}
  distinct = set()
  samples = []
  complete = True
  done = 0
  nviol = 0
  for k in sorted(outs):
    o = outs[k]
    if "died" in o or "hung" in o:
      # the implementation brought the process down (or hung it in native
      # code): that is an outcome of the code under test.
      sig = "worker-died" if "died" in o else "worker-hung"
      viol.setdefault(sig, {"sig": sig, "msg": str(o), "desc": None,
                            "trace": None, "count": 1})
      complete = False
      nviol += 1
      continue
    for key, n in o["counts"].items():
      counts[key] = counts.get(key, 0) + n
    for sig, v in o["violations"].items():
      if sig in viol:
        viol[sig]["count"] += v["count"]
      else:
        viol[sig] = v
    for key, n in o["outcomes"].items():
      outcomes[key] = outcomes.get(key, 0) + n
    distinct |= o["distinct"]
    samples += o["samples"]
    complete = complete and o["complete"]
    done += o["done"]
    nviol += o["nviol"]
  known = load_known()
  listed = {f["signature"]: f for f in known["findings"]
            if f["property"] == prop}
  new = [v for s, v in viol.items() if s not in listed]
  old = [v for s, v in viol.items() if s in listed]
  os.makedirs(EVID, exist_ok=True)
  wall = time.time() - t0
  level = mod.LEVEL
  states = counts.get("states", 0) + len(distinct)
  cov = {
      "exhaustive": bool(complete),
      "cases": done,
      "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
      "rule": mod.RULE,
      "samples": samples[:6],
  }
  if level == "model_checking":
    cov.update(states=states, transitions=counts.get("transitions", 0),
               traces_validated_against_impl=counts.get("validated", 0))
  else:
    cov.update(evaluations=counts.get("transitions", 0) or done,
               distinct_nontrivial=states)
  extra = {k: v for k, v in counts.items()
           if k not in ("states", "transitions", "validated")}
  if extra:
    cov["counts"] = extra
  if outcomes:
    cov["outcomes"] = outcomes
  ev = {
      "property": prop, "tier": tier, "seed": seed, "level": level,
      "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
      "wall_s": round(wall, 2), "violations": sum(v["count"] for v in new),
      "known_findings_seen": [v["sig"] for v in old],
  }
  with open(os.path.join(EVID, prop + ".json"), "w") as f:
    json.dump(ev, f, indent=1, default=str)
    f.write("\n")
  for v in old:
    print(f"KNOWN-FINDING: property={prop} {listed[v['sig']]['what']}")
  print(f"{prop} [{tier}] cases={done} states={states} "
        f"transitions={counts.get('transitions', 0)} "
        f"validated={counts.get('validated', 0)} exhaustive={complete} "
        f"wall={wall:.1f}s")
  if not new:
    return 0
  rdir = os.path.join(VERIF, "replays")
  os.makedirs(rdir, exist_ok=True)
  for i, v in enumerate(sorted(new, key=lambda v: v["sig"])):
    path = os.path.join(rdir, f"{prop}-{i}.json")
    with open(path, "w") as f:
      json.dump({"property": prop, **v}, f, indent=1, default=str)
      f.write("\n")
    if i < 20:
      print(f"VIOLATION property={prop} replay={path}")
      print(f"  sig={v['sig']} x{v['count']}")
    elif os.environ.get("MC_ALL"):
      print(f"  also sig={v['sig']} x{v['count']}  {v['msg'][:300]}")
    if i < 20:
      print("  " + v["msg"][-600:].replace("\n", "\n  "))
  sys.stdout.flush()
  return 1


if __name__ == "__main__":
  sys.modules["mc.core"] = sys.modules["__main__"]  # one Violation class
  rc = main(sys.argv[1:])
  sys.stdout.flush()
  os._exit(rc)

"""C10: the block cache never changes a result."""
import itertools
import numpy as np
import tensornetwork as tn
from tensornetwork import block_sparse as bs
from tensornetwork.block_sparse import caching
from tensornetwork.block_sparse.charge import U1Charge, Z2Charge, ZNCharge
from tensornetwork.block_sparse.index import Index
from tensornetwork.block_sparse.blocksparsetensor import BlockSparseTensor
from tensornetwork.backends import backend_factory
from mc import bsx

TITLE = "the block cache never changes a result"
LEVEL = "model_checking"
RULE = ("every history A, B, A of operations (over symmetries, flows, leg orders, "
        "partitions and charge contents chosen to share raw charge bytes), under "
        "every schedule of enable/disable/clear between them, and every history of "
        "toggles up to the stated length: each result is bit for bit the one computed "
        "with an empty, disabled cache, the switch and the cache are left as documented")
ASSUMPTIONS = ["a result with the cache switched off is the reference (itself checked against dense twins in C08/C11)"]
BOUNDS = {
    "quick": "all ordered pairs of operations (as A B A); toggle histories of length 4; all operations in one cache, forwards and backwards",
    "thorough": "all ordered pairs under 9 toggle schedules; toggle histories of length 5; all ordered triples of the operations that share keys",
}
B = backend_factory.get_backend("symmetric")
Z3, Z4, Z5, Z6 = (ZNCharge(k) for k in (3, 4, 5, 6))
Z3B = ZNCharge(3)


def single(cls, q, dtype=np.int16):
  return cls(np.array(q, dtype=dtype), charge_dtype=dtype) if cls is U1Charge else cls(np.array(q, dtype=dtype))


def prod(c1, c2, qs):
  return single(c1, [a for a, _ in qs]) @ single(c2, [b for _, b in qs])


def families():
  """name -> function returning charges of the legs (four legs each)."""
  fam = {}
  raw = [[0, 1], [1, 0, 1], [1, 1], [0, 1, 0]]
  for name, cls in (("U", U1Charge), ("2", Z2Charge), ("3", Z3), ("4", Z4), ("5", Z5), ("6", Z6)):
    fam[name] = lambda cls=cls: [single(cls, r) for r in raw]
  fam["3b"] = lambda: [single(Z3B, r) for r in raw]
  # the raw numbers of two-symmetry legs of dimension 1/2 equal those of
  # one-symmetry legs of dimension 2/4
  p = [[(0, 1)], [(1, 0), (1, 1)], [(1, 1)], [(0, 1), (0, 0)]]
  flat = [[x for t in q for x in t] for q in p]
  fam["UU"] = lambda: [prod(U1Charge, U1Charge, q) for q in p]
  fam["U2"] = lambda: [prod(U1Charge, Z2Charge, q) for q in p]
  fam["22"] = lambda: [prod(Z2Charge, Z2Charge, q) for q in p]
  fam["Uflat"] = lambda: [single(U1Charge, q) for q in flat]
  fam["2flat"] = lambda: [single(Z2Charge, q) for q in flat]
  # one byte per charge, dimension doubled
  b = [[v for x in r for v in (x, 0)] for r in raw]
  fam["Ubytes"] = lambda: [single(U1Charge, q, np.int8) for q in b]
  # the same content with other labels, another order of the content
  fam["Ulab"] = lambda: [bsx.charge("U", [(x,) for x in r], "lab2") for r in raw]
  fam["Urev"] = lambda: [single(U1Charge, r[::-1]) for r in raw]
  return fam


FAM = families()


def tens(fam, legs, flows, k=0):
  ch = FAM[fam]()
  idx = [Index(ch[i], bool(f)) for i, f in zip(legs, flows)]
  d = bsx.fill([i.dim for i in idx], k)
  return BlockSparseTensor.fromdense(idx, d)


def flat(x):
  if isinstance(x, (tuple, list)):
    return tuple(y for z in x for y in flat(z))
  if hasattr(x, "flat_charges"):
    return (("T", np.asarray(x.data).tobytes(), str(x.dtype), tuple(x.shape),
             tuple(tuple(map(tuple, np.asarray(c.charges).tolist())) for c in x.flat_charges),
             tuple(tuple(c.charge_types) for c in x.flat_charges),
             tuple(map(bool, x.flat_flows)), x.todense().tobytes() if x.ndim else b""),)
  return (np.asarray(x).tobytes(),)


def operations():
  """name -> zero-argument computation (fresh operands every time)."""
  ops = {}
  for f in FAM:
    t = lambda l, fl, k=0, f=f: tens(f, l, fl, k)
    ops[f"{f} dot1"] = lambda t=t: bs.tensordot(t([0, 1, 2], (0, 1, 0)), t([2, 3], (1, 0), 1), ([2], [0]))
    ops[f"{f} dot1f"] = lambda t=t: bs.tensordot(t([0, 1, 2], (1, 1, 0)), t([2, 3], (1, 1), 1), ([2], [0]))
    ops[f"{f} dot2"] = lambda t=t: bs.tensordot(t([1, 0, 3], (0, 1, 1)), t([0, 1, 2], (0, 1, 1), 1), ([1, 0], [0, 1]))
    ops[f"{f} dot2t"] = lambda t=t: bs.tensordot(t([1, 3, 0], (0, 1, 1)), t([0, 1, 2], (0, 1, 1), 1), ([0, 2], [1, 0]))
    ops[f"{f} full"] = lambda t=t: bs.tensordot(t([1, 3, 0], (0, 1, 1)), t([0, 1, 3], (0, 1, 0), 1), ([0, 1, 2], [1, 2, 0]))
    ops[f"{f} outer"] = lambda t=t: bs.outerproduct(t([0, 1], (0, 1)), t([1, 2], (0, 1), 1))
    ops[f"{f} svd"] = lambda t=t: bs.svd(t([0, 1], (0, 1)), full_matrices=False)
    ops[f"{f} svdT"] = lambda t=t: bs.svd(t([0, 1], (0, 1)).transpose([1, 0]))
    ops[f"{f} qr"] = lambda t=t: bs.qr(t([0, 1, 2], (0, 1, 1)).transpose([2, 0, 1]).reshape(
        (t([2, 0], (0, 0)).size, t([1], (0,)).size)) if f != "UU" and f not in ("U2", "22") else t([1, 3], (0, 1)))
    ops[f"{f} eigh"] = lambda t=t: bs.eigh(bs.tensordot(t([1, 0], (0, 1)), t([1, 0], (0, 1)).conj(), ([1], [1])))
    ops[f"{f} trace"] = lambda t=t: bs.trace(t([1, 1, 3], (0, 1, 0)).transpose([2, 0, 1]))
    ops[f"{f} tr1"] = lambda t=t: t([0, 1, 2], (0, 1, 1)).transpose([2, 0, 1]).contiguous()
    ops[f"{f} tr2"] = lambda t=t: t([0, 1, 2], (0, 1, 1)).transpose([1, 2, 0], shuffle=True)
    ops[f"{f} add"] = lambda t=t: t([0, 1], (0, 1)) + t([1, 0], (1, 0), 2).transpose([1, 0])
    ops[f"{f} ones"] = lambda t=t: bs.ones([Index(FAM[f]()[1], False), Index(FAM[f]()[3], True)])
    ops[f"{f} eye"] = lambda t=t: bs.eye(Index(FAM[f]()[1], False))
    ops[f"{f} inv"] = lambda t=t: bs.pinv(t([1, 3], (0, 1)))
    ops[f"{f} dec"] = lambda t=t: B.svd(t([0, 1, 3], (0, 1, 0)).transpose([2, 0, 1]), 1)
    ops[f"{f} ncon"] = lambda t=t: tn.ncon([t([0, 1, 2], (0, 1, 0)), t([2, 3], (1, 0), 1), t([1, 3], (0, 1), 2)],
                                           [[-1, 1, 2], [2, 3], [1, 3]], backend="symmetric")
  return ops


OPS = operations()
NAMES = list(OPS)
REF = {}


def ref(name):
  if name not in REF:
    caching.disable_caching()
    caching.clear_cache()
    REF[name] = attempt(OPS[name])
    if caching.get_cacher().cache:
      raise RuntimeError("a disabled cache was written to")
  return REF[name]


def attempt(f):
  try:
    return flat(f())
  except Exception as ex:  # pylint: disable=broad-except
    return ("raised", type(ex).__name__)


SCHED = ["Ee A B A", "E A d B e A", "E A c B A", "E A B c A", "E A d c B e B A",
         "A E B A", "E A B d A", "E A d B A e B", "E B A B c A B"]


def cases(tier):
  th = tier == "thorough"
  for i in range(len(NAMES)):
    yield {"kind": "pairs", "i": i, "th": th}
  for k in range(7 if not th else 14):
    yield {"kind": "all", "k": k}
  n = 4 if not th else 5
  for seq in itertools.product("edcs", repeat=2):
    yield {"kind": "toggle", "pre": "".join(seq), "n": n}
  yield {"kind": "krylov"}
  if th:
    for i in range(len(NAMES)):
      yield {"kind": "triples", "i": i}


def run_case(desc, rec):
  rec.outcome(desc["kind"])
  try:
    globals()["k_" + desc["kind"]](desc, rec)
  finally:
    caching.disable_caching()
    caching.clear_cache()


def play(rec, sched, a, b, label):
  caching.disable_caching()
  caching.clear_cache()
  for c in sched:
    if c in "Ee":
      bs.enable_caching()
    elif c == "d":
      bs.disable_caching()
    elif c == "c":
      bs.clear_cache()
      if bs.get_cacher().cache:
        rec.fail("clear_cache keeps entries", label)
    elif c in "ABC":
      name = {"A": a, "B": b[0], "C": b[-1]}[c]
      rec.step()
      on, n = bs.get_caching_status(), len(bs.get_cacher().cache)
      got = attempt(OPS[name])
      if got != ref_cached(name):
        rec.fail(f"{name.split()[1]} differs with caching", f"{label}: {sched} at {name}: {explain(got, ref_cached(name))}")
        return
      if bs.get_caching_status() != on:
        rec.fail("status changed by an operation", f"{label} {name}")
      if not on and len(bs.get_cacher().cache) != n:
        rec.fail("disabled cache written to", f"{label} {name}")
      rec.validated()


def ref_cached(name):
  return REF[name]


def explain(a, b):
  return f"{str(a)[:300]} instead of {str(b)[:300]}"


def prepare():
  for name in NAMES:
    if ref(name)[:1] == ("raised",):
      raise RuntimeError(f"{name} raised {ref(name)[1]} without caching")


def k_pairs(desc, rec):
  prepare()
  a = NAMES[desc["i"]]
  fa, oa = a.split()
  for b in NAMES:
    fb, ob = b.split()
    # quick: operations of one family with each other, and every operation with
    # the same or a related operation of every other family
    if not desc["th"] and fa != fb and oa != ob and (NAMES.index(b) + desc["i"]) % 12:
      continue
    rec.state()
    for s in SCHED if desc["th"] else SCHED[:1]:
      play(rec, s.replace(" ", ""), a, [b], f"{a} / {b}")
    if oa == ob and not desc["th"]:
      for s in SCHED[1:5]:
        play(rec, s.replace(" ", ""), a, [b], f"{a} / {b}")


def k_triples(desc, rec):
  prepare()
  a = NAMES[desc["i"]]
  oa = a.split()[1]
  for b, c in itertools.permutations([n for n in NAMES if n.split()[1] == oa], 2):
    rec.state()
    play(rec, "EABCAB", a, [b, c], f"{a} / {b} / {c}")


def k_all(desc, rec):
  """All operations share one cache, in several orders, twice."""
  prepare()
  names = NAMES[:]
  k = desc["k"]
  if k % 2:
    names.reverse()
  step = [1, 1, 7, 7, 11, 11, 13, 17, 19, 23, 29, 31, 37, 41][k]
  n = len(names)
  while np.gcd(step, n) != 1:
    step += 1
  names = [names[(i * step) % n] for i in range(n)]
  rec.state()
  caching.clear_cache()
  bs.enable_caching()
  for rnd in range(2):
    size = len(bs.get_cacher().cache)
    for name in names:
      rec.step()
      got = attempt(OPS[name])
      if got != REF[name]:
        rec.fail(f"{name.split()[1]} differs with caching", f"all operations, order {k}, round {rnd}, {name}: {explain(got, REF[name])}")
        return
      rec.validated()
    if rnd and len(bs.get_cacher().cache) != size:
      # a second pass over the same operands must be answered from the cache
      rec.outcome("second pass added entries")
  rec.add("cache_entries", len(bs.get_cacher().cache))


def k_toggle(desc, rec):
  """Every history of enable/disable/clear/set_status: the switch, the cache and
  the result of an operation after every step."""
  prepare()
  probe = ["U dot1", "2 dot1", "UU dot1"]
  for rest in itertools.product("edcsSo", repeat=desc["n"] - 2):
    caching.disable_caching()
    caching.clear_cache()
    on, entries = False, 0
    rec.state()
    hist = desc["pre"] + "".join(rest)
    for i, c in enumerate(hist):
      rec.step()
      if c == "e":
        bs.enable_caching()
        on = True
      elif c == "d":
        bs.disable_caching()
        on = False
      elif c == "c":
        bs.clear_cache()
        entries = 0
      elif c == "s":
        bs.set_caching_status(True)
        on = True
      elif c == "S":
        bs.set_caching_status(False)
        on = False
      elif c == "o":
        name = probe[i % 3]
        if attempt(OPS[name]) != REF[name]:
          rec.fail("result differs after toggling", f"{hist}[{i}] {name}")
        n = len(bs.get_cacher().cache)
        if (not on and n != entries) or n < entries:
          rec.fail("cache contents after an operation", f"{hist}[{i}]: {n} entries, before {entries}, on {on}")
        entries = n
      if bs.get_caching_status() is not on:
        rec.fail("caching status", f"{hist}[{i}]: {bs.get_caching_status()}")
      if len(bs.get_cacher().cache) != entries or bs.get_cacher().is_empty != (entries == 0):
        rec.fail("cache contents", f"{hist}[{i}]")
    rec.validated()


class Stop(Exception):
  pass


def k_krylov(desc, rec):
  """The iterative solvers switch the cache on and off: afterwards status and
  contents are as before, also when the operator raises."""
  prepare()
  h = tens("U", [1, 1], (0, 1), 3)

  d = bs.tensordot(h, h.conj(), ([1], [1]))
  for solver in ("eigsh_lanczos", "eigs", "gmres"):
    for on, filled, flag, fail in itertools.product((False, True), repeat=4):
      rec.state()
      caching.disable_caching()
      caching.clear_cache()
      if filled:
        bs.enable_caching()
        OPS["2 dot1"]()
      bs.set_caching_status(on)
      entries = dict(bs.get_cacher().cache)
      x = BlockSparseTensor.fromdense([Index(FAM["U"]()[1], False), Index(FAM["U"]()[0], True),
                                       Index(FAM["U"]()[3], False), Index(FAM["U"]()[1], True)],
                                      np.ones((3, 2, 3, 3)))
      cnt = [0]

      def mv(v):
        # pylint: disable=cell-var-from-loop
        cnt[0] += 1
        if fail and cnt[0] == 3:
          raise Stop()
        return bs.tensordot(d, v, ([1], [0])) + v * 3.0

      try:
        if solver == "eigsh_lanczos":
          B.eigsh_lanczos(mv, initial_state=x, num_krylov_vecs=6, enable_caching=flag)
        elif solver == "eigs":
          B.eigs(mv, initial_state=x, numeig=1, num_krylov_vecs=5, which="LM", enable_caching=flag)
        else:
          B.gmres(mv, x, x0=x * 0.5, num_krylov_vectors=5, maxiter=2, enable_caching=flag)
        ok = not fail
      except Stop:
        ok = fail
      rec.step()
      msg = f"{solver} on={on} filled={filled} enable_caching={flag} operator raises={fail}"
      if not ok and not (fail and cnt[0] < 3):
        rec.fail("operator exception lost", msg)
      if bs.get_caching_status() != on:
        rec.fail(f"{solver} leaves the switch", msg + f": {bs.get_caching_status()}")
      left = bs.get_cacher().cache
      if flag and not filled and left:
        rec.fail(f"{solver} leaves entries in a cache that was empty", msg)
      if filled and not set(entries) <= set(left):
        rec.fail(f"{solver} clears a cache that was in use", msg)
      # and what is left in the cache is still right
      bs.enable_caching()
      for name in ("U dot1", "2 dot1", "Uflat dot1"):
        if attempt(OPS[name]) != REF[name]:
          rec.fail("result differs after a solver", msg + " " + name)
      rec.validated()

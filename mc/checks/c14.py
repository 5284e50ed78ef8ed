"""C14: measurements on a finite matrix product state."""
import itertools
import numpy as np
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from mc import mpsx
from mc.core import Violation

TITLE = "measurements of finite matrix product states against dense states"
LEVEL = "model_checking"
RULE = ("every MPS of the profile alphabet x every way its gauge can stand "
        "(canonical at each site, normalized or not, canonical by unitary gates and "
        "moves, not canonical) x every sequence of sites (repeats, any order, empty) "
        "up to the length bound x operator assignments (generic non-hermitian, one "
        "per position); each value compared with the dense state; tensors compared "
        "bit by bit before and after measuring")
ASSUMPTIONS = ["numpy contraction of the dense state vector"]
BOUNDS = {
    "quick": "N<=4, d<=3, D<=4, site sequences up to length 3 (N=4: 2); numpy "
             "float64/complex128/float32, jax and tensorflow complex128",
    "thorough": "N<=5, site sequences up to length 4 (N=4: 3, N=5: 2)",
}
BOUNDS["quick"] += "; chains of 8 and 10 sites, every single site and site pair"
PROF = [
    ([2], [1, 1]),
    ([3, 2], [1, 2, 1]),
    ([2, 2], [1, 4, 1]),
    ([2, 3, 2], [1, 2, 3, 1]),
    ([2, 2, 2], [1, 1, 2, 1]),
    ([2, 2, 2, 2], [1, 2, 3, 2, 1]),
    ([2, 3, 1, 2], [1, 3, 2, 2, 1]),
    ([2, 2, 3, 2, 2], [1, 2, 3, 2, 2, 1]),
    ([2] * 10, [1, 2, 3, 3, 4, 2, 3, 4, 3, 2, 1]),
    ([2, 3, 2, 1, 2, 2, 3, 2], [1, 2, 5, 3, 3, 4, 3, 2, 1]),
]


def cases(tier):
  th = tier == "thorough"
  for pi in (8, 9):
    N = len(PROF[pi][0])
    for g in ["none"] + [f"{k}{c}" for k in "csm" for c in ((0, N // 2, N - 1) if not th else range(N))]:
      for dt in ("complex128", "float64"):
        for what in ("one", "two", "env"):
          yield dict(prof=pi, gauge=g, be="numpy", dt=dt, what=what, th=th)
    for be in ("jax", "tensorflow"):
      yield dict(prof=pi, gauge="c3", be=be, dt="complex128", what="two", th=False)
  for be, dts in (("numpy", ("complex128", "float64", "float32")),
                  ("jax", ("complex128",)), ("tensorflow", ("complex128",))):
    for pi, (d, D) in enumerate(PROF[:8]):
      N = len(d)
      if N == 5 and not th:
        continue
      if be != "numpy" and N == 4 and not th:
        continue
      for g in ["none"] + [f"{k}{c}" for c in range(N) for k in "csm"]:
        if be != "numpy" and g[0] in "sm" and not th:
          continue
        for dt in dts:
          if be == "numpy" and dt != "complex128" and g[0] in "m":
            continue
          for what in ("one", "two", "env"):
            yield dict(prof=pi, gauge=g, be=be, dt=dt, what=what, th=th)


def sequences(N, maxlen):
  if N > 6:     # long chains: a fixed family
    base = list(range(N))
    fam = [(), *[(i,) for i in base], tuple(base), tuple(base[::-1]), tuple(base[::2]), tuple(base[1::2][::-1]),
           (N - 1, 0, N // 2, N // 2), (0, N - 1), (N - 1, N - 2, 1, 0, 2), tuple((3 * i + 1) % N for i in base),
           tuple(base[:N // 2]), tuple(base[N // 2:]) * 2]
    yield from fam
    if maxlen > 2:
      yield from itertools.product(range(N), repeat=2)
    return
  for n in range(maxlen + 1):
    yield from itertools.product(range(N), repeat=n)


def op(dim, k, dt):
  r = np.random.RandomState(31 * dim + k)
  g = r.randn(dim, dim)
  if np.dtype(dt).kind == "c":
    g = g + 1j * r.randn(dim, dim)
  return g.astype(dt)


def build(desc):
  d, D = PROF[desc["prof"]]
  N = len(d)
  be = backend_factory.get_backend(desc["be"])
  dt = desc["dt"]
  ts = mpsx.tens(N, d, D, dt, k=3, scale=0.3)
  g = desc["gauge"]
  if g == "none":
    mps = tn.FiniteMPS(ts, canonicalize=False, backend=be)
    return mps, mpsx.dense(ts), be, d
  c = int(g[1:])
  if g[0] == "c":
    mps = tn.FiniteMPS(ts, center_position=c, backend=be)
    T = mpsx.dense(ts)
    return mps, T / np.linalg.norm(T), be, d
  mps = tn.FiniteMPS(ts, canonicalize=False, backend=be)
  mps.canonicalize(normalize=False)
  T = mpsx.dense(ts)
  if g[0] == "m":  # unitary on every site, two-site gate at the centre, then move
    for s in range(N):
      U = np.linalg.qr(op(d[s], 50 + s, dt))[0].astype(dt)
      mps.apply_one_site_gate(be.convert_to_tensor(U), s)
      T = mpsx.gate1(T, U, s)
    if N > 1:
      G = op(d[0] * d[1], 60, dt).reshape(d[0], d[1], d[0], d[1])
      mps.apply_two_site_gate(be.convert_to_tensor(G), 0, 1, center_position=1)
      T = mpsx.gate2(T, G, 0)
  mps.position(c, normalize=False)
  return mps, T, be, d


def run_case(desc, rec):
  mps, T, be, d = build(desc)
  N = len(d)
  dt = desc["dt"]
  tol = 2e-4 if dt == "float32" else 1e-9
  psi = T
  before = [np.array(t) for t in mps.tensors]
  center = mps.center_position
  conv = be.convert_to_tensor
  scale = max(1.0, float(np.vdot(psi, psi).real))

  def bad(sig, msg):
    raise Violation(sig, f"{msg}\ncase {desc}")

  def close(a, b, sig, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.all(
        np.abs(a - b) <= tol * max(scale, float(np.max(np.abs(b))) if b.size else 0)):
      bad(sig, f"{what}: {a.ravel()[:8]} != {b.ravel()[:8]} shapes {a.shape} {b.shape}")

  def unchanged(sig):
    if mps.center_position != center or len(mps.tensors) != N or any(
        not np.array_equal(np.asarray(a), b) for a, b in zip(mps.tensors, before)):
      bad("measuring-changed:" + sig, "measuring changed the MPS")

  close(mpsx.dense(before), psi, "build", "state")

  def expect(*pairs):
    """<psi| pairs[0] pairs[1] ... |psi>, rightmost applied first."""
    v = psi
    for o, s in reversed(pairs):
      v = mpsx.gate1(v, o, s)
    return np.vdot(psi, v)

  L = {1: 3, 2: 3, 3: 3, 4: 2, 5: 1}.get(N, 2) + int(desc["th"])
  if desc["what"] == "one":
    for seq in sequences(N, L):
      ops = [op(d[s], 10 * i + s, dt) for i, s in enumerate(seq)]
      res = mps.measure_local_operator([conv(o) for o in ops], list(seq))
      rec.step()
      if len(res) != len(seq):
        bad("one:len", f"{len(res)} values for {seq}")
      for i, s in enumerate(seq):
        close(res[i], expect((ops[i], s)), "one", f"sites {seq}, value {i}")
      rec.state((desc["prof"], desc["gauge"], seq, "one"))
      rec.validated()
    unchanged("one")
    for bads in ([-1], [N], [0, N], [0, -1]):
      refuse(lambda: mps.measure_local_operator(
          [conv(op(d[0], 0, dt))] * len(bads), bads), "one-range", bad, rec)
    refuse(lambda: mps.measure_local_operator([conv(op(d[0], 0, dt))], []),
           "one-len", bad, rec)
    refuse(lambda: mps.measure_local_operator([], [0]), "one-len", bad, rec)
    unchanged("one-refused")
  elif desc["what"] == "two":
    same = len(set(d)) == 1
    for s1 in range(N):
      for seq in sequences(N, L):
        if not same and len({d[s] for s in seq}) > 1:
          continue  # one operator cannot act on sites of different dimension
        if any(s == s1 for s in seq) and d[s1] != d[seq[0]]:
          continue
        o1 = op(d[s1], 3, dt)
        o2 = op(d[seq[0]] if seq else 2, 4, dt)
        kinds = [list(seq), tuple(seq), np.array(seq, dtype=int)]
        if list(seq) == list(range(len(seq))):
          kinds.append(range(len(seq)))
        kinds = kinds if len(seq) <= 2 else kinds[:1] + kinds[3:]
        for sites in kinds:
          res = mps.measure_two_body_correlator(conv(o1), conv(o2), s1, sites)
          rec.step()
          if len(res) != len(seq):
            bad("two:len", f"{len(res)} values for site1={s1}, sites2={seq}")
          for i, s in enumerate(seq):
            close(res[i], expect((o1, s1), (o2, s)), "two",
                  f"site1={s1} sites2={seq} value {i}")
        rec.state((desc["prof"], desc["gauge"], s1, seq, "two"))
        rec.validated()
    unchanged("two")
    o = conv(op(2, 1, dt))
    for s1, s2 in ((-1, [0]), (N, [0]), (0, [N]), (0, [-1]), (0, [0, N]), (N - 1, [-1, 0])):
      refuse(lambda: mps.measure_two_body_correlator(o, o, s1, s2), "two-range", bad, rec)
    unchanged("two-refused")
  else:
    envs(desc, rec, mps, before, d, conv, close, bad, unchanged, L)


def refuse(f, name, bad, rec):
  try:
    r = f()
  except (ValueError, IndexError):
    rec.outcome("refused:" + name)
    rec.step()
  else:
    bad("accepted:" + name, f"returned {r}")


def envs(desc, rec, mps, ts, d, conv, close, bad, unchanged, L):
  N = len(d)
  left = [np.eye(1)]
  for t in ts:
    left.append(np.einsum("ab,asc,bsd->cd", left[-1], t, t.conj()))
  right = {N - 1: np.eye(1)}
  for i in range(N - 1, -1, -1):
    right[i - 1] = np.einsum("cd,asc,bsd->ab", right[i], ts[i], ts[i].conj())
  for seq in sequences(N + 1, L):
    for which, off, f, ref in (("left", 0, mps.left_envs, left),
                               ("right", -1, mps.right_envs, right)):
      sites = [s + off for s in seq]
      for arg in (sites, np.array(sites, dtype=int)):
        res = f(arg)
        rec.step()
        if {int(k) for k in res} != set(sites):
          bad(f"env:{which}:keys", f"sites {sites}: keys {list(res)}")
        for s in sites:
          close(res[s], ref[s], f"env:{which}", f"{which} environment {s} of {sites}")
    rec.state((desc["prof"], desc["gauge"], seq, "env"))
    rec.validated()
  unchanged("env")
  for f, bads in ((mps.left_envs, [-1]), (mps.left_envs, [N + 1]), (mps.left_envs, [0, N + 1]),
                  (mps.right_envs, [N]), (mps.right_envs, [-2]), (mps.right_envs, [0, N])):
    refuse(lambda: f(bads), "env-range", bad, rec)
  for s in range(N):
    for k, dirs in (("l", ("l", "left", 1)), ("r", ("r", "right", -1))):
      D = ts[s].shape[0 if k == "l" else 2]
      m = mpsx.netx.data((D, D), s + 20, np.dtype(desc["dt"]).kind == "c").astype(desc["dt"])
      m0 = m.copy()
      want = (np.einsum("ab,asc,bsd->cd", m, ts[s], ts[s].conj()) if k == "l" else
              np.einsum("cd,asc,bsd->ab", m, ts[s], ts[s].conj()))
      for dr in dirs:
        close(mps.apply_transfer_operator(s, dr, conv(m)), want, "transfer",
              f"transfer operator {s} {dr}")
        rec.step()
      if not np.array_equal(m, m0):
        bad("transfer:argument", "matrix modified")
      A2 = conv(mpsx.netx.data(ts[s].shape, 7, False).astype(desc["dt"]))
      a2 = np.asarray(A2)
      if k == "l":
        close(mps.left_transfer_operator(mps.tensors[s], conv(m), A2),
              np.einsum("ab,asc,bsd->cd", m, ts[s], a2), "transfer2", "mixed left")
      else:
        close(mps.right_transfer_operator(mps.tensors[s], conv(m), A2),
              np.einsum("cd,asc,bsd->ab", m, ts[s], a2), "transfer2", "mixed right")
    for w in (0, "x", 2, "L"):
      refuse(lambda: mps.apply_transfer_operator(s, w, conv(np.eye(1))), "transfer-dir",
             bad, rec)
  unchanged("transfer")

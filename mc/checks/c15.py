"""C15: Hamiltonian builders and variational ground-state search."""
import functools
import itertools
import numpy as np
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from tensornetwork.matrixproductstates.mpo import (
    FiniteMPO, FiniteXXZ, FiniteTFI, FiniteFreeFermion2D, InfiniteMPO)
from tensornetwork.matrixproductstates.dmrg import FiniteDMRG
from mc import mpsx
from mc.core import Violation

TITLE = "Hamiltonian builders against dense matrices, DMRG histories against exact diagonalization"
LEVEL = "model_checking"
RULE = ("builders: every length/grid of the bound x every assignment of couplings "
        "from a value alphabet (site dependent, with zeros and signs) x dtype x "
        "backend, dense matrix compared entry by entry with a textbook construction; "
        "DMRG: every Hamiltonian of the alphabet x starting bond dimensions x starting "
        "centre x all sequences of position / environment updates / one- and two-site "
        "sweeps / energy evaluation up to the depth, each environment, energy and "
        "gauge compared with the dense state")
ASSUMPTIONS = ["numpy.linalg.eigh of the dense Hamiltonian",
               "convergence is required of runs from a generic state with full bond "
               "dimension, Krylov space of at least the local dimension and 8 sweeps"]
BOUNDS = {
    "quick": "builders N<=5, grids up to 2x3; DMRG N<=4, histories of length 3 (N<=3), "
             "2 (N=4; tensorflow; jax at N=2); parameter grid of Krylov sizes, ndiag, bond dimensions",
    "thorough": "builders N<=6, grids up to 3x3 and 2x4; DMRG N<=5, histories of length 4",
}
BOUNDS["quick"] += "; builders up to N=8 and 3x4 grids, DMRG N=6 and 8, mixed site dimensions"
VALS = [0.0, 1.0, -0.7]
BES = ("numpy", "jax", "tensorflow")


def assign(n, k):
  """All vectors over VALS of length n if few, otherwise an orthogonal-array-like
  deterministic family covering every pair of positions and values."""
  if 3**n <= k:
    return [list(v) for v in itertools.product(VALS, repeat=n)]
  out = [[VALS[0]] * n, [VALS[1]] * n]
  for i in range(n):
    for j in range(n):
      out.append([VALS[1] if m == i else VALS[2] if m == j else 0.3 * m + 0.1
                  for m in range(n)])
      out.append([VALS[2] if m == i else 0.0 for m in range(n)])
  return out


def cases(tier):
  th = tier == "thorough"
  for N in range(1, 7 if th else 6):
    for kind in ("xxz", "tfi"):
      for be in BES:
        if N < 4 or kind == "tfi" or be != "numpy":
          yield dict(what="build", kind=kind, N=N, be=be)
        else:
          for part in range(8):
            yield dict(what="build", kind=kind, N=N, be=be, part=part)
  for N1, N2 in [(1, 1), (1, 2), (2, 1), (1, 4), (4, 1), (2, 2), (3, 1), (1, 3),
                 (2, 3), (3, 2)] + ([(3, 3), (2, 4), (4, 2)] if th else []):
    for be in BES[:1] if N1 * N2 > 4 else BES:
      yield dict(what="build", kind="ff", N1=N1, N2=N2, be=be)
  for N in (7, 8):
    for kind in ("xxz", "tfi"):
      yield dict(what="build", kind=kind, N=N, be="numpy", few=True)
  if not th:
    yield dict(what="build", kind="ff", N1=3, N2=3, be="numpy", few=True)
    yield dict(what="build", kind="ff", N1=2, N2=4, be="numpy", few=True)
    yield dict(what="build", kind="ff", N1=4, N2=2, be="numpy", few=True)
  yield dict(what="mpo")
  # longer chains, and chains whose sites differ in dimension
  for N, h in [(6, 0), (6, 1), (6, 2), (5, 3), (8, 1)]:
    for c in (0, N // 2, N - 1):
      for two in (False, True):
        yield dict(what="run", N=N, h=h, be="numpy", two=two, cs=[c])
  for N in (2, 3, 4):
    for two in (False, True):
      yield dict(what="run", N=N, h=3, be="numpy", two=two)
  for N, D in ((2, 2), (3, 2)):
    for c in range(N):
      for f in range(len(actions(N))):
        yield dict(what="hist", N=N, h=3, be="numpy", D=D, c=c, depth=3 if N == 2 else 2, first=f)
  for N in range(1, 6 if th else 5):
    for h in range(3):
      for be in BES:
        if be == "tensorflow" or be == "jax" and (N not in (2, 3) or h == 0):
          continue  # tensorflow has no Lanczos solver (documented)
        if N > 1:
          yield dict(what="run", N=N, h=h, be=be, two=True)
        yield dict(what="run", N=N, h=h, be=be, two=False)
  for N in range(1, 6 if th else 5):
    for h in (0, 2):
      for be in BES:
        if be != "numpy" and (N not in (2, 3) or h == 0):
          continue
        depth = (3 if N <= 3 else 2) + int(th)
        if be != "numpy":
          depth = 2
        if be == "jax" and N == 3 and not th:
          continue  # compilation dominates
        acts = actions(N)
        for D in (1, 2):
          if N == 1 and D > 1:
            continue
          for c in range(N):
            if be == "jax" and not th and (D, c) != (2, 1):
              continue
            for f in range(len(acts)):
              yield dict(what="hist", N=N, h=h, be=be, D=D, c=c, depth=depth, first=f)


# ------------------------------------------------------------------ builders
SX = np.array([[0, 1], [1, 0]]) / 2
SY = np.array([[0, -1j], [1j, 0]]) / 2
SZ = np.diag([-0.5, 0.5])


def at(op, n, N):
  return np.kron(np.kron(np.eye(2**n), op), np.eye(2**(N - 1 - n)))


@functools.lru_cache(None)
def term(kind, n, N):
  if kind == "z":
    return at(SZ, n, N)
  if kind == "zz":
    return at(SZ, n, N) @ at(SZ, n + 1, N)
  if kind == "xx":
    return at(SX, n, N) @ at(SX, n + 1, N)
  return at(SX, n, N) @ at(SX, n + 1, N) + at(SY, n, N) @ at(SY, n + 1, N)


def mpo_dense(ts):
  T = np.asarray(ts[0])
  for t in ts[1:]:
    T = np.tensordot(T, np.asarray(t), [[1], [0]])
    # (l, o, i, r, o2, i2) -> (l, r, o, o2, i, i2)
    n = (T.ndim - 2 - 2) // 2
    T = np.moveaxis(T, 1 + 2 * n, 1)
    perm = ([0, 1] + list(range(2, 2 + n)) + [2 + 2 * n] +
            list(range(2 + n, 2 + 2 * n)) + [3 + 2 * n])
    T = T.transpose(perm)
  n = (T.ndim - 2) // 2
  d = int(np.prod(T.shape[2:2 + n]))
  if T.shape[0] != 1 or T.shape[1] != 1:
    raise Violation("mpo:boundary", f"boundary dimensions {T.shape[:2]}")
  return T.reshape(d, d)


def xxz(Jz, Jxy, Bz):
  N = len(Bz)
  H = np.zeros((2**N, 2**N), complex)
  for n in range(N):
    H += Bz[n] * term('z', n, N)
  for n in range(N - 1):
    H += Jz[n] * term('zz', n, N)
    H += Jxy[n] * term('xxyy', n, N)
  return H


def tfi(Jx, Bz):
  N = len(Bz)
  H = np.zeros((2**N, 2**N), complex)
  for n in range(N):
    H += 2 * Bz[n] * term('z', n, N)
  for n in range(N - 1):
    H += 4 * Jx[n] * term('xx', n, N)
  return H


def ff(t1, t2, v, N1, N2):
  """Free fermions in Fock space, sign by counting occupied modes before."""
  N = N1 * N2
  M = np.zeros((N, N))
  for x in range(N2):
    for y in range(N1):
      s = x * N1 + y
      M[s, s] = v
      if y + 1 < N1:
        M[s, s + 1] = M[s + 1, s] = t1
      if x + 1 < N2:
        M[s, s + N1] = M[s + N1, s] = t2
  H = np.zeros((2**N, 2**N))
  for st in range(2**N):
    occ = [(st >> (N - 1 - k)) & 1 for k in range(N)]
    for i in range(N):
      for j in range(N):
        if M[i, j] == 0 or not occ[j]:
          continue
        sgn = (-1)**sum(occ[:j])
        o2 = list(occ)
        o2[j] = 0
        if o2[i]:
          continue
        sgn *= (-1)**sum(o2[:i])
        o2[i] = 1
        H[int("".join(map(str, o2)), 2), st] += sgn * M[i, j]
  return H


def check_mpo(mpo, ref, N, dt, desc, sig, rec):
  ts = [np.asarray(t) for t in mpo.tensors]
  if len(ts) != N or len(mpo) != N or len(list(iter(mpo))) != N:
    raise Violation(sig + ":length", f"{len(ts)} tensors for {N} sites: {desc}")
  if any(t.dtype != dt for t in ts) or mpo.dtype != ts[0].dtype:
    raise Violation(sig + ":dtype", f"{[t.dtype for t in ts]} {desc}")
  if [int(x) for x in mpo.bond_dimensions] != [ts[0].shape[0]] + [t.shape[1] for t in ts]:
    raise Violation(sig + ":bonds", f"{mpo.bond_dimensions}")
  H = mpo_dense(ts)
  tol = 1e-5 if dt == np.float32 else 1e-12
  if H.shape != ref.shape or np.abs(H - ref).max() > tol:
    raise Violation(sig, f"dense matrix differs by {np.abs(H - ref).max()}: {desc}")
  rec.validated()


def build(desc, rec):
  be = desc["be"]
  dts = (np.float64, np.complex128, np.float32)
  if desc["kind"] == "xxz":
    N = desc["N"]
    jzs = assign(N - 1, 9)
    few = "few" in desc
    for Jz in jzs[desc["part"]::8] if "part" in desc else jzs[2::17] if few else jzs:
      for Jxy in assign(N - 1, 9)[3::29] if few else assign(N - 1, 9):
        for Bz in assign(N, 9)[1::37] if few else assign(N, 9)[::1 if N < 3 else 3]:
          for dt in dts if be == "numpy" else dts[:1]:
            mpo = FiniteXXZ(np.array(Jz), np.array(Jxy), np.array(Bz), dtype=dt, backend=be)
            rec.step()
            check_mpo(mpo, xxz(Jz, Jxy, Bz), N, dt, (Jz, Jxy, Bz), "xxz", rec)
          rec.state((tuple(Jz), tuple(Jxy), tuple(Bz)))
          if be != "numpy":
            break
  elif desc["kind"] == "tfi":
    N = desc["N"]
    few = "few" in desc
    for Jx in assign(N - 1, 27)[2::13] if few else assign(N - 1, 27):
      for Bz in assign(N, 27)[3::17] if few else assign(N, 27):
        for dt in dts if be == "numpy" else dts[:1]:
          J, B = np.array(Jx), np.array(Bz)
          mpo = FiniteTFI(J, B, dtype=dt, backend=be)
          rec.step()
          check_mpo(mpo, tfi(Jx, Bz), N, dt, (Jx, Bz), "tfi", rec)
          if J.tolist() != Jx or B.tolist() != Bz:
            raise Violation("tfi:argument", "couplings modified")
        rec.state((tuple(Jx), tuple(Bz)))
  else:
    N1, N2 = desc["N1"], desc["N2"]
    grid = [(1.0, -0.8, 0.5), (-0.6, 0.3, 0.0), (0.0, 1.0, -0.7)]
    for t1, t2, v in grid if "few" in desc else itertools.product(
        [0.0, 1.0, -0.6], [0.0, 0.8, -1.0], [0.0, 0.5]):
      for dt in dts if be == "numpy" else dts[:1]:
        mpo = FiniteFreeFermion2D(t1, t2, v, N1, N2, dt, backend=be)
        rec.step()
        check_mpo(mpo, ff(t1, t2, v, N1, N2), N1 * N2, dt, (t1, t2, v, N1, N2),
                  "ff", rec)
      rec.state((t1, t2, v, N1, N2))


def mpo_cls(desc, rec):
  a = [np.ones((1, 3, 2, 2)), np.ones((3, 2, 2, 2)), np.ones((2, 1, 2, 2))]
  def refused(f, exc, sig):
    try:
      f()
    except exc:
      rec.outcome("refused:" + sig)
    else:
      raise Violation("accepted:" + sig, "")
  refused(lambda: FiniteMPO(a[:2], backend="numpy"), ValueError, "right boundary")
  refused(lambda: FiniteMPO(a[1:], backend="numpy"), ValueError, "left boundary")
  refused(lambda: InfiniteMPO(a[:2], backend="numpy"), ValueError, "infinite boundary")
  refused(lambda: FiniteMPO(a[:2] + [a[2].astype(complex)], backend="numpy"), TypeError, "dtype")
  for n in range(4):
    b = [np.full((2, 2, 2, 2), float(k)) for k in range(4)]
    m = InfiniteMPO(b, backend="numpy")
    m.roll(n)
    if [t[0, 0, 0, 0] for t in m.tensors] != [(k + n) % 4 for k in range(4)]:
      raise Violation("roll", str(n))
    rec.step()
    rec.state(n)


# ---------------------------------------------------------------------- DMRG
def hams(N):
  """(name, mpo tensors as complex/real numpy arrays)."""
  out = []
  out.append(("tfi", FiniteTFI(np.array([1.0, -0.6, 0.8, 0.5, 0.9, -1.1, 0.7][:max(N - 1, 1)]),
                               np.array([0.4, 0.7, -0.3, 0.9, 0.2, 0.6, -0.8, 0.5][:N]), np.float64,
                               backend="numpy").tensors if N > 1 else
              [0.4 * np.diag([-1.0, 1.0]).reshape(1, 1, 2, 2)]))
  out.append(("xxz", FiniteXXZ(np.array([1.0, 0.5, 1.0, 0.7, 0.9, 1.1, 0.6][:max(N - 1, 1)]),
                               np.array([1.0, 0.8, 0.6, 1.2, 0.9, 0.7, 1.1][:max(N - 1, 1)]),
                               np.array([0.3, -0.1, 0.2, 0.4, -0.5, 0.15, -0.35, 0.25][:N]), np.float64,
                               backend="numpy").tensors if N > 1 else
              [0.3 * np.diag([-0.5, 0.5]).reshape(1, 1, 2, 2)]))
  # complex hermitian, not real symmetric, not invariant under transposition
  out.append(("hermitian", hermitian([2] * N)))
  out.append(("mixed", hermitian([3, 2, 1, 3, 2, 2, 3, 2][:N] if N > 2 else [3, 2][:N])))
  return out


def hermitian(d):
  N = len(d)
  r = np.random.RandomState(5)
  ts = []
  f = []
  for n in range(N):
    g = r.randn(d[n], d[n]) + 1j * r.randn(d[n], d[n])
    f.append(g + g.conj().T)
  A = [r.randn(k, k) + 1j * r.randn(k, k) for k in d]
  B = [r.randn(k, k) + 1j * r.randn(k, k) for k in d]
  for n in range(N):
    w = np.zeros((4, 4, d[n], d[n]), complex)
    w[0, 0] = w[3, 3] = np.eye(d[n])
    w[3, 0] = f[n]
    w[3, 1], w[3, 2] = A[n], A[n].conj().T
    w[1, 0], w[2, 0] = B[n], B[n].conj().T
    if n == 0:
      w = w[3:4]
    if n == N - 1:
      w = w[:, 0:1]
    ts.append(w)
  return ts


def maxdims(d):
  return [1] + [int(min(np.prod(d[:n]), np.prod(d[n:]))) for n in range(1, len(d))] + [1]


def setup(desc, D):
  N = desc["N"]
  name, ts = hams(N)[desc["h"]]
  dt = np.asarray(ts[0]).dtype
  be = backend_factory.get_backend(desc["be"])
  mpo = FiniteMPO([np.array(t) for t in ts], backend=be)
  d = [int(t.shape[2]) for t in ts]
  dims = [min(D, x) for x in maxdims(d)]
  r = np.random.RandomState(3)
  mts = []
  for n in range(N):
    a = r.randn(dims[n], d[n], dims[n + 1])
    if dt.kind == "c":
      a = a + 1j * r.randn(*a.shape)
    mts.append(a.astype(dt))
  mps = tn.FiniteMPS(mts, center_position=desc.get("c", 0), backend=be)
  H = mpo_dense(ts)
  if np.abs(H - H.conj().T).max() > 1e-12:
    raise AssertionError("harness: H is not hermitian")
  return mps, mpo, H


def energy(mps, H):
  v = mpsx.dense([np.asarray(t) for t in mps.tensors]).reshape(-1)
  n = np.vdot(v, v).real
  return (np.vdot(v, H @ v) / n).real, n, v / np.sqrt(n)


def inspect(dm, mps, H, E, desc, rec, what, returned=None, exact=True):
  """Everything that must hold of a DMRG object at any time."""
  N = len(mps.tensors)
  tol = 1e-6
  e, n, v = energy(mps, H)
  if e < E[0] - 1e-9:
    raise Violation("below-minimum", f"{what}: energy {e} < {E[0]}: {desc}")
  if n > 1 + 1e-8 or exact and n < 1 - 1e-8:  # truncation may lose weight
    raise Violation("norm", f"{what}: norm^2 {n}: {desc}")
  c = mps.center_position
  ts = [np.asarray(t) for t in mps.tensors]
  for i in range(N):
    if i < c and mpsx.left_iso(ts[i]) > 1e-7 or i > c and mpsx.right_iso(ts[i]) > 1e-7:
      raise Violation("gauge", f"{what}: site {i}, centre {c}: {desc}")
  if returned is not None:
    rr = complex(np.asarray(returned))
    if abs(rr.imag) > 1e-7 or rr.real < E[0] - 1e-7:
      raise Violation("returned-below-minimum", f"{what}: {rr} < {E[0]}: {desc}")
    if exact and abs(rr.real - e) > tol * max(1, abs(e)):
      raise Violation("returned-energy", f"{what}: returned {rr}, state has {e}: {desc}")
  # environments towards the centre are those of the tensors held
  w = [np.asarray(t) for t in dm.mpo.tensors]
  L = np.ones((1, 1, 1), w[0].dtype)
  for i in range(c + 1):
    if i in dm.left_envs:
      g = np.asarray(dm.left_envs[i])
      if g.shape != L.shape or np.abs(g - L).max() > 1e-7 * max(1, np.abs(L).max()):
        raise Violation("left-env", f"{what}: left environment {i}, centre {c}: {desc}")
      rec.validated()
    L = np.einsum("wab,asc,wxts,btd->xcd", L, ts[i], w[i], ts[i].conj())
  R = np.ones((1, 1, 1), w[0].dtype)
  for i in range(N - 1, c - 1, -1):
    if i in dm.right_envs:
      g = np.asarray(dm.right_envs[i])
      if g.shape != R.shape or np.abs(g - R).max() > 1e-7 * max(1, np.abs(R).max()):
        raise Violation("right-env", f"{what}: right environment {i}, centre {c}: {desc}")
      rec.validated()
    R = np.einsum("xcd,asc,wxts,btd->wab", R, ts[i], w[i], ts[i].conj())


def run(desc, rec):
  N, two = desc["N"], desc["two"]
  phys = [int(t.shape[2]) for t in hams(N)[desc["h"]][1]]
  full = max(maxdims(phys))
  for D in sorted({1, 2, full}):
    for c in desc.get("cs", range(N)):
      for nk, ndiag, sweeps, prec in ((2, 10, 1, 1e-6), (10, 10, 2, 1e-6), (3, 1, 3, 1e-6),
                                      (4, 2, 1, 1e-2), (max(20, min(2**N, 64)), 1, 8, 1e-12),
                                      (10, 10, 0, 1e-6)):
        if desc["be"] != "numpy" and (c > 0 or nk < 10):
          continue
        mps, mpo, H = setup(dict(desc, c=c), D)
        E = np.linalg.eigvalsh(H)
        given = [np.array(t) for t in mpo.tensors]
        dm = FiniteDMRG(mps, mpo)
        e0, _, _ = energy(mps, H)
        kw = dict(num_sweeps=sweeps, precision=prec, num_krylov_vecs=nk, ndiag=ndiag,
                  tol=1e-10, delta=1e-9, verbose=(nk + D + c) % 3)
        bonds = [None] if not two else [full, D]
        for mb in bonds:
          if mb is not None and mb != bonds[0]:
            mps, mpo, H = setup(dict(desc, c=c), D)
            dm = FiniteDMRG(mps, mpo)
          ret = (dm.run_two_site(max_bond_dim=mb, **kw) if two else dm.run_one_site(**kw))
          rec.step()
          exact = not two or mb >= full
          what = f"run two={two} D={D} c={c} mb={mb} {kw}"
          inspect(dm, mps, H, E, desc, rec, what, ret, exact)
          if mps.center_position != 0:
            raise Violation("centre", f"{what}: {mps.center_position}")
          if two and any(t.shape[0] > mb for t in mps.tensors):
            raise Violation("max_bond_dim", f"{what}: {[t.shape for t in mps.tensors]}")
          e, _, _ = energy(mps, H)
          if exact and e > e0 + 1e-8:
            raise Violation("energy-increased", f"{what}: {e0} -> {e}")
          if sweeps == 8 and (two and mb >= full or not two and D >= full):
            if abs(e - E[0]) > 1e-7:
              raise Violation("ground-state", f"{what}: {e} instead of {E[0]}")
            rec.outcome("ground state reached")
          if any(not np.array_equal(a, np.asarray(b)) for a, b in zip(given, mpo.tensors)):
            raise Violation("mpo-changed", what)
          rec.state((desc["h"], N, D, c, nk, two, mb))


def actions(N):
  acts = [("pos", s) for s in range(N)] + [("left",), ("right",), ("one",), ("energy",)]
  if N > 1:
    acts.append(("two",))
  acts += [("bad", -1), ("bad", N)]
  return acts


def hist(desc, rec):
  N = desc["N"]
  acts = actions(N)
  if desc["be"] == "tensorflow":  # no Lanczos solver
    acts = [a if a[0] not in ("one", "two") else ("energy",) for a in acts]
  full = max(maxdims([int(t.shape[2]) for t in hams(N)[desc["h"]][1]]))
  kw = dict(num_sweeps=1, num_krylov_vecs=4, ndiag=1, tol=1e-10, delta=1e-9)
  for seq in itertools.product(range(len(acts)), repeat=desc["depth"] - 1):
    seq = (desc["first"],) + seq
    # positions need the environments of the starting point
    mps, mpo, H = setup(desc, desc["D"])
    E = np.linalg.eigvalsh(H)
    dm = FiniteDMRG(mps, mpo)
    inspect(dm, mps, H, E, desc, rec, "init")
    dm.compute_left_envs()
    dm.compute_right_envs()
    names = []
    last = None
    for k in seq:
      a = acts[k]
      names.append(a)
      ret = None
      e0, _, v0 = energy(mps, H)
      if a[0] == "pos":
        r = dm.position(a[1])
        if mps.center_position != a[1] or r is not dm:
          raise Violation("position", f"{names}: {mps.center_position}")
        if a[1] not in dm.left_envs or a[1] not in dm.right_envs:
          raise Violation("position:envs", f"{names}: environments missing")
      elif a[0] == "left":
        dm.compute_left_envs()
        if any(i not in dm.left_envs for i in range(mps.center_position + 1)):
          raise Violation("left:envs", f"{names}")
      elif a[0] == "right":
        dm.compute_right_envs()
        if any(i not in dm.right_envs for i in range(mps.center_position, N)):
          raise Violation("right:envs", f"{names}")
      elif a[0] == "one":
        ret = dm.run_one_site(**kw)
      elif a[0] == "two":
        ret = dm.run_two_site(max_bond_dim=full, **kw)
      elif a[0] == "energy":
        ret = dm.compute_energy()
      else:
        try:
          dm.position(a[1])
        except IndexError:
          rec.outcome("refused:position")
        else:
          raise Violation("accepted:position", f"{names}")
      rec.step()
      inspect(dm, mps, H, E, desc, rec, str(names), ret)
      e, _, v = energy(mps, H)
      if a[0] in ("pos", "left", "right", "energy", "bad"):
        if abs(abs(np.vdot(v0, v)) - 1) > 1e-9:
          raise Violation("state-changed", f"{names}")
      elif e > e0 + 1e-8:
        raise Violation("energy-increased", f"{names}: {e0} -> {e}")
    rec.state((desc["N"], desc["h"], desc["D"], desc["c"], desc["be"], seq))


def run_case(desc, rec):
  {"build": build, "mpo": mpo_cls, "run": run, "hist": hist}[desc["what"]](desc, rec)

"""C16: infinite matrix product states keep their state through every history."""
import itertools
import numpy as np
from tensornetwork.matrixproductstates.infinite_mps import InfiniteMPS
from mc.core import Violation

TITLE = "infinite chains through every history of canonicalization, centre moves and gates"
LEVEL = "model_checking"
RULE = ("unit cells of 1 to 3 sites x bond and physical dimensions x real, complex, "
        "rank-deficient and structured data x connector (none, square, rectangular) x initial "
        "centre; every sequence up to the depth of canonicalize (default, with start vectors, "
        "truncating), position (every site, with and without normalization) and gates; after "
        "every step the two-cell density matrix of the bulk, the Schmidt values, isometries "
        "and transfer spectrum against a dense reference")
ASSUMPTIONS = [
    "the transfer matrix has one dominant eigenvalue, separated by at least 5% (injective chains)",
    "truncation is compared only when the Schmidt values at the cut differ",
    "left_envs/right_envs/save are documented as not implemented for infinite chains",
    "tensorflow has no eigs: canonicalize is explored on numpy and jax only"]
BOUNDS = {
    "quick": "cells of 1..3 sites, bonds 1..4, physical dimensions 1..3, depth 2 everywhere, 3 on six cells; jax depth 2 on 2 cells",
    "thorough": "depth 4 (N=1,2), 3 (N=3), all bond combinations up to 3, jax on all cells",
}
BOUNDS["quick"] += "; cells of 4-6 sites at depth 1"
CELLS = [  # physical dimensions, bond dimensions D0..D(N-1) (the last equals the first)
    ((2,), (1,)), ((2,), (2,)), ((2,), (3,)), ((3,), (2,)), ((3,), (4,)), ((4,), (4,)),
    ((2, 2), (2, 2)), ((2, 3), (2, 3)), ((2, 2), (1, 2)), ((3, 2), (3, 1)), ((2, 1), (2, 2)),
    ((2, 2), (3, 2)),
    ((2, 2, 2), (2, 2, 2)), ((2, 2, 2), (1, 2, 2)), ((2, 3, 2), (2, 3, 1)), ((2, 2, 2), (3, 2, 2)),
]
LONG = [((2, 2, 2, 2), (2, 3, 2, 2)), ((2, 1, 3, 2, 2), (2, 2, 3, 2, 2)), ((2, 2, 1, 2, 2, 2), (1, 2, 2, 3, 2, 2))]
DEEP = [CELLS[1], CELLS[6]]
DEEPK = [("real", "none"), ("complex", "square"), ("struct", "rect")]
KINDS = ("real", "complex", "lowrank", "struct")
CONN = ("none", "square", "rect")


def cases(tier):
  th = tier == "thorough"
  cells = list(CELLS)
  if th:
    cells += [(d, D) for n in (2, 3) for d in [(2,) * n, (3,) + (2,) * (n - 1)]
              for D in itertools.product((1, 2, 3), repeat=n) if (d, D) not in CELLS]
  for d, D in cells:
    n = len(d)
    for kind in KINDS:
      for conn in CONN:
        for c in [None] + list(range(n)):
          depth = {1: 3, 2: 3, 3: 2}[n] + (1 if th else 0)
          if not th and n < 3 and (c != 0 or (d, D) not in DEEP or (kind, conn) not in DEEPK):
            depth -= 1
          if c is None:
            first = [op for op in ops(n) if op[0] in ("can", "gate1", "refuse")]
          else:
            first = ops(n)
          for k in range(0, len(first), 3):
            yield {"d": d, "D": D, "kind": kind, "conn": conn, "c": c, "first": first[k:k + 3],
                   "depth": depth, "be": "numpy"}
  for d, D in LONG:
    n = len(d)
    for kind, conn in (("real", "none"), ("complex", "square"), ("struct", "rect")):
      for c in [None] + list(range(n)):
        depth = 2 if c in (0, n // 2) and kind != "struct" or th else 1
        first = ops(n) if c is not None else [op for op in ops(n) if op[0] in ("can", "gate1")]
        for k in range(0, len(first), 4):
          yield {"d": d, "D": D, "kind": kind, "conn": conn, "c": c, "first": first[k:k + 4],
                 "depth": depth, "be": "numpy"}
  for j, (d, D) in enumerate([CELLS[i] for i in ((1, 6) if not th else range(len(CELLS)))]):
    for kind in ("real", "complex"):
      for op in (["can"], ["pos", 0], ["eigs"]) if th or (kind == "real") == (j == 0) else (["eigs"],):
        yield {"d": d, "D": D, "kind": kind, "conn": CONN[(j + (kind == "real")) % 3],
               "c": len(d) - 1, "first": [op], "depth": 1 if op[0] == "eigs" else 2, "be": "jax"}
  for d, D in (CELLS[1], CELLS[6], CELLS[12]):
    for kind in ("real", "complex"):
      yield {"d": d, "D": D, "kind": kind, "conn": "square", "c": 0,
             "first": [o for o in ops(len(d)) if o[0] == "pos"], "depth": 2, "be": "tensorflow"}


def ops(n):
  out = [["can"], ["can0"], ["canD", 1]]
  for k in range(n):
    out += [["pos", k], ["posn", k]]
  out += [["gate1", n - 1], ["eigs"]]
  if n > 1:
    out += [["canD", 2], ["gate2", n - 2]]
  return out


# -- data -------------------------------------------------------------------
def arr(shape, seed, cplx=False):
  n = int(np.prod(shape))
  j = np.arange(n)
  v = (((j * 29 + seed * 31 + (j * j) % 13 * 5 + (j * seed) % 7 * 3) % 41) - 19.5) / 16.0
  if cplx:
    w = (((j * 23 + seed * 17 + (j * j) % 11 * 9) % 37) - 17.5) / 16.0
    v = v + 1j * w
  return v.reshape(shape)


def build(d, D, kind, conn):
  n = len(d)
  bonds = list(D) + [D[0]]
  right = bonds[-1]
  C = None
  cplx = kind == "complex"
  if conn == "square":
    C = arr((right, right), 71, cplx) / 2 + np.eye(right) * 1.5
  elif conn == "rect":
    right = bonds[-1] + 1
    C = arr((right, bonds[-1]), 73, cplx)
  bonds[-1] = right
  ts = [arr((bonds[i], d[i], bonds[i + 1]), 3 + 5 * i, cplx) for i in range(n)]
  if kind == "lowrank":  # the bond between cells carries one dimension less than it has
    if bonds[0] > 1:
      P = np.outer(arr((bonds[0],), 5), arr((bonds[0],), 6))
      if bonds[0] > 2:
        P = P + np.outer(arr((bonds[0],), 7), arr((bonds[0],), 8))
      ts[0] = np.einsum("ab,bsc->asc", P, ts[0])
  if kind == "struct":
    ts = struct(ts)
  return ts, C


def struct(ts):
  """Diagonal-dominated, nearly periodic tensors with very different Schmidt values."""
  out = []
  for i, t in enumerate(ts):
    z = np.zeros_like(t)
    for a in range(t.shape[0]):
      for s in range(t.shape[1]):
        z[a, s, (a + s + i) % t.shape[2]] += 1.0 / (1 + a + 2 * s)
    out.append(z + 0.01 * t)
  return out


# -- reference --------------------------------------------------------------
def block(ts):
  """One tensor per unit cell (left, all physical, right)."""
  cur = ts[0]
  for t in ts[1:]:
    cur = np.tensordot(cur, t, (-1, 0))
  return cur.reshape(cur.shape[0], -1, cur.shape[-1])


def cell(m):
  """The stackable tensors of the library object, absorbed without its help."""
  ts = [np.asarray(t) for t in m.tensors]
  if m.connector_matrix is not None:
    ts[-1] = np.tensordot(ts[-1], np.asarray(m.connector_matrix), (-1, 0))
  return ts


class Ref:
  """Dense bulk data of one blocked cell tensor."""

  def __init__(self, M):
    self.M = M
    D = M.shape[0]
    E = np.einsum("asb,csd->acbd", M, M.conj()).reshape(D * D, D * D)
    ev, R = np.linalg.eig(E)
    i = np.argmax(ev.real)
    self.eta = ev[i].real
    rest = np.delete(np.abs(ev), i)
    self.gap = (np.abs(ev[i]) - max(rest, default=0.0)) / max(np.abs(ev[i]), 1e-300)
    r = R[:, i].reshape(D, D)
    ev2, L = np.linalg.eig(E.T)
    l = L[:, np.argmax(ev2.real)].reshape(D, D)
    r, l = r / np.trace(r), l / np.trace(l)
    self.r, self.l = (r + r.conj().T) / 2, (l + l.conj().T) / 2
    w, u = np.linalg.eigh(self.l)
    w[w < 1e-14 * w[-1]] = 0
    self.X = np.sqrt(w)[:, None] * u.T
    w2, u2 = np.linalg.eigh(self.r)
    w2[w2 < 1e-14 * w2[-1]] = 0
    self.Y = u2 * np.sqrt(w2)[None, :]
    s = np.linalg.svd(self.X @ self.Y)[1]
    self.schmidt = s / np.linalg.norm(s)

  def rho(self):
    M = self.M
    T = np.tensordot(M, M, (-1, 0))
    if M.shape[1] > 8:  # one cell is enough for large cells
      T = M
    T = T.reshape(M.shape[0], -1, M.shape[2])
    left = np.tensordot(self.l, T, (0, 0))  # c s b
    left = np.tensordot(left, self.r, (-1, 0))  # c s d
    R = np.einsum("csd,ctd->st", left, T.conj())
    return R / np.trace(R)

  def truncated(self, D):
    """The same chain with only the D largest Schmidt values between cells."""
    w, u = np.linalg.eigh(self.l)
    U, s, V = np.linalg.svd(self.X @ self.Y)
    keep = s > 1e-7 * s[0]
    if D is not None:
      keep[D:] = False
    Xinv = np.where(w > 1e-13, 1 / np.sqrt(np.where(w > 1e-13, w, 1)), 0)[None, :] * u.conj()
    A = np.einsum("ak,ab,bsc,cd,dl->ksl", U.conj()[:, keep], self.X, self.M, Xinv, U[:, keep])
    return A


def relerr(a, b):
  return np.max(np.abs(a - b)) / max(1.0, np.max(np.abs(b)))


# -- execution ---------------------------------------------------------------
class Walk:

  def __init__(self, d, rec):
    self.d, self.rec = d, rec
    ts, C = build(tuple(d["d"]), tuple(d["D"]), d["kind"], d["conn"])
    self.ts, self.C = ts, C
    self.cplx = d["kind"] == "complex"
    self.dt = np.dtype("complex128" if self.cplx else "float64")
    self.ok = False
    full = list(ts)
    if C is not None:
      full[-1] = np.tensordot(full[-1], C, (-1, 0))
    self.M0 = block(full)
    self.ok = Ref(self.M0).gap > 0.05

  def fresh(self):
    from tensornetwork.backends import backend_factory
    be = backend_factory.get_backend(self.d["be"])
    self.given = [t.copy() for t in self.ts]
    self.gC = None if self.C is None else self.C.copy()
    conv = (lambda x: x) if self.d["be"] == "numpy" else be.convert_to_tensor
    m = InfiniteMPS([conv(t) for t in self.given], center_position=self.d["c"],
                    connector_matrix=None if self.gC is None else conv(self.gC), backend=self.d["be"])
    return m


def run_case(d, rec):
  w = Walk(d, rec)
  if not w.ok:
    rec.outcome("not injective: excluded")
    return
  alphabet = ops(len(d["d"]))
  if d["be"] == "jax":
    alphabet = [["can"], ["pos", 0], ["eigs"], ["can0"]]
  if d["be"] == "tensorflow":
    alphabet = [o for o in alphabet if o[0] in ("pos", "posn", "gate1", "gate2")]
  for first in d["first"]:
    walk(w, [first], alphabet, d["depth"])


def walk(w, hist, alphabet, depth, parent=None):
  """Executes the last step of the history on its own copy of the state before it."""
  if parent is None:
    m, ref = w.fresh(), Ref(w.M0)
  else:
    m, ref = snapshot(w, parent[0]), parent[1]
  np.random.seed(11)
  ref = step(w, m, ref, hist[-1], hist)
  if ref is None:
    return
  w.rec.step()
  w.rec.state((str(w.d["d"]), str(w.d["D"]), w.d["kind"], w.d["conn"], w.d["c"], w.d["be"], str(hist)))
  if any(not np.array_equal(a, b) for a, b in zip(w.ts, w.given)) or (
      w.C is not None and not np.array_equal(w.C, w.gC)):
    raise Violation("mutated", f"{w.d} {hist}: the caller's tensors changed")
  if len(hist) < depth:
    for op in alphabet:
      if op[0].startswith("gate") and op in hist:
        continue
      walk(w, hist + [op], alphabet, depth, (m, ref))


def snapshot(w, m):
  cp = (lambda x: x.copy()) if w.d["be"] == "numpy" else (lambda x: x)
  return InfiniteMPS([cp(t) for t in m.tensors], center_position=m.center_position,
                     connector_matrix=None if m.connector_matrix is None else cp(m.connector_matrix),
                     backend=w.d["be"])


def step(w, m, ref, op, hist):
  d = w.d
  n = len(d["d"])
  name = op[0]
  what = f"cell d={d['d']} D={d['D']} {d['kind']} connector={d['conn']} center={d['c']} {d['be']}: {hist}"
  kind = name + (":conn" if m.connector_matrix is not None else "")
  before = block(cell(m))
  old_c = m.center_position
  old_iso = iso_profile(m)
  if name == "eigs":
    judge_eigs(w, m, ref, what)
    return ref
  if name == "gate1":
    g = arr((d["d"][op[1]],) * 2, 91, w.cplx) + np.eye(d["d"][op[1]])
    m.apply_one_site_gate(conv(w, g), op[1])
    m.center_position = None if m.center_position != op[1] else m.center_position
    new = Ref(apply(before, g, d["d"], [op[1]]))
  elif name == "gate2":
    if m.center_position is None:
      m.center_position = op[1]
    s = op[1]
    dd = (d["d"][s], d["d"][s + 1])
    g = arr(dd + dd, 93, w.cplx) + np.eye(dd[0] * dd[1]).reshape(dd + dd)
    m.apply_two_site_gate(conv(w, g), s, s + 1)
    new = Ref(apply(before, g.reshape(dd[0] * dd[1], -1), d["d"], [s, s + 1]))
  elif name in ("pos", "posn"):
    if m.center_position is None:
      return None
    Z = m.position(op[1], normalize=name == "pos")
    new = ref
  else:
    kw = {}
    if name == "can0":
      D0 = before.shape[0]
      kw = dict(left_initial_state=conv(w, np.eye(D0, dtype=w.dt) + 0.1 * arr((D0, D0), 5, w.cplx)),
                right_initial_state=conv(w, np.eye(D0, dtype=w.dt) + 0.1 * arr((D0, D0), 6, w.cplx)))
    if name == "canD":
      kw = dict(D=op[1])
      s = ref.schmidt
      if op[1] < len(s) and s[op[1] - 1] - s[op[1]] < 1e-3:
        return None
    m.canonicalize(**kw)
    new = ref
    if name == "canD" and op[1] < np.sum(ref.schmidt > 1e-7):
      new = Ref(ref.truncated(op[1]))
  if new.gap < 0.05:
    w.rec.outcome("not injective: excluded")
    return None
  # -- the state ------------------------------------------------------------
  ts = cell(m)
  for t in m.tensors:
    if np.dtype(str(np.asarray(t).dtype)) != w.dt:
      raise Violation(f"{kind}:dtype", f"{what}: dtype {t.dtype}, want {w.dt}")
  if [t.shape[1] for t in ts] != list(d["d"]):
    raise Violation(f"{kind}:shape", f"{what}: shapes {[t.shape for t in ts]}")
  M = block(ts)
  now = Ref(M)
  tol = 1e-6 if d["kind"] == "lowrank" or ref.schmidt[-1] < 1e-4 else 1e-8
  e = relerr(now.rho(), new.rho())
  if not e < tol:
    raise Violation(f"{kind}:state", f"{what}: the bulk density matrix changed by {e:.2e}")
  a, b = now.schmidt, new.schmidt
  k = max(len(a), len(b))
  e = np.max(np.abs(np.pad(a, (0, k - len(a))) - np.pad(b, (0, k - len(b)))))
  if not e < tol * 10:
    raise Violation(f"{kind}:schmidt", f"{what}: Schmidt values {a}, want {b}")
  w.rec.validated()
  ill = m.connector_matrix is not None and np.max(np.abs(np.asarray(m.connector_matrix))) > 1e6
  if ill:  # a Schmidt value at rounding level was kept: the state is right, its gauge is not resolved
    w.rec.outcome("ill-conditioned connector")
    return now
  # -- the gauge ------------------------------------------------------------
  iso = iso_profile(m)
  if name in ("pos", "posn"):
    c = op[1]
    if m.center_position != c:
      raise Violation(f"{kind}:center", f"{what}: centre {m.center_position}, want {c}")
    if name == "posn" and not relerr(M, before) < 1e-9:
      raise Violation(f"{kind}:cell", f"{what}: the cell tensor changed without normalization")
    nrm = np.linalg.norm(np.asarray(m.tensors[c]))
    if name == "pos":
      q = np.vdot(before, M) / np.vdot(before, before)
      if not relerr(M, q * before) < 1e-8 or abs(np.imag(q)) > 1e-9 * abs(q) or np.real(q) <= 0:
        raise Violation(f"{kind}:cell", f"{what}: the cell tensor is not a positive multiple of the former one")
      if abs(nrm - 1) > 1e-9:
        raise Violation(f"{kind}:norm", f"{what}: centre tensor of norm {nrm}")
    elif abs(np.asarray(Z) - nrm) > 1e-9 * max(1, nrm):
      raise Violation(f"{kind}:norm", f"{what}: position returned {Z}, the centre has norm {nrm}")
    for s in range(n):
      if s == c:
        continue
      if min(old_c, c) <= s <= max(old_c, c):
        want = "l" if s < c else "r"
        if want not in iso[s]:
          raise Violation(f"{kind}:isometry", f"{what}: tensor {s} is not {want}-isometric")
      elif not old_iso[s] <= iso[s]:
        raise Violation(f"{kind}:isometry", f"{what}: tensor {s} lost its gauge")
  if name.startswith("can"):
    if m.center_position != n - 1:
      raise Violation(f"{kind}:center", f"{what}: centre {m.center_position} after canonicalize")
    for s in range(n - 1):
      if "l" not in iso[s]:
        raise Violation(f"{kind}:isometry", f"{what}: tensor {s} is not left isometric")
    if abs(np.linalg.norm(np.asarray(m.tensors[-1])) - 1) > 1e-9:
      raise Violation(f"{kind}:norm", f"{what}: centre tensor not normalized")
    C = np.asarray(m.connector_matrix)
    lam = 1 / np.diag(C)
    if np.max(np.abs(C - np.diag(np.diag(C)))) > 1e-9 or np.any(lam.real <= 0) or np.any(
        np.diff(lam.real) > 1e-12):
      raise Violation(f"{kind}:lambda", f"{what}: connector {C} is not the inverse of Schmidt values")
    full = ref.schmidt if name != "canD" else ref.schmidt[:op[1]]
    full = full / np.linalg.norm(full)
    k = len(lam)
    if k > len(full) or np.max(np.abs(lam - full[:k])) > tol * 10 or np.linalg.norm(full[k:]) > 1e-6:
      raise Violation(f"{kind}:lambda", f"{what}: Schmidt values {lam}, want {full}")
    if not (name == "canD" and op[1] < np.sum(ref.schmidt > 1e-7)):
      if abs(now.eta - 1) > tol:
        raise Violation(f"{kind}:eta", f"{what}: dominant transfer eigenvalue {now.eta}")
      if M.shape[0] == k:
        G = np.einsum("asb,asc->bc", M.conj(), M)
        if relerr(G, np.eye(k)) > 1e2 * tol:
          raise Violation(f"{kind}:left", f"{what}: the cell is not left canonical")
        B = (1 / lam)[:, None, None] * M * lam[None, None, :]
        G = np.einsum("asb,csb->ac", B, B.conj())
        if relerr(G, np.eye(k)) > 1e3 * tol / max(lam[-1].real, 1e-3):
          raise Violation(f"{kind}:right", f"{what}: the cell is not right canonical")
  if n > 1 and m.center_position is not None and (name.startswith("can") or "can" in [h[0] for h in hist]) \
      and not any(h[0].startswith("gate") for h in hist):
    cc = abs(np.asarray(m.check_canonical()))
    if cc > 1e-5:
      raise Violation(f"{kind}:check_canonical", f"{what}: check_canonical reports {cc} for a canonical chain")
  for s in range(n):
    if relerr(np.asarray(m.get_tensor(s)), ts[s]) > 1e-12:
      raise Violation(f"{kind}:get_tensor", f"{what}: get_tensor({s})")
  if list(m.bond_dimensions) != [t.shape[0] for t in m.tensors] + [m.tensors[-1].shape[2]]:
    raise Violation(f"{kind}:bonds", f"{what}: bond dimensions {m.bond_dimensions}")
  return now


def conv(w, x):
  if w.d["be"] == "numpy":
    return x
  from tensornetwork.backends import backend_factory
  return backend_factory.get_backend(w.d["be"]).convert_to_tensor(x.astype(w.dt))


def apply(M, g, d, sites):
  a = M.reshape((M.shape[0],) + tuple(d) + (M.shape[2],))
  dd = [d[s] for s in sites]
  a = np.moveaxis(a, [s + 1 for s in sites], range(len(sites)))
  sh = a.shape
  a = (g @ a.reshape(int(np.prod(dd)), -1)).reshape(sh)
  a = np.moveaxis(a, range(len(sites)), [s + 1 for s in sites])
  return a.reshape(M.shape)


def iso_profile(m):
  """Per stored tensor the set of directions in which it is isometric."""
  out = []
  for t in m.tensors:
    t = np.asarray(t)
    s = set()
    if relerr(np.einsum("asb,asc->bc", t.conj(), t), np.eye(t.shape[2])) < 1e-8:
      s.add("l")
    if relerr(np.einsum("asb,csb->ac", t, t.conj()), np.eye(t.shape[0])) < 1e-8:
      s.add("r")
    out.append(s)
  return out


def judge_eigs(w, m, ref, what):
  """Transfer operators and their dominant eigenpairs in every spelling."""
  M = block(cell(m))
  D = M.shape[0]
  x = arr((D, D), 41, w.cplx)
  for dirs, left in (((1, "l", "left"), True), ((-1, "r", "right"), False)):
    want = (np.einsum("asb,ac,csd->bd", M, x, M.conj()) if left else
            np.einsum("asb,bd,csd->ac", M, x, M.conj()))
    for dr in dirs:
      got = np.asarray(m.unit_cell_transfer_operator(dr, conv(w, x)))
      if relerr(got, want) > 1e-9:
        raise Violation("eigs:operator", f"{what}: unit cell transfer operator {dr!r}")
      if w.d["be"] == "jax" and not isinstance(dr, int):
        continue
      for init in (None, conv(w, np.eye(D, dtype=w.dt) + 0.1 * x)):
        np.random.seed(12)
        eta, v = m.transfer_matrix_eigs(dr, initial_state=init)
        eta, v = np.asarray(eta), np.asarray(v)
        now = Ref(M)
        if not w.cplx and (np.iscomplexobj(eta) or np.iscomplexobj(v)):
          raise Violation("eigs:dtype", f"{what}: complex eigenpair of a real chain")
        if abs(eta - now.eta) > 1e-7 * max(1, now.eta):
          raise Violation("eigs:value", f"{what}: eigenvalue {eta}, want {now.eta}")
        tv = (np.einsum("asb,ac,csd->bd", M, v, M.conj()) if left else
              np.einsum("asb,bd,csd->ac", M, v, M.conj()))
        if np.linalg.norm(v) < 1e-12 or np.linalg.norm(tv - eta * v) > 1e-6 * np.linalg.norm(v) * max(1, abs(eta)):
          raise Violation("eigs:vector", f"{what}: not an eigenvector ({dr!r})")
  # single sites, with the connector absorbed into the last one
  for s, t in enumerate(cell(m)):
    l, r = arr((t.shape[0],) * 2, 42, w.cplx), arr((t.shape[2],) * 2, 43, w.cplx)
    a = np.asarray(m.apply_transfer_operator(s, "l", conv(w, l)))
    b = np.asarray(m.apply_transfer_operator(s, "r", conv(w, r)))
    if relerr(a, np.einsum("asb,ac,csd->bd", t, l, t.conj())) > 1e-10 or relerr(
        b, np.einsum("asb,bd,csd->ac", t, r, t.conj())) > 1e-10:
      raise Violation("eigs:operator", f"{what}: transfer operator of site {s}")
  w.rec.outcome("eigs")

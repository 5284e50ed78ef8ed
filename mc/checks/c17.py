"""C17: Krylov solvers return genuine solutions of the operator they are given."""
import itertools
import warnings
import numpy as np
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from tensornetwork.linalg import krylov
from mc import bsx
from mc.core import Violation

TITLE = "Krylov solvers against exact Rayleigh-Ritz and residual oracles"
LEVEL = "model_checking"
RULE = ("every operator of an integer matrix family (all hermitian 3x3 over {-1,0,1}, complex "
        "hermitian 2x2, all 2x2 over a 4-letter alphabet, all 3x3 over {0,1}, and a list of "
        "special 4x4 and 6x6 matrices) x start vector x shape x subspace size x number of pairs "
        "x selector x reorthogonalization x restarts, on the numpy, jax and symmetric backends "
        "and through tensornetwork.linalg; plus every history of up to three solver calls of "
        "different kinds and shapes sharing one operator object")
ASSUMPTIONS = [
    "the start vector is not zero; the number of pairs does not exceed the dimension of the "
    "space reachable from it where the backend documents spurious values beyond that",
    "eigs of the numpy and symmetric backends inside ARPACK's domain (k < N - 1, ncv <= N)",
    "eigenvalue order compared up to ties; degenerate operators only by membership and residual",
    "restarted jax eigensolvers only on operators where restarting converges"]
BOUNDS = {
    "quick": "operators of dimension 2..6 as listed, start vectors over {-1,0,1}, 1..3 pairs, "
             "gmres restarts 1..4",
    "thorough": "every start vector for every matrix, all 3x3 matrices over {-1,0,1}, more dtypes",
}
BOUNDS["quick"] += "; larger operators (dimension 8-30) with fixed start vectors"
PROCS = 8


# ---- operators ----------------------------------------------------------------------
def herm(n, diag, off):
  iu = list(itertools.combinations(range(n), 2))
  for d in itertools.product(diag, repeat=n):
    for o in itertools.product(off, repeat=len(iu)):
      a = np.diag(np.array(d, dtype=complex))
      for (i, j), v in zip(iu, o):
        a[i, j], a[j, i] = v, np.conj(v)
      yield a


def general(n, letters):
  for v in itertools.product(letters, repeat=n * n):
    yield np.array(v, dtype=complex).reshape((n, n))


def special(n):
  """named matrices of dimension n"""
  e = np.eye(n)
  up = np.eye(n, k=1)
  cyc = np.roll(e, 1, axis=0)
  k = np.arange(1, n + 1)
  lap = 2 * e - up - up.T
  out = {
      "identity": e, "minus": -e, "zero": 0 * e, "distinct": np.diag(k), "negative": -np.diag(k),
      "mixed": np.diag((-1.0) ** k * k), "degenerate": np.diag(k // 2 + 1.0),
      "path": up + up.T, "laplace": lap, "neglap": -lap, "ones": np.ones((n, n)),
      "projector": np.diag((k <= n // 2).astype(float)), "shift": up, "jordan": 2 * e + up,
      "cycle": cyc, "cycle2": cyc + 3 * np.diag(k), "triangle": np.triu(np.ones((n, n))),
      "wilk": np.diag(np.abs(k - (n + 1) / 2)) + up + up.T,
      "skew": up - up.T, "companion": up + np.outer(e[-1], [1, -1, 2, -2, 1, 3][:n]),
      "nonnormal": np.diag(k) + 3 * np.triu(np.ones((n, n)), 1),
      "rank1": np.outer(k, k[::-1]), "far": np.diag(3.0 ** (k - 1)) + up + up.T,
      "block": np.kron(np.eye((n + 1) // 2), [[0, 1], [1, 0]])[:n, :n],
      "herm": np.diag(k) + 1j * up - 1j * up.T, "phase": np.diag(1j ** k),
      "chiral": cyc * 1j + 2 * e,
  }
  return {m: np.asarray(a, dtype=complex) for m, a in out.items()}


def vectors(n, cplx=False):
  out = []
  for v in itertools.product((0, 1, -1), repeat=n):
    nz = [x for x in v if x]
    if nz and nz[0] == 1:
      out.append(np.array(v, dtype=complex))
  if cplx:
    out += [np.array([1, 1j] + [0] * (n - 2)), np.array([1j] + [1] * (n - 1))]
  return out


def few(n):
  e = np.eye(n)
  k = np.arange(1, n + 1)
  return [e[0], e[n - 1], e[0] + e[1], np.ones(n), 1.0 * k, (-1.0) ** k, np.cos(k), 5e-3 * k]


FAMS = {
    "h3": lambda: list(herm(3, (-1, 0, 1), (-1, 0, 1))),
    "h2c": lambda: list(herm(2, (-1, 0, 1, 2), (0, 1, -1, 1j, -1j, 1 + 1j))),
    "h3c": lambda: list(herm(3, (0, 1), (0, 1, 1j))),
    "g2": lambda: list(general(2, (-1, 0, 1, 2))),
    "g2c": lambda: list(general(2, (0, 1, 1j, -1))),
    "g3": lambda: list(general(3, (0, 1))),
    "g3s": lambda: list(general(3, (-1, 0, 1))),
    "s4": lambda: list(special(4).values()),
    "s6": lambda: list(special(6).values()),
    "s5": lambda: list(special(5).values()),
}
SHAPES = {2: [(2,), (1, 2)], 3: [(3,), (3, 1)], 4: [(4,), (2, 2)], 5: [(5,)],
          6: [(6,), (2, 3), (1, 2, 3)]}


def is_h(a):
  return np.allclose(a, a.conj().T)


def basis(a, x, m):
  """Orthonormal basis of the Krylov space of dimension at most m, and whether it is whole."""
  q = []
  v = x / np.linalg.norm(x)
  scale = max(1.0, np.abs(a).max())
  while len(q) < m:
    for _ in range(2):
      for w in q:
        v = v - np.vdot(w, v) * w
    nv = np.linalg.norm(v)
    if q and nv < 1e-9 * scale:
      return np.array(q).T, True
    q.append(v / nv)
    v = a @ q[-1]
  for _ in range(2):
    for w in q:
      v = v - np.vdot(w, v) * w
  return np.array(q).T, bool(np.linalg.norm(v) < 1e-9 * scale)


def fits(a, dt):
  return np.dtype(dt).kind == "c" or not np.abs(a.imag).max()


# ---- backends -----------------------------------------------------------------------
def mv(x, h):
  """The operator: h has the legs (out..., in...)."""
  r = x.ndim
  import jax.numpy as jnp
  t = np.tensordot if isinstance(x, np.ndarray) else jnp.tensordot
  return t(h, x, (list(range(r, 2 * r)), list(range(r))))


def same_object(x):
  return x


SYM = {}


class World:
  """How one backend sees the operator a acting on tensors of the shape."""

  def __init__(self, be, shape, dt):
    self.be, self.shape, self.dt = be, shape, np.dtype(dt)
    self.b = backend_factory.get_backend("symmetric" if be.startswith("sym") else be)

  def vec(self, x):
    d = np.asarray(x).reshape(self.shape)
    d = (d if self.dt.kind == "c" else np.real(d)).astype(self.dt)
    return self.b.convert_to_tensor(np.array(d, order="C"))

  def op(self, a):
    d = np.asarray(a).reshape(self.shape * 2)
    d = (d if self.dt.kind == "c" else np.real(d)).astype(self.dt)
    return self.b.convert_to_tensor(np.array(d))

  mv = staticmethod(mv)

  def read(self, t):
    return np.array(t).reshape(-1)

  def tolerance(self):
    return 2e-3 if self.dt in (np.dtype("float32"), np.dtype("complex64")) else 2e-6


class SymWorld(World):
  """The sector of total charge zero of a block-sparse space carries the operator.

  The legs are chosen so that the sector has exactly the dimension of the matrix.
  """
  LEGS = {2: [[0, 0]], 3: [[0, 1, 0, 2, 0]], 4: [[0, 1], [0, 1, 0, -1]],
          5: [[0, 1], [0, 1, 0, 0, -1]], 6: [[0, 1, -1], [0, 1, -1, 0], [0]]}
  # counted below: positions of total charge zero

  def __init__(self, be, shape, dt):
    super().__init__(be, shape, dt)
    n = int(np.prod(shape))
    self.variant = be[3:]
    legs = [[(q,) for q in l] for l in self.legs(n)]
    self.legs_, self.flows = legs, [False] * len(legs)
    self.dims = [len(l) for l in legs]
    m = bsx.mask("U", legs, self.flows).ravel()
    self.pos = np.nonzero(m)[0][:]
    if len(self.pos) != n:
      raise RuntimeError(f"sector of {n} has {len(self.pos)}")
    D = len(m)
    self.D = D

  @staticmethod
  def legs(n):
    return {12: [[0, 1], [0] * 6 + [-1] * 6], 30: [[0, 1], [0] * 15 + [-1] * 15],
            2: [[0, 0, 1]], 3: [[0, 1, 0, 2, 0]], 4: [[0, 1], [0, 0, -1, -1]],
            5: [[0, 1], [0, 0, 0, -1, -1]], 6: [[0, 1, -1], [0, 0, -1, 1, 1, -1]]}[n]

  def _t(self, dense, legs, flows):
    idx = [bsx.index("U", q, f) for q, f in zip(legs, flows)]
    return bsx.BlockSparseTensor.fromdense(idx, dense)

  def vec(self, x):
    d = np.zeros(self.D, dtype=self.dt)
    d[self.pos] = x if self.dt.kind == "c" else np.real(x)
    d = d.reshape(self.dims)
    t = self._t(d, self.legs_, self.flows)
    if self.variant == "T" and len(self.dims) == 2:
      # the same tensor with another storage order
      t = self._t(d.T.copy(), self.legs_[::-1], self.flows).transpose((1, 0))
    return t

  def op(self, a):
    d = np.zeros((self.D, self.D), dtype=self.dt)
    d[np.ix_(self.pos, self.pos)] = a if self.dt.kind == "c" else np.real(a)
    r = len(self.dims)
    return self._t(d.reshape(self.dims * 2), self.legs_ * 2, [False] * r + [True] * r)

  def mv(self, x, h):
    r = x.ndim
    if self.variant == "T":
      # contract so that the result has its legs stored in another order
      y = self.b.tensordot(x, h, (list(range(r)), list(range(r, 2 * r))))
      return y
    return self.b.tensordot(h, x, (list(range(r, 2 * r)), list(range(r))))

  def read(self, t):
    d = t.todense().reshape(-1)
    rest = np.delete(d, self.pos)
    if rest.size and np.abs(rest).max() > 0:
      raise Violation("symmetric:charge", "elements outside the sector")
    if list(t.shape) != self.dims:
      raise Violation("symmetric:shape", f"{t.shape} {self.dims}")
    return d[self.pos]


def world(be, shape, dt):
  key = (be, shape, str(dt))
  if key not in SYM:
    SYM[key] = (SymWorld if be.startswith("sym") else World)(be, tuple(shape), dt)
  return SYM[key]


def frozen(t):
  """What the caller can see of a tensor."""
  if hasattr(t, "todense"):
    return (t.todense().tobytes(), str(t.dtype), tuple(t.shape), str(list(t.flat_flows)),
            str([bsx.read(c) for c in t.flat_charges]))
  return np.array(t).tobytes()


# ---- judging --------------------------------------------------------------------------
def pairs(what, w, a, vals, vecs, tol, noresidual=False):
  """Every returned pair is a normalized eigenpair; returns the values."""
  vals = np.asarray(vals).reshape(-1)
  if len(vals) != len(vecs):
    raise Violation(what + ":count", f"{len(vals)} values, {len(vecs)} vectors")
  out = []
  for val, vec in zip(vals, vecs):
    if not hasattr(vec, "todense") and tuple(vec.shape) != tuple(w.shape):
      raise Violation(what + ":shape", f"{vec.shape} instead of {w.shape}")
    v = w.read(vec)
    if not np.all(np.isfinite(v)) or not np.isfinite(val):
      raise Violation(what + ":nan", f"value {val} vector {v} of {a.tolist()}")
    if abs(np.linalg.norm(v) - 1) > tol:
      raise Violation(what + ":norm", f"norm {np.linalg.norm(v)}")
    r = np.linalg.norm(a @ v - val * v)
    if r > tol * (1 + np.abs(a).max()) and not noresidual:
      raise Violation(what + ":residual", f"|Av-lv|={r} for l={val} of {a.real.tolist()}")
    out.append(val)
  return np.array(out)


def call(what, f):
  try:
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      return f()
  except Violation:
    raise
  except Exception as e:  # pylint: disable=broad-except
    raise Violation(what + f":{type(e).__name__}", f"{e}"[:300])


def check_lanczos(rec, w, a, x, m, k, reo, ndiag, front=False, kw=None, opf=None):
  """eigsh_lanczos against exact Rayleigh-Ritz on the Krylov space."""
  what = f"{w.be}:lanczos"
  q, whole = basis(a, x, m)
  d = q.shape[1]
  if k > d and w.be == "jax":
    return
  kk = min(k, d)
  # breakdown is only recognisable above the rounding of the dtype
  delta = 1e-8 if w.tolerance() < 1e-4 else 1e-3
  v0, h = w.vec(x), w.op(a)
  pre = frozen(v0), frozen(h)
  args = [h]
  f = opf or w.mv
  if opf is same_object:
    args = []
  if front:
    def A(t, *r):
      return tn.Tensor(f(t.array, *[y.array for y in r]), backend=w.b)
    vals, vecs = call(what, lambda: krylov.eigsh_lanczos(
        A, x0=tn.Tensor(v0, backend=w.b), args=[tn.Tensor(y, backend=w.b) for y in args],
        num_krylov_vecs=m, numeig=k, reorthogonalize=reo, ndiag=ndiag, delta=delta))
    vecs = [y.array for y in vecs]
  else:
    vals, vecs = call(what, lambda: w.b.eigsh_lanczos(
        f, args=args, initial_state=v0, num_krylov_vecs=m, numeig=k, reorthogonalize=reo,
        ndiag=ndiag, delta=delta, **(kw or {})))
  rec.step()
  if (frozen(v0), frozen(h)) != pre:
    raise Violation(what + ":mutates", f"the start vector or the operator's argument changed "
                    f"(x={x.tolist()})")
  tol = w.tolerance()
  t = q.conj().T @ a @ q
  ev, u = np.linalg.eigh((t + t.conj().T) / 2)
  vals = np.asarray(vals)
  if len(vals) != len(vecs) or len(vals) != kk:
    raise Violation(what + ":count", f"{len(vals)} {len(vecs)} expected {kk}")
  sc = 1 + np.abs(a).max()
  if not np.allclose(vals, ev[:kk], atol=tol * sc):
    raise Violation(what + ":values", f"{vals} expected {ev[:kk]} a={a.tolist()} "
                    f"x={x.tolist()} m={m} k={k} reo={reo} ndiag={ndiag}"[:600])
  for i, vec in enumerate(vecs):
    v = w.read(vec)
    ref = q @ u[:, i]
    ov = abs(np.vdot(ref, v))
    if not np.all(np.isfinite(v)) or abs(np.linalg.norm(v) - 1) > tol or abs(ov - 1) > tol:
      raise Violation(what + ":vector", f"norm {np.linalg.norm(v)} overlap {ov} a={a.tolist()} "
                      f"x={x.tolist()} m={m} k={k}"[:600])
    if w.b.name != "symmetric" and vec.dtype != w.dt:
      raise Violation(what + ":dtype", f"{vec.dtype}")
  if whole:
    try:
      pairs(what, w, a, vals, vecs, tol)
    except Violation as e:
      raise Violation(e.sig, e.msg + f" x={x.tolist()} m={m} k={k} reo={reo} ndiag={ndiag} "
                      f"dt={w.dt}")
  rec.outcome("whole" if whole else "ritz")


KEYS = {"LM": lambda z: -np.abs(z), "SM": np.abs, "LR": lambda z: -np.real(z), "SR": np.real,
        "LA": lambda z: -np.real(z), "SA": np.real}


def simple(ev, sc):
  d = np.abs(ev[:, None] - ev[None, :]) + np.eye(len(ev)) * 99
  return len(ev) == 1 or d.min() > 1e-2 * sc


def check_arnoldi(rec, w, a, x, m, k, which, solver="eigs", maxiter=None, front=False, kw=None,
                  opf=None, tol=None):
  """eigs / eigsh: genuine pairs, the extreme ones of the reachable space."""
  what = f"{w.be}:{solver}"
  n = len(a)
  q, whole = basis(a, x, n)
  d = q.shape[1]
  if w.be == "jax" and k > d:
    return
  if w.be == "jax" and not (m >= d or maxiter):
    return
  v0, h = w.vec(x), w.op(a)
  pre = frozen(v0), frozen(h)
  o = dict(num_krylov_vecs=m, numeig=k, which=which)
  if maxiter is not None:
    o["maxiter"] = maxiter
  if tol is not None:
    o["tol"] = tol
  f = opf or w.mv
  full = np.linalg.eigvals(a)
  key = KEYS[which]
  defect = not simple(full, 1 + np.abs(a).max())
  if w.be != "jax":
    # ARPACK (and SciPy's extraction of a cut conjugate pair) on a tie between
    # different pairs
    kv = full[np.argsort(key(full), kind="stable")]
    tie = [z for z in kv if abs(key(z) - key(kv[k - 1])) < 1e-6]
    cut = any(abs(key(z) - key(kv[k - 1])) < 1e-6 for z in kv[k:])
    if cut and not (len(tie) == 2 and abs(tie[0] - np.conj(tie[1])) < 1e-6):
      rec.outcome("tie at the cut")
      return
  if front:
    def A(t, *r):
      return tn.Tensor(f(t.array, *[y.array for y in r]), backend=w.b)
    vals, vecs = call(what, lambda: getattr(krylov, solver)(
        A, x0=tn.Tensor(v0, backend=w.b), args=[tn.Tensor(h, backend=w.b)], **o))
    vecs = [y.array for y in vecs]
  else:
    try:
      vals, vecs = call(what, lambda: getattr(w.b, solver)(
          f, args=[h], initial_state=v0, **o, **(kw or {})))
    except Violation as e:
      if "Arpack" in e.sig and (defect or d < n or m < n):
        rec.outcome("refused by ARPACK")
        return
      raise Violation(e.sig, e.msg + f" a={a.tolist()} x={x.tolist()} m={m} k={k} {which}")
  rec.step()
  if (frozen(v0), frozen(h)) != pre:
    raise Violation(what + ":mutates", "the start vector or the operator's argument changed")
  t0 = w.tolerance()
  vals = np.asarray(vals)
  if len(vals) != k:
    raise Violation(what + ":count", f"{len(vals)} instead of {k}")
  sc = 1 + np.abs(a).max()
  ctx = f" a={a.tolist()} x={x.tolist()} m={m} k={k} {which} maxiter={maxiter}"[:500]
  t = q.conj().T @ a @ q
  ev = np.linalg.eigvals(t)
  if w.be == "jax":
    defect = not simple(ev, sc)
  loose = t0 if not defect else max(t0 ** 0.4, 2e-2)
  try:
    # LAPACK's vectors of a defective eigenvalue need not be accurate
    got = pairs(what, w, a, vals, vecs, max(t0, 1e-6) * (1 if not defect else 30),
                defect and w.be == "jax")
  except Violation as e:
    raise Violation(e.sig, e.msg + ctx)
  # ARPACK leaves an exhausted Krylov space through random vectors
  ref = ev if (w.be == "jax" or d == n) else None
  if ref is None:
    for g in got:
      if np.abs(full - g).min() > loose * sc:
        raise Violation(what + ":values", f"{got} not eigenvalues {full}" + ctx)
    rec.outcome("membership")
    return
  want = np.sort(key(ref))[:k]
  have = key(got)
  if np.abs(np.sort(have) - want).max() > loose * sc:
    raise Violation(what + ":selection", f"{got} of {ref}" + ctx)
  for g in got:
    if np.abs(ref - g).min() > loose * sc:
      raise Violation(what + ":values", f"{got} of {ref}" + ctx)
  if not defect and k > 1:
    dist = np.abs(got[:, None] - got[None, :]) + np.eye(k) * 9
    if dist.min() < 1e-4:
      raise Violation(what + ":repeated", f"{got} of {ref}" + ctx)
  if w.be == "jax" and np.any(np.diff(have) < -loose * sc):
    raise Violation(what + ":order", f"{got}" + ctx)
  rec.outcome("selected" if not defect else "defective")


def ref_gmres(a, b, x, m, cycles, target):
  for _ in range(cycles):
    r = b - a @ x
    if np.linalg.norm(r) <= target:
      break
    q, _ = basis(a, r, m)
    y = np.linalg.lstsq(a @ q, r, rcond=None)[0]
    x = x + q @ y
  return np.linalg.norm(b - a @ x)


def check_gmres(rec, w, a, b, x0, m, maxiter, tol, atol, front=False, kw=None, opf=None):
  what = f"{w.be}:gmres"
  n = len(a)
  nb = np.linalg.norm(b)
  target = max(tol * nb, tol if atol is None else atol)
  B, h = w.vec(b), w.op(a)
  X = None if x0 is None else w.vec(x0)
  pre = frozen(B), frozen(h), None if X is None else frozen(X)
  o = dict(tol=tol, maxiter=maxiter)
  if atol is not None:
    o["atol"] = atol
  if m is not None:
    o["num_krylov_vectors"] = m
  f = opf or w.mv
  if front:
    def A(t, *r):
      return tn.Tensor(f(t.array, *[y.array for y in r]), backend=w.b)
    xs, info = call(what, lambda: krylov.gmres(
        A, tn.Tensor(B, backend=w.b), A_args=[tn.Tensor(h, backend=w.b)],
        x0=None if X is None else tn.Tensor(X, backend=w.b), **o))
    xs = xs.array
  else:
    xs, info = call(what, lambda: w.b.gmres(f, B, A_args=[h], x0=X, **o, **(kw or {})))
  rec.step()
  if (frozen(B), frozen(h), None if X is None else frozen(X)) != pre:
    raise Violation(what + ":mutates", "b, x0 or the operator's argument changed")
  if not hasattr(xs, "todense") and (tuple(xs.shape) != tuple(w.shape) or xs.dtype != w.dt):
    raise Violation(what + ":shape", f"{xs.shape} {xs.dtype}")
  s = w.read(xs)
  res = np.linalg.norm(b - a @ s)
  eps = 1e-4 if w.tolerance() > 1e-4 else 1e-10
  slack = eps * (1 + np.abs(a).max()) * (1 + np.abs(s).max() + nb)
  ctx = (f" info={info} residual={res} target={target} a={a.tolist()} b={b.tolist()} "
         f"x0={None if x0 is None else x0.tolist()} m={m} maxiter={maxiter} tol={tol}"
         f" atol={atol}"[:600])
  if info < 0 or int(info) != info or info > maxiter * n:
    raise Violation(what + ":info", ctx)
  if info == 0 and not res <= target * (1 + 1e-6) + slack:
    raise Violation(what + ":false convergence", ctx)
  if info != 0 and res < 0.99 * target - slack:
    raise Violation(what + ":false failure", ctx)
  if abs(np.linalg.det(a)) < 1e-9:
    rec.outcome("singular")
    return
  start = np.zeros(n) if x0 is None else x0
  best = ref_gmres(a, b, start.astype(complex), n if m is None else min(m, n), maxiter, target)
  if not res <= max(best * (1 + 1e-5), target) + 30 * slack:
    raise Violation(what + ":not minimal", f"restarted gmres reaches {best}" + ctx)
  rec.outcome("converged" if info == 0 else "not converged")


# ---- the space ------------------------------------------------------------------------
def chunks(fam, size):
  n = len(FAMS[fam]())
  return [(i, min(i + size, n)) for i in range(0, n, size)]


def cases(tier):
  th = tier == "thorough"
  for be in ("numpy", "sym", "symT", "jax"):
    jx, sy = be == "jax", be.startswith("sym")
    for fam, size in (("h3", 250), ("h2c", 200), ("h3c", 120), ("s4", 9), ("s6", 9), ("s5", 9)):
      if (be == "symT" and fam not in ("s4", "s6")) or (sy and fam == "h3c" and not th):
        continue
      for lo, hi in chunks(fam, 999 if jx else size):
        yield {"m": "lanczos", "be": be, "fam": fam, "lo": lo, "hi": hi, "th": th}
    for fam, size in (("g2", 300), ("g2c", 300), ("g3", 130), ("s4", 9), ("s6", 9), ("s5", 9)) + (
        (("g3s", 2000),) if th and not sy else ()):
      if not jx and fam in ("g2", "g2c"):
        pass
      elif be == "symT" and fam not in ("s4", "s6"):
        continue
      else:
        for lo, hi in chunks(fam, 999 if jx else size):
          yield {"m": "eigs", "be": be, "fam": fam, "lo": lo, "hi": hi, "th": th}
      if be == "symT" and fam not in ("s4", "s6"):
        continue
      for lo, hi in chunks(fam, size):
        yield {"m": "gmres", "be": be, "fam": fam, "lo": lo, "hi": hi, "th": th}
    if jx:
      for fam in ("h3", "h2c", "s4", "s6", "s5"):
        yield {"m": "eigsh", "be": be, "fam": fam, "lo": 0, "hi": 999, "th": th}
    yield {"m": "front", "be": be, "th": th}
    for first in range(6 if jx and not th else 9 if not sy else 6):
      yield {"m": "history", "be": be, "first": first, "th": th}
    yield {"m": "refuse", "be": be, "th": th}
    yield {"m": "random", "be": be, "th": th}
    yield {"m": "restart", "be": be, "th": th}
    for n in (12, 30):
      for spec in range(6):
        for part in ("lanczos", "arnoldi"):
          if be != "jax" or (n == 12 and spec in (0, 1, 4)) or th:
            yield {"m": "large", "be": be, "n": n, "spec": spec, "part": part, "th": th}


def mats(desc):
  return FAMS[desc["fam"]]()[desc["lo"]:desc["hi"]]


def thin(seq, desc, keep):
  """All of it in the thorough tier, every keep-th element otherwise."""
  return seq if desc["th"] else seq[::keep]


def run_lanczos(desc, rec):
  be = desc["be"]
  fam = desc["fam"]
  jx, sy = be == "jax", be.startswith("sym")
  for ia, a in enumerate(mats(desc)):
    if not is_h(a):
      continue
    n = len(a)
    small = n <= 3
    xs = vectors(n, fam.endswith("c")) if small else few(n)
    dts = ["complex128"] if np.abs(a.imag).max() else ["float64"]
    if not small and not jx:
      dts = [d for d in ("float64", "complex128", "float32", "complex64") if fits(a, d)]
      if np.abs(a).max() > 50:    # beyond single precision without reorthogonalization
        dts = dts[:-2] if len(dts) == 4 else dts[:1]
    if small and (sy or jx) and not desc["th"]:
      xs = xs[ia % 4::4] if jx else xs[ia % 7::7]
    if small and be == "numpy" and not desc["th"]:
      xs = xs[ia % 2::2]
    if jx and not small and not desc["th"]:
      xs = xs[ia % 2::2]
    for x in xs:
      for dt in dts:
        dtx = "complex128" if np.abs(np.imag(x)).max() and np.dtype(dt).kind != "c" else dt
        shapes = SHAPES[n] if not (sy or jx) else SHAPES[n][-1:]
        for shape in shapes:
          w = world(be, shape, dtx)
          if small:
            opts = [(n, 1, False, 20), (n, n, True, 1), (n + 2, 2, True, 20), (2, 1, True, 1),
                    (1, 1, False, 20), (n + 3, 1, False, 1)]
            if jx:
              opts = [(n, 1, False, 20), (n + 1, 2, True, 20), (2, 1, True, 1)]
            elif sy:
              opts = [(n, 1, False, 20), (n + 2, 2, True, 1), (2, 1, True, 20)]
          else:
            opts = [(n, 1, False, 20), (n, n - 1, True, 1), (n, 2, True, 2), (n + 3, 3, True, 20),
                    (3, 2, True, 1), (2, 1, False, 1)]
            if jx:
              opts = opts[:1] + [(n + 1, 3, True, 20), (3, 2, True, 1)]
            elif sy and not desc["th"]:
              opts = opts[:4:3] + opts[4:]
          for m, k, reo, nd in opts:
            check_lanczos(rec, w, a, x, m, k, reo, nd)
    if np.allclose(a, np.eye(n)):
      for shape in SHAPES[n][-1:]:
        w = world(be, shape, "float64")
        for m, k, reo in ((1, 1, False), (n, 1, True)):
          check_lanczos(rec, w, a, few(n)[4].astype(complex), m, k, reo, 20, opf=same_object)
    rec.state((be, "lanczos", fam, desc["lo"] + ia))


def run_eigs(desc, rec, solver="eigs"):
  be, fam = desc["be"], desc["fam"]
  jx, sy = be == "jax", be.startswith("sym")
  for ia, a in enumerate(mats(desc)):
    n = len(a)
    if solver == "eigsh" and not is_h(a):
      continue
    small = n <= 3
    xs = vectors(n) if small else few(n)[:7]
    if small and not desc["th"]:
      xs = [xs[(ia + i) % len(xs)] for i in ((0, 5) if not sy else (0,))]
    elif jx and not desc["th"]:
      xs = xs[ia % 2::2]
    elif sy and not desc["th"]:
      xs = xs[ia % 3::3]
    dts = ["complex128"] if np.abs(a.imag).max() else ["float64"]
    if not small and not jx and not sy:
      dts = [d for d in ("float64", "complex128", "float32") if fits(a, d)]
    for x in xs:
      x = np.asarray(x, dtype=complex)
      for dt in dts:
        shapes = SHAPES[n] if not (sy or jx) else SHAPES[n][-1:]
        if small:
          shapes = shapes[ia % len(shapes):][:1]
        for shape in shapes:
          w = world(be, shape, dt)
          if jx:
            sel = ("LR", "LM") if solver == "eigs" else ("SA", "LA", "LM")
            opts = [(n, k) for k in ((1, 2) if small else (1, 3))]
            for which in sel:
              for m, k in opts:
                for mi in ((1,) if (k == 1) != (which == sel[0]) else (20,)):
                  check_arnoldi(rec, w, a, x, m, k, which, solver, mi)
          else:
            for which in ("LM", "LR", "SR", "SM"):
              for m, k in [(n, k) for k in range(1, n - 1)][:2]:
                if n == 6 and k == 2 and which == "LR":
                  m = 5
                check_arnoldi(rec, w, a, x, m, k, which)
    rec.state((be, solver, fam, desc["lo"] + ia))


def run_gmres(desc, rec):
  be, fam = desc["be"], desc["fam"]
  jx, sy = be == "jax", be.startswith("sym")
  for ia, a in enumerate(mats(desc)):
    n = len(a)
    small = n <= 3
    xs = vectors(n) if small else few(n)
    if sy and not desc["th"] and ((small and ia % 2) or (not small and be == "symT" and ia % 3)):
      continue
    bs = xs if desc["th"] else [xs[(ia + i) % len(xs)] for i in ((0, 1, 4) if not small else
                                                                 (0, 3))]
    if jx and not desc["th"]:
      bs = bs[:1]
    dt = "complex128" if np.abs(a.imag).max() else "float64"
    dts = [dt]
    if not jx and not sy and not small and dt == "float64":
      dts = ["float64", "float32", "complex128"]
    for ib, b in enumerate(bs):
      b = np.asarray(b, dtype=complex)
      exact = np.linalg.solve(a, b) if abs(np.linalg.det(a)) > 1e-9 else None
      x0s = [None, np.asarray(xs[(ia + ib + 2) % len(xs)], dtype=complex)]
      if exact is not None:
        x0s.append(exact)
      for dt in dts:
        shape = SHAPES[n][(ia + ib) % len(SHAPES[n])]
        if jx or sy:
          shape = SHAPES[n][-1]
        w = world(be, shape, dt)
        if sy and small and not desc["th"]:
          x0s = x0s[ia % len(x0s):][:1]
        for x0 in x0s:
          ix = 0 if x0 is None else 2 if x0 is exact else 1
          opts = [(n, 1, 1e-5, None), (None, 1, 1e-5, None), (2, 3, 1e-3, 0.0),
                  (1, 4, 1e-2, None), (n, 2, 0.3, 0.0), (n + 5, 3, 0.0, 1e-6), (n - 1, 1, 1e-5, 2.0)]
          if small and not desc["th"]:
            opts = [opts[i] for i in ((0, 2, 4) if ix else (0, 1, 3, 6))]
          if jx and not desc["th"]:
            opts = [[(n, 1, 1e-5, None), (2, 3, 1e-3, 0.0), (n, 2, 0.3, 0.0)],
                    [(n, 3, 1e-5, None), (2, 1, 1e-5, 2.0)], [(n, 1, 1e-5, None)]][ix]
          for m, mi, tol, atol in opts:
            if be.startswith("sym") and m is not None and m > n:
              continue
            if dt == "float32":
              tol = max(tol, 1e-3)
              atol = 1e-3 if atol == 1e-6 else atol
            check_gmres(rec, w, a, b, x0, m, mi, tol, atol)
    if small or not desc["th"]:
      pass
    rec.state((be, "gmres", fam, desc["lo"] + ia))
  # zero right hand side: the solution is zero
  for shape in SHAPES[4][-1:]:
    w = world(be, shape, "float64")
    a = special(4)["wilk"] + 5 * np.eye(4)
    for x0 in (None, np.ones(4, dtype=complex)):
      check_gmres(rec, w, a, np.zeros(4, dtype=complex), x0, 4, 2, 1e-5, 1e-8)


def run_front(desc, rec):
  """tensornetwork.linalg: same results, arguments passed through, several operators."""
  be = desc["be"]
  if be == "symT":
    return
  for name, a in special(4).items():
    dt = "complex128" if np.abs(a.imag).max() else "float64"
    w = world(be, (2, 2), dt)
    for x in few(4)[3:5] if be != "jax" else few(4)[4:5]:
      x = x.astype(complex)
      if is_h(a) and (be != "jax" or name in ("path", "identity", "herm")):
        check_lanczos(rec, w, a, x, 4, 2, True, 20, front=True)
      if be != "jax" or name in ("cycle", "distinct", "phase"):
        check_arnoldi(rec, w, a, x, 4, 2, "LM", front=True, **(
            {"maxiter": 20} if be == "jax" else {}))
      if be != "jax" or name in ("jordan", "zero", "chiral"):
        for m in (None, 4):
          check_gmres(rec, w, a, x, None, m, 2, 1e-5, None, front=True)
          check_gmres(rec, w, a, x, x, m, 1, 1e-5, 1e-3, front=True)
    rec.state((be, "front", name))


def run_history(desc, rec):
  """Every sequence of solver calls sharing one operator object."""
  be = desc["be"]
  a4, a6 = special(4)["wilk"], special(6)["laplace"]
  acts = []
  for n, shape, a in ((4, (2, 2), a4), (4, (4,), a4), (6, (2, 3), a6)):
    for s in ("lanczos", "eigs", "gmres") + (("eigsh",) if be == "jax" else ()):
      acts.append((s, shape, a))
  if be.startswith("sym"):
    acts = [x for x in acts if x[1] != (4,)]
  if be == "jax" and not desc["th"]:
    acts = [x for x in acts if (x[0], x[1]) in (
        ("lanczos", (2, 2)), ("eigs", (2, 2)), ("gmres", (2, 2)), ("gmres", (4,)),
        ("gmres", (2, 3)), ("eigsh", (4,)))]
  depth = 3 if desc["th"] and be != "jax" else 2

  def one(act, f):
    s, shape, a = act
    w = world(be, shape, "float64")
    if w.be.startswith("sym"):
      g = lambda x, h: SymWorld.mv(w, x, h)  # pylint: disable=unnecessary-lambda
      g = f.setdefault("sym", w.mv if w.variant != "T" else w.mv)
      if g.__self__ is not w:
        g = w.mv
    else:
      g = f["f"]
    x = np.arange(1, len(a) + 1).astype(complex)
    if s == "lanczos":
      check_lanczos(rec, w, a, x, len(a), 1, False, 20, opf=g)
    elif s == "gmres":
      check_gmres(rec, w, a, x, None, len(a), 1, 1e-5, None, opf=g)
    else:
      check_arnoldi(rec, w, a, x, len(a), 1, "LM" if s == "eigs" else "SA", s,
                    1 if be == "jax" else None, opf=g)

  for hist in itertools.product(acts[desc["first"]:][:1], *[acts] * (depth - 1)):
    f = {"f": (lambda x, h: mv(x, h))}  # pylint: disable=unnecessary-lambda
    for act in hist:
      one(act, f)
    rec.state((be, "history") + tuple((s, shape) for s, shape, _ in hist))
    rec.add("histories", 1)


def run_random(desc, rec):
  """No start vector: a random one of the given shape and dtype."""
  be = desc["be"]
  if be == "symT":
    return
  for dt in ("float64", "complex128") if be != "jax" else ("float64",):
    w = world(be, (2, 2), dt)
    b = w.b
    shape = (2, 2)
    if be == "sym":
      v = w.vec(np.ones(4))
      shape = v.sparse_shape
    a = special(4)["wilk"]
    h = w.op(a)
    solvers = [("eigsh_lanczos", {"num_krylov_vecs": 4}), ("eigs", {"num_krylov_vecs": 4})]
    if be == "jax":
      solvers.append(("eigsh", {"num_krylov_vecs": 4}))
    for s, o in solvers:
      if s != "eigsh_lanczos":
        o["which"] = "LM"
      vals, vecs = call(f"{be}:{s}:random", lambda s=s, o=o: getattr(b, s)(
          w.mv, args=[h], shape=shape, dtype=np.dtype(dt).type, numeig=1, **o))
      rec.step()
      got = pairs(f"{be}:{s}:random", w, a, vals, vecs, 1e-6)
      ev = np.linalg.eigvalsh(a)
      ref = ev[0] if s == "eigsh_lanczos" else ev[np.argmax(np.abs(ev))]
      if abs(got[0] - ref) > 1e-6:
        raise Violation(f"{be}:{s}:random:values", f"{got} {ref}")
      for bad in ({"shape": shape}, {"dtype": np.float64}, {}):
        try:
          getattr(b, s)(w.mv, args=[h], numeig=1, **o, **bad)
        except ValueError:
          rec.step()
        else:
          raise Violation(f"{be}:{s}:no state", f"accepted {sorted(bad)}")
    rec.state((be, "random", dt))


def run_refuse(desc, rec):
  """Arguments outside the documented domain are refused."""
  be = desc["be"]
  if be == "symT":
    return
  w = world(be, (2, 2), "float64")
  b = w.b
  a = special(4)["wilk"]
  x, h = w.vec(np.arange(1.0, 5)), w.op(a)
  bad = [
      ("eigsh_lanczos", dict(numeig=2, num_krylov_vecs=4), ValueError),
      ("eigsh_lanczos", dict(numeig=5, num_krylov_vecs=4, reorthogonalize=True), ValueError),
      ("eigs", dict(numeig=5, num_krylov_vecs=4), ValueError),
      ("eigs", dict(numeig=1, num_krylov_vecs=4, which="LI"), ValueError),
  ]
  for s, o, exc in bad:
    try:
      getattr(b, s)(w.mv, args=[h], initial_state=x, **o)
    except exc:
      rec.step()
    else:
      raise Violation(f"{be}:{s}:accepted", f"{o}")
  for s in ("eigsh_lanczos", "eigs"):
    try:
      getattr(b, s)(w.mv, args=[h], initial_state=[1.0, 2.0], num_krylov_vecs=4, numeig=1)
    except TypeError:
      rec.step()
    else:
      raise Violation(f"{be}:{s}:list", "accepted a list as start vector")
  for o, exc in ((dict(tol=-1.0), ValueError), (dict(atol=-1.0), ValueError),
                 (dict(num_krylov_vectors=0), ValueError), (dict(num_krylov_vectors=-2), ValueError),
                 (dict(x0="shape"), ValueError), (dict(x0="dtype"), TypeError)):
    o = dict(o)
    if o.get("x0") == "shape":
      o["x0"] = world(be, (6,), "float64").vec(np.ones(6))
    elif o.get("x0") == "dtype":
      o["x0"] = world(be, (2, 2), "complex128").vec(np.ones(4))
    o.setdefault("num_krylov_vectors", 4)
    try:
      b.gmres(w.mv, x, A_args=[h], **o)
    except exc:
      rec.step()
    else:
      raise Violation(f"{be}:gmres:accepted", f"{sorted(o)}")
  if be != "sym":
    T = lambda y: tn.Tensor(y, backend=b)  # pylint: disable=unnecessary-lambda
    A = lambda t, *r: t  # pylint: disable=unnecessary-lambda
    other = "jax" if be == "numpy" else "numpy"
    for f, exc in ((lambda: krylov.eigsh_lanczos(A), ValueError),
                   (lambda: krylov.eigs(A), ValueError),
                   (lambda: krylov.eigsh_lanczos(A, x0=x), (TypeError, AttributeError)),
                   (lambda: krylov.eigs(A, x0=T(x), args=[x], num_krylov_vecs=4), TypeError),
                   (lambda: krylov.eigsh_lanczos(A, x0=T(x), backend=other), ValueError),
                   (lambda: krylov.gmres(A, x), TypeError)):
      try:
        f()
      except exc:
        rec.step()
      else:
        raise Violation(f"{be}:front:accepted", "invalid arguments accepted")
  rec.state((be, "refuse"))


def run_restart(desc, rec):
  """Subspaces smaller than the space, with restarts."""
  be = desc["be"]
  if be == "symT":
    return
  n = 6
  sp = special(n)
  for name in ("distinct", "negative", "mixed", "laplace", "neglap", "wilk", "far", "herm"):
    a = sp[name]
    dt = "complex128" if np.abs(a.imag).max() else "float64"
    w = world(be, (2, 3), dt)
    for x in few(n)[4:7:2]:
      x = x.astype(complex)
      if be == "jax":
        for k, m in ((1, 4), (2, 5)) if desc["th"] else ((2, 5),):
          for which in ("LR", "LM"):
            check_arnoldi(rec, w, a, x, m, k, which, "eigs", 400)
          for which in ("SA", "LA", "LM"):
            check_arnoldi(rec, w, a, x, m, k, which, "eigsh", 400)
      else:
        for k, m in ((1, 3), (1, 4), (2, 4), (2, 5), (3, 5)):
          for which in ("LM", "LR", "SR"):
            check_arnoldi(rec, w, a, x, m, k, which, maxiter=1000)
    rec.state((be, "restart", name))


def spectrum(n, k):
  """Spectra in which the wanted values converge at very different times."""
  k0 = np.arange(n)
  return [np.concatenate([[-50.], np.linspace(0, 1, n - 1)]),
          k0 + 1.0,
          np.concatenate([np.linspace(0, 1, n - 2), [20., 60.]]),
          np.concatenate([np.linspace(-3, -2, n // 2), np.linspace(2, 3, n - n // 2)]),
          np.concatenate([[-50., -49.9, -7.], np.linspace(0, 1, n - 3)]),
          -(1.25 ** k0)[::-1]][k]


def run_large(desc, rec):
  """Operators large enough for the iterations to stop before the space is exhausted."""
  be, n = desc["be"], desc["n"]
  ev = spectrum(n, desc["spec"])
  k0 = np.arange(n)
  a = np.diag(ev)
  for v in (1.0 / (k0 + 1.5), np.cos(k0 * 1.7), np.sin(0.3 + k0 * k0)):
    h = np.eye(n) - 2 * np.outer(v, v) / (v @ v)
    a = h @ a @ h
  a = ((a + a.T) / 2).astype(complex)
  ev = np.sort(ev)
  shape = (2, n // 2) if be == "numpy" else (n,)
  xs = [np.cos(1.0 + 2.3 * k0) + 0.2, 1.0 / (k0 + 1)]
  if be == "jax" and not desc["th"]:
    xs = xs[:1]
  w = world(be, shape, "float64")
  b = w.b
  sc = 1 + np.abs(a).max()
  if desc["part"] == "lanczos":
    opts = [(n, k, nd) for k in (1, 2, 3, 4) for nd in (1, 2, 3, 5, 20)]
    if be == "jax":
      opts = [(n, 1, 20), (n, 3, 20)]
    for x in xs:
      for m, k, nd in opts:
        vals, vecs = call(f"{be}:lanczos", lambda: b.eigsh_lanczos(
            w.mv, args=[w.op(a)], initial_state=w.vec(x), num_krylov_vecs=m, numeig=k,
            reorthogonalize=True, ndiag=nd, tol=1e-8))
        rec.step()
        vals = np.asarray(vals)
        ctx = f"{be} n={n} spectrum {desc['spec']} k={k} ndiag={nd}: {vals} expected {ev[:k]}"
        if len(vals) != k or len(vecs) != k:
          raise Violation(f"{be}:lanczos:count", ctx)
        if np.abs(vals - ev[:k]).max() > 1e-5 * sc:
          raise Violation(f"{be}:lanczos:values", ctx)
        for val, vec in zip(vals, vecs):
          v = w.read(vec)
          if abs(np.linalg.norm(v) - 1) > 1e-6 or np.linalg.norm(a @ v - val * v) > 2e-3 * sc:
            raise Violation(f"{be}:lanczos:vector", ctx + f" residual {np.linalg.norm(a@v-val*v)}")
  else:
    for x in xs:
      for k, m in ((1, n), (3, n), (4, n - 4)) if be != "jax" else ((3, n),):
        for which in ("LM", "LR", "SR") if be != "jax" else ("LM", "LR"):
          check_arnoldi(rec, w, a, x.astype(complex), m, k, which, maxiter=2000)
        if be == "jax":
          for which in ("LA", "SA"):
            check_arnoldi(rec, w, a, x.astype(complex), m, k, which, "eigsh", 2000)
      c = a + (60 if desc["spec"] % 2 else 0.5) * np.eye(n)
      c = c + 0.3 * np.eye(n, k=1)
      for x0 in (None, xs[-1].astype(complex)):
        for m, mi, tol in ((n, 1, 1e-6), (5, 3, 1e-3), (5, 40, 1e-4)) if be != "jax" else (
            (n, 1, 1e-6), (5, 3, 1e-3)):
          check_gmres(rec, w, c, x.astype(complex), x0, m, mi, tol, None)
  rec.state((be, "large", n, desc["spec"], desc["part"]))


def run_case(desc, rec):
  m = desc["m"]
  if m == "lanczos":
    run_lanczos(desc, rec)
  elif m == "eigs":
    run_eigs(desc, rec)
  elif m == "eigsh":
    run_eigs(desc, rec, "eigsh")
  elif m == "gmres":
    run_gmres(desc, rec)
  else:
    {"front": run_front, "history": run_history, "random": run_random, "refuse": run_refuse,
     "restart": run_restart, "large": run_large}[m](desc, rec)

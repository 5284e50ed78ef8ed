"""C13: gauge moves and gates of a matrix product state."""
import itertools
import numpy as np
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from tensornetwork.matrixproductstates.base_mps import BaseMPS
from mc import mpsx
from mc.core import Violation

TITLE = "operation histories of a matrix product state against its dense state"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state model checking of the implementation: all sequences "
             "of moves/gates/refused calls up to a depth on the real object, "
             "states deduplicated, each step compared with a dense reference model")
RULE = ("all sequences, up to the depth, of: position(site, normalize, D, "
        "max_truncation_err), canonicalize, one- and two-site gates (unitary, "
        "non-unitary, complex; every centre choice and truncation), and calls "
        "that must be refused; after every step the dense state, the tracked "
        "isometries, centre, returned norm / truncated weight, dimensions and "
        "self-checks are compared with the reference model")
ASSUMPTIONS = ["numpy.linalg.svd as reference for truncations, compared away from "
               "ties (relative distance 1e-6)",
               "the state is never exactly zero (normalization undefined)"]
BOUNDS = {
    "quick": "N<=4 sites, d<=3, D<=4; numpy depth 2 with the full operation "
             "alphabet and depth 3 with the core alphabet; jax, tensorflow depth 1",
    "thorough": "numpy depth 3 with the full alphabet for N<=3, depth 4 core; "
                "jax, tensorflow depth 2",
}
BOUNDS["quick"] += "; chains of 6-8 sites, fixed operation list at depth 1-2"

# (d, D) profiles
PROF = [
    ([2], [1, 1]),
    ([2, 2], [1, 2, 1]),
    ([2, 3], [1, 3, 1]),
    ([2, 2, 2], [1, 2, 2, 1]),
    ([2, 1, 3], [1, 4, 2, 1]),
    ([2, 2, 2, 2], [1, 2, 3, 2, 1]),
    ([2] * 9, [1, 2, 3, 4, 3, 5, 4, 3, 2, 1]),
    ([2, 3, 1, 2, 2, 3, 2], [1, 3, 4, 4, 5, 6, 2, 1]),
]
BASE = [
    ([2], [2, 2]),
    ([2, 2], [2, 1, 2]),
    ([2, 2], [2, 3, 2]),
    ([2, 2, 2], [2, 2, 3, 2]),
]


def cases(tier):
  th = tier == "thorough"
  for pi in (6, 7):
    d = PROF[pi][0]
    N = len(d)
    for ini in ["none", "scaled"] + [f"c{c}" for c in ((0, N // 2, N - 1) if not th else range(N))]:
      for f in range(len(alphabet(d, "long", "finite"))):
        yield dict(cls="finite", prof=pi, ini=ini, be="numpy", dt="complex128", depth=2, alpha="long", first=f)
    for be in ("jax", "tensorflow"):
      yield dict(cls="finite", prof=pi, ini="c2", be=be, dt="complex128", depth=1, alpha="long", first=None)
  for be, dts in (("numpy", ("complex128", "float64", "float32")),
                  ("jax", ("complex128",)), ("tensorflow", ("complex128", "float64"))):
    for pi, (d, D) in enumerate(PROF[:6]):
      N = len(d)
      inits = ["none", "scaled"] + [f"c{c}" for c in range(N)]
      for ini in inits:
        for dt in dts:
          if dt == "float32" and (ini != "none" or N > 3):
            continue
          if be != "numpy":
            if N == 4:
              continue
            depth, alpha = (2, "core") if th else (1, "full")
            if not th and N == 3 and ini not in ("scaled", "c1"):
              continue
            yield dict(cls="finite", prof=pi, ini=ini, be=be, dt=dt, depth=depth,
                       alpha=alpha, first=None)
            continue
          if dt == "float64" and not th and ini != "scaled":
            continue
          fdepth = 1 if N == 4 and not th else 2
          if th and N <= 3:
            fdepth = 3
          cdepth = fdepth + 1
          nf = len(alphabet(d, "full", "finite"))
          if fdepth >= 2:
            for f in range(nf):
              yield dict(cls="finite", prof=pi, ini=ini, be=be, dt=dt,
                         depth=fdepth, alpha="full", first=f)
          else:
            yield dict(cls="finite", prof=pi, ini=ini, be=be, dt=dt,
                       depth=fdepth, alpha="full", first=None)
          for f in range(len(alphabet(d, "core", "finite"))):
            yield dict(cls="finite", prof=pi, ini=ini, be=be, dt=dt,
                       depth=cdepth, alpha="core", first=f)
    for pi, (d, D) in enumerate(BASE):
      for cls in ("base", "infinite"):
        for ini in ["none"] + [f"c{c}" for c in range(len(d))]:
          for con in (0, 1):
            if be != "numpy" and (con == 0 or len(d) > 2 or cls == "base"):
              continue
            yield dict(cls=cls, prof=pi, ini=ini, be=be, dt="complex128", con=con,
                       depth=(2 if be == "numpy" else 1) + int(th and be == "numpy"),
                       alpha="core", first=None)
  for d, D in PROF[1:]:
    yield dict(cls="ctor", d=d, D=D)


def alphabet(d, alpha, cls):
  """All operations, as JSON-able tuples."""
  N = len(d)
  ops = []
  if alpha == "long":
    for s in (0, N // 2, N - 1):
      for nrm, t in ((True, (None, None)), (False, (None, None)), (False, (2, None)), (True, (3, 0.1))):
        ops.append(("pos", s, nrm) + t)
    ops += [("can", True), ("can", False), ("g1", N // 2, "gen"), ("g1", N - 2, "uni")]
    for s in (0, N // 2 - 1, N - 2):
      ops += [("g2", s, "gen", None, None, None, False), ("g2", s, "gen", s + 1, None, None, False),
              ("g2", s, "gen", s, 2, None, False), ("g2", s, "uni", s + 1, None, 0.2, True)]
    return ops + [("bad", k) for k in ("poserr", "g2order", "g2center")]
  full = alpha == "full"
  truncs = [(None, None)] if cls != "finite" or not full else [
      (None, None), (1, None), (2, None), (None, 0.25), (2, 0.1), (None, 0.0)]
  for s in range(N):
    for nrm in (True, False):
      for t in truncs:
        ops.append(("pos", s, nrm) + t)
  if cls == "finite":
    ops += [("can", True), ("can", False)]
  for s in range(N):
    ops.append(("g1", s, "gen"))
    if full:
      ops.append(("g1", s, "uni"))
  for s in range(N - 1):
    for c in (None, s, s + 1):
      for t in ([(None, None), (2, None)] if not full else
                [(None, None, False), (1, None, False), (2, None, False),
                 (None, 0.5, False), (None, 0.25, True), (3, 0.25, True)]):
        t = tuple(t) + (False,) * (3 - len(t))
        ops.append(("g2", s, "gen", c) + t)
    if full:
      ops.append(("g2", s, "uni", None, None, None, False))
      ops.append(("g2", s, "uni", s + 1, None, None, False))
  if full or cls != "finite":
    ops += [("bad", k) for k in ("pos-1", "posN", "poserr", "g1rank", "g1site",
                                 "g1site-", "g2rank", "g2site-", "g2sites", "g2order",
                                 "g2same", "g2center", "g2siteN")]
  return ops


_G = {}


def gate(kind, dims, dt, n):
  key = (kind, tuple(dims), dt, n)
  if key not in _G:
    m = int(np.prod(dims))
    r = np.random.RandomState(7 * m + n)
    g = r.randn(m, m)
    if np.dtype(dt).kind == "c":
      g = g + 1j * r.randn(m, m)
    if kind == "uni":
      g = np.linalg.qr(g)[0]
    _G[key] = g.astype(dt).reshape(tuple(dims) * 2)
  return _G[key]


class Run:

  def __init__(self, desc, rec):
    self.rec = rec
    self.desc = desc
    cls = desc["cls"]
    d, D = (PROF if cls == "finite" else BASE)[desc["prof"]]
    self.d, self.D, self.N = d, D, len(d)
    self.cls = cls
    self.be = backend_factory.get_backend(desc["be"])
    self.dt = desc["dt"]
    single = np.dtype(self.dt) in (np.float32, np.complex64)
    self.tol = 2e-4 if single else 1e-8
    self.orig = mpsx.tens(self.N, d, D, self.dt)
    self.given = [t.copy() for t in self.orig]
    self.conn = None
    if desc.get("con"):
      self.conn = mpsx.netx.data((D[-1], D[0]), 9, True).astype(self.dt)
    self.trace = []

  # ------------------------------------------------------------- start state
  def start(self):
    ini = self.desc["ini"]
    iso = [None] * self.N
    if self.cls == "finite":
      if ini in ("none", "scaled"):
        mps = tn.FiniteMPS(self.given, canonicalize=False, backend=self.be)
        T = mpsx.dense(self.orig)
        if mps.center_position is not None:
          raise Violation("init:center", f"center {mps.center_position} of a "
                          "non-canonical MPS")
        if ini == "scaled":
          mps.canonicalize(normalize=False)
          iso = [None] + ["r"] * (self.N - 1)
      else:
        c = int(ini[1:])
        mps = tn.FiniteMPS(self.given, center_position=c, backend=self.be)
        T = mpsx.dense(self.orig)
        T = T / np.linalg.norm(T)
        iso = ["l"] * c + [None] + ["r"] * (self.N - 1 - c)
        if mps.center_position != c:
          raise Violation("init:center", f"{mps.center_position} != {c}")
    else:
      c = None if ini == "none" else int(ini[1:])
      K = BaseMPS if self.cls == "base" else tn.InfiniteMPS
      conn = None if self.conn is None else self.be.convert_to_tensor(self.conn)
      mps = K(self.given, center_position=c, connector_matrix=conn, backend=self.be)
      T = mpsx.dense(self.orig, self.conn)
    self.mps = mps
    return T, iso

  def snap(self):
    return ([np.array(t) for t in self.mps.tensors], self.mps.center_position)

  def restore(self, s):
    self.mps.tensors = [self.be.convert_to_tensor(t.copy()) for t in s[0]]
    self.mps.center_position = s[1]

  def bad(self, sig, msg):
    raise Violation(sig, f"{msg}\nops: {self.trace}\ncase: {self.desc}")

  def close(self, a, b, what, sig):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
      self.bad(sig, f"{what}: shape {a.shape} != {b.shape}")
    scale = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
    if not np.all(np.abs(a - b) <= self.tol * scale):
      self.bad(sig, f"{what}: {a.ravel()[:6]} != {b.ravel()[:6]}")

  def canonical(self, iso, c):
    return (c is not None and self.conn is None and
            all(iso[i] in ("l", "lr") for i in range(c)) and
            all(iso[i] in ("r", "lr") for i in range(c + 1, self.N)))

  # ----------------------------------------------------------- observations
  def observe(self, T, iso, selfcheck=True):
    mps, N = self.mps, self.N
    ts = [np.asarray(t) for t in mps.tensors]
    if len(ts) != N or len(mps) != N:
      self.bad("observe:len", f"{len(ts)} tensors, len {len(mps)}")
    for i, t in enumerate(ts):
      if t.ndim != 3 or t.shape[1] != self.d[i]:
        self.bad("observe:shape", f"site {i}: {t.shape}")
      if i and ts[i - 1].shape[2] != t.shape[0]:
        self.bad("observe:bond", f"bond {i}: {ts[i-1].shape} {t.shape}")
      if t.dtype != np.dtype(self.dt):
        self.bad("observe:dtype", f"site {i}: {t.dtype}")
      if not isinstance(mps.tensors[i], type(self.be.convert_to_tensor(t))):
        self.bad("observe:type", f"site {i}: {type(mps.tensors[i])}")
    self.close(mpsx.dense(ts, self.conn), T, "represented state", "state")
    for i in range(N):
      if iso[i] in ("l", "lr") and mpsx.left_iso(ts[i]) > 10 * self.tol:
        self.bad("isometry", f"site {i} is not left isometric")
      if iso[i] in ("r", "lr") and mpsx.right_iso(ts[i]) > 10 * self.tol:
        self.bad("isometry", f"site {i} is not right isometric")
    for a, b in zip(self.given, self.orig):
      if not np.array_equal(a, b):
        self.bad("caller-array", "tensor given by the caller was modified")
    dims = [ts[0].shape[0]] + [t.shape[2] for t in ts]
    if [int(x) for x in mps.bond_dimensions] != dims:
      self.bad("bond_dimensions", f"{mps.bond_dimensions} != {dims}")
    if [int(x) for x in mps.physical_dimensions] != self.d:
      self.bad("physical_dimensions", f"{mps.physical_dimensions}")
    for b in range(N + 1):
      if int(mps.bond_dimension(b)) != dims[b]:
        self.bad("bond_dimension", f"bond {b}: {mps.bond_dimension(b)} {dims}")
    try:
      mps.bond_dimension(N + 1)
    except IndexError:
      pass
    else:
      self.bad("bond_dimension:range", "bond N+1 accepted")
    devs = {}
    for i in range(N):
      g = np.asarray(mps.get_tensor(i))
      ref = ts[i]
      if i == N - 1 and self.conn is not None:
        ref = np.tensordot(ref, self.conn, 1)
      self.close(g, ref, f"get_tensor({i})", "get_tensor")
      for w, f in (("l", mpsx.left_iso), ("r", mpsx.right_iso),
                   ("left", mpsx.left_iso), ("right", mpsx.right_iso)):
        if not selfcheck or (len(w) > 1 and i != N // 2):
          continue
        v = np.asarray(mps.check_orthonormality(w, i))
        # the connector is on the right of the last tensor: it is part of
        # the left orthogonality only
        devs[w, i] = f(ref if w[0] == "l" else ts[i])
        # sqrt of a difference: roundoff near zero is of order sqrt(eps)
        if abs(v - devs[w, i]) > np.sqrt(self.tol) * 1e-1 + self.tol * devs[w, i]:
          self.bad("check_orthonormality", f"{w} {i}: {v} != {devs[w, i]}")
    c = mps.center_position
    if not selfcheck:
      self.rec.validated()
      return
    if c is not None:
      if not 0 <= c < N:
        self.bad("center:range", f"{c}")
      if c is not None and self.canonical(iso, c) and self.cls == "finite":
        # norm of the centre tensor is the norm of the state
        self.close(np.linalg.norm(ts[c]), np.linalg.norm(T), "norm of centre",
                   "center:norm")
      ref = np.sqrt(sum(devs["l", i]**2 for i in range(c)) +
                    sum(devs["r", i]**2 for i in range(c + 1, N)))
      v = np.asarray(mps.check_canonical())
      if abs(v - ref) > np.sqrt(self.tol) * 1e-1 + self.tol * ref:
        self.bad("check_canonical", f"{v} != {ref}")
    elif self.cls == "finite":
      self.refused(lambda: mps.check_canonical(), "check_canonical", None)
    self.rec.validated()

  def refused(self, f, name, before):
    try:
      f()
    except (ValueError, IndexError) as e:
      self.rec.outcome("refused:" + name)
    else:
      self.bad("accepted:" + name, f"call that must be refused was accepted")
    if before is not None:
      now = self.snap()
      if now[1] != before[1] or any(
          a.shape != b.shape or not np.array_equal(a, b) for a, b in zip(now[0], before[0])):
        self.bad("refused-changed:" + name, "refused call changed the MPS")

  # ------------------------------------------------------------- operations
  def step(self, op, T, iso, before):
    """Execute op on the object; returns the model's successor or None (tie)."""
    mps, N = self.mps, self.N
    iso = list(iso)
    c = mps.center_position
    kind = op[0]
    can = self.canonical(iso, c)
    if kind == "pos":
      _, s, nrm, Dm, err = op
      kw = {}
      if Dm is not None:
        kw["D"] = Dm
      if err is not None:
        kw["max_truncation_err"] = err
      if c is None:
        self.refused(lambda: mps.position(s, nrm, **kw), "position-none", before)
        return T, iso
      centre = np.array(mps.tensors[s])
      Z = complex(np.asarray(mps.position(s, normalize=nrm, **kw)))
      if abs(Z.imag) > self.tol * abs(Z):
        self.bad("position:norm", f"complex norm {Z}")
      Z = Z.real
      if mps.center_position != s:
        self.bad("position:center", f"{mps.center_position} != {s}")
      if s == c:
        want = np.linalg.norm(centre)
        self.close(Z, want, "returned norm", "position:norm")
        return (T / want if nrm else T), iso
      trunc = (Dm is not None) or (err is not None)
      cuts = range(c, s) if s > c else range(c - 1, s - 1, -1)
      for n in range(c, s):
        iso[n] = "l"
      for n in range(s + 1, c + 1):
        iso[n] = "r"
      iso[s] = None
      if Dm is not None:
        for n in cuts:
          if mps.tensors[n].shape[2] > Dm:
            self.bad("position:D", f"bond {n + 1} has {mps.tensors[n].shape[2]} > {Dm}")
      if can and trunc:
        for n in cuts:
          T, w, margin, keep = mpsx.truncate(T, n, Dm, err, True)
          if margin < 1e-6 and err != 0.0:
            return None
          pre = np.linalg.norm(T)
          if nrm:
            T = T / pre
        if pre == 0:
          return None
        self.close(Z, pre, "returned norm", "position:norm")
        return T, iso
      ts = [np.asarray(t) for t in mps.tensors]
      got = mpsx.dense(ts, self.conn)
      cn = np.linalg.norm(ts[s])
      if trunc:  # non-canonical truncation: only the stated bounds apply
        if not nrm:
          self.close(Z, cn, "returned norm", "position:norm")
        return got, iso
      if not nrm:
        self.close(Z, cn, "returned norm", "position:norm")
        return T, iso
      self.close(cn, 1.0, "norm of the centre after normalization",
                 "position:normalize")
      if can:
        pre = np.linalg.norm(T) if abs(s - c) == 1 else 1.0
        if abs(Z - pre) > self.tol * max(1, pre) and abs(Z - 1) > self.tol:
          self.bad("position:norm", f"returned norm {Z}, expected {pre}")
      # T' = T / lambda with lambda > 0
      lam = np.vdot(got, T) / np.vdot(got, got)
      if not (abs(lam.imag) <= self.tol * abs(lam) and lam.real > 0):
        self.bad("position:phase", f"state multiplied by 1/{lam}")
      if abs(s - c) == 1:
        self.close(Z, lam.real, "returned norm", "position:norm")
      if self.canonical(iso, s):
        return T / np.linalg.norm(T), iso
      return T / lam.real, iso
    if kind == "can":
      Z = complex(np.asarray(mps.canonicalize(normalize=op[1]))).real
      nc = 0 if c is None else c
      if mps.center_position != nc:
        self.bad("canonicalize:center", f"{mps.center_position} != {nc}")
      iso = ["l"] * nc + [None] + ["r"] * (N - 1 - nc)
      self.close(Z, np.linalg.norm(T), "norm returned by canonicalize",
                 "canonicalize:norm")
      return (T / np.linalg.norm(T) if op[1] else T), iso
    if kind == "g1":
      _, s, g = op
      G = gate(g, [self.d[s]], self.dt, s)
      Gc = G.copy()
      mps.apply_one_site_gate(G if self.desc["be"] == "numpy"
                              else self.be.convert_to_tensor(G), s)
      if not np.array_equal(G, Gc):
        self.bad("caller-array", "gate modified")
      if mps.center_position != c:
        self.bad("gate1:center", f"{mps.center_position} != {c}")
      if g != "uni":
        iso[s] = None
      return mpsx.gate1(T, G, s), iso
    if kind == "g2":
      _, s, g, ca, Dm, err, rel = op
      G = gate(g, [self.d[s], self.d[s + 1]], self.dt, s)
      Gc = G.copy()
      kw = {}
      if ca is not None:
        kw["center_position"] = ca
      if Dm is not None:
        kw["max_singular_values"] = Dm
      if err is not None:
        kw["max_truncation_err"] = err
      if rel:
        kw["relative"] = True
      trunc = Dm is not None or err is not None
      if trunc and c not in (s, s + 1):
        self.refused(lambda: mps.apply_two_site_gate(G, s, s + 1, **kw),
                     "gate2-truncation-off-centre", before)
        return T, iso
      tw = mps.apply_two_site_gate(G, s, s + 1, **kw)
      if not np.array_equal(G, Gc):
        self.bad("caller-array", "gate modified")
      w = float(np.linalg.norm(np.asarray(tw)))
      nc = ca if ca is not None else s
      iso[s] = iso[s + 1] = None
      if c in (s, s + 1):
        if mps.center_position != nc:
          self.bad("gate2:center", f"{mps.center_position} != {nc}")
        if nc == s:
          iso[s + 1] = "r"
        else:
          iso[s] = "l"
      elif mps.center_position is not None:
        self.bad("gate2:center", f"{mps.center_position}, expected None")
      T2 = mpsx.gate2(T, G, s)
      if Dm is not None and mps.tensors[s].shape[2] > Dm:
        self.bad("gate2:D", f"bond {mps.tensors[s].shape} > {Dm}")
      if not trunc:
        self.close(w, 0.0, "truncated weight without truncation", "gate2:weight")
        return T2, iso
      if can:
        T3, wr, margin, keep = mpsx.truncate(T2, s, Dm, err, rel)
        if margin < 1e-6:
          return None
        self.close(w, wr, "truncated weight", "gate2:weight")
        if mps.tensors[s].shape[2] > max(keep, 1) and keep > 0:
          self.bad("gate2:bond", f"kept {mps.tensors[s].shape[2]}, expected {keep}")
        return (T3, iso) if np.linalg.norm(T3) > 0 else None
      got = mpsx.dense([np.asarray(t) for t in mps.tensors], self.conn)
      return (got, iso) if np.linalg.norm(got) > 0 else None
    if kind == "bad":
      k = op[1]
      if N < 2 and k.startswith("g2") and k not in ("g2rank",):
        return T, iso
      g4 = np.ones((2, 2, 2, 2), self.dt)
      conv = self.be.convert_to_tensor
      calls = {
          "pos-1": lambda: mps.position(-1),
          "posN": lambda: mps.position(N),
          "poserr": lambda: mps.position(0, max_truncation_err=1.5),
          "g1rank": lambda: mps.apply_one_site_gate(conv(np.ones((2, 2, 2), self.dt)), 0),
          "g1site": lambda: mps.apply_one_site_gate(conv(np.ones((2, 2), self.dt)), N),
          "g1site-": lambda: mps.apply_one_site_gate(conv(np.ones((2, 2), self.dt)), -1),
          "g2rank": lambda: mps.apply_two_site_gate(conv(np.ones((2, 2, 2), self.dt)), 0, 1),
          "g2site-": lambda: mps.apply_two_site_gate(conv(g4), -1, 0),
          "g2sites": lambda: mps.apply_two_site_gate(conv(g4), 0, 2),
          "g2order": lambda: mps.apply_two_site_gate(conv(g4), 1, 0),
          "g2same": lambda: mps.apply_two_site_gate(conv(g4), 0, 0),
          "g2center": lambda: mps.apply_two_site_gate(conv(g4), 0, 1, center_position=2),
          "g2siteN": lambda: mps.apply_two_site_gate(conv(g4), N - 1, N),
      }
      self.refused(calls[k], k, before)
      return T, iso
    raise AssertionError(op)

  # ------------------------------------------------------------ exploration
  def explore(self, T, iso, depth, ops, seen, first=None):
    snap = self.snap()
    for i, op in enumerate(ops):
      if first is not None and i != first:
        continue
      self.restore(snap)
      self.trace.append(op)
      if op[0] == "g2" or op[0] == "bad" and op[1] in ("g2sites",):
        pass
      res = self.step(tuple(op), T, iso, snap)
      self.rec.step()
      if res is None:
        self.rec.outcome("tie/zero skipped")
        self.trace.pop()
        continue
      T2, iso2 = res
      # the self checks are functions of the tensors and the centre alone
      self.observe(T2, iso2, len(self.trace) <= 2)
      key = (self.mps.center_position, tuple(iso2),
             tuple(np.round(np.asarray(t), 6).tobytes() for t in self.mps.tensors))
      h = hash(key)
      new = seen.get(h, 0) < depth
      if h not in seen:
        self.rec.state(h)
      if new:
        seen[h] = depth
        if depth > 1:
          self.explore(T2, iso2, depth - 1, ops, seen)
      self.trace.pop()
    self.restore(snap)


def run_case(desc, rec):
  if desc["cls"] == "ctor":
    return ctor(desc, rec)
  r = Run(desc, rec)
  T, iso = r.start()
  r.trace = ["init"]
  r.observe(T, iso)
  ops = alphabet(r.d, desc["alpha"], r.cls)
  r.explore(T, iso, desc["depth"], ops, {}, desc.get("first"))


def ctor(desc, rec):
  d, D = desc["d"], desc["D"]
  N = len(d)
  for be in ("numpy", "jax", "tensorflow"):
    for dt in (np.float64, np.complex128):
      for can in (True, False):
        mps = tn.FiniteMPS.random(d, D[1:-1], dt, canonicalize=can, backend=be)
        ts = [np.asarray(t) for t in mps.tensors]
        rec.step()
        if can:
          if mps.center_position != 0:
            raise Violation("random:center", str(mps.center_position))
          if abs(np.linalg.norm(mpsx.dense(ts)) - 1) > 1e-8:
            raise Violation("random:norm", str(np.linalg.norm(mpsx.dense(ts))))
          if any(mpsx.right_iso(t) > 1e-8 for t in ts[1:]):
            raise Violation("random:isometry", "not right isometric")
        else:
          if [t.shape for t in ts] != [(D[i], d[i], D[i + 1]) for i in range(N)]:
            raise Violation("random:shape", str([t.shape for t in ts]))
        if any(t.dtype != dt for t in ts) or [t.shape[1] for t in ts] != d:
          raise Violation("random:dtype", str([(t.shape, t.dtype) for t in ts]))
        rec.state((be, str(dt), can, tuple(d), tuple(D)))
        rec.validated()
  for c in range(N):
    ts = mpsx.tens(N, d, D, "float64")
    try:
      tn.FiniteMPS(ts, center_position=c, canonicalize=False, backend="numpy")
    except ValueError:
      rec.outcome("refused:center-without-canonicalize")
    else:
      raise Violation("ctor:accepted", "center_position of a non-canonical MPS")
  for c in (-1, N):
    try:
      tn.FiniteMPS(mpsx.tens(N, d, D, "float64"), center_position=c, backend="numpy")
    except ValueError:
      rec.outcome("refused:center-range")
    else:
      raise Violation("ctor:accepted", "center_position out of range")
  ts = mpsx.tens(N, d, D, "float64")
  if N > 1:
    try:
      tn.FiniteMPS([ts[0].astype("complex128")] + ts[1:], backend="numpy")
    except TypeError:
      rec.outcome("refused:dtypes")
    else:
      raise Violation("ctor:accepted", "different dtypes")

"""C05: node splittings and decompositions reconstruct within their contract."""
import itertools
import numpy as np
import tensornetwork as tn
from mc import netx, hashctl

TITLE = "decompositions and node splittings against their defining equations"
LEVEL = "model_checking"
RULE = ("every tensor shape of the alphabet x data kind (generic, every rank "
        "from zero to full, degenerate singular values, zero leading column, "
        "diagonal) x dtype x backend x pivot (positive and negative) x every "
        "truncation parameter on a grid placed around each singular-value "
        "breakpoint; for nodes every ordered bipartition of the edges")
ASSUMPTIONS = ["numpy.linalg.svd gives the singular values",
               "truncation limits are compared away from ties (relative distance 1e-4)"]
BOUNDS = {
    "quick": "rank <=4, dimensions 1..4; numpy float64/complex128 in full, "
             "float32/complex64 and jax/tensorflow on matrices and rank 3",
    "thorough": "adds dimension 5, jax/tensorflow on rank 4",
}
Q2 = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4), (4, 4)]
Q3 = [(1, 2, 3), (2, 1, 2), (2, 2, 2), (3, 2, 1), (2, 3, 2)]
Q4 = [(2, 2, 2, 2), (1, 2, 3, 1), (2, 1, 2, 3)]
T2 = [(5, 3), (3, 5), (5, 5), (1, 5)]
T3 = [(3, 3, 2), (2, 4, 3), (4, 1, 3)]
T4 = [(3, 2, 2, 2), (2, 3, 2, 3)]


def kinds(m, n):
  k = min(m, n)
  out = ["generic", "zero", "diag", "degenerate", "zerocol"]
  out += [f"rank{r}" for r in range(1, k)]
  return out


def cases(tier):
  th = tier == "thorough"
  shapes = Q2 + Q3 + Q4 + ((T2 + T3 + T4) if th else [])
  for sh in shapes:
    for be, dts in (("numpy", ["float64", "complex128", "float32", "complex64"]),
                    ("jax", ["float64", "complex128", "float32"]),
                    ("tensorflow", ["float64", "complex128", "float32"])):
      if be != "numpy" and len(sh) == 4 and not th:
        continue
      for dt in dts:
        yield {"what": "svd", "sh": sh, "be": be, "dt": dt}
        yield {"what": "qr", "sh": sh, "be": be, "dt": dt}
  for sh in Q2[:8] + Q3 + Q4 + (T3 + T4 if th else []):
    for be in ("numpy", "jax", "tensorflow"):
      if be != "numpy" and (len(sh) == 4 or max(sh) > 3):
        continue
      yield {"what": "node", "sh": sh, "be": be, "dt": "complex128"}
  for be in ("numpy", "jax", "tensorflow"):
    for n in (1, 2, 3, 4):
      yield {"what": "mat", "n": n, "be": be}


def make(kind, shape, pivot, cplx):
  """Tensor of the given shape whose matrix over `pivot` has the stated kind."""
  m, n = int(np.prod(shape[:pivot])), int(np.prod(shape[pivot:]))
  k = min(m, n)
  r = np.random.RandomState(7 * m + n + (100 if cplx else 0))
  def rnd(a, b):
    x = r.randint(-3, 4, size=(a, b)).astype(float) + 0.25 * np.eye(a, b)
    if cplx:
      x = x + 1j * r.randint(-3, 4, size=(a, b))
    return x
  if kind == "generic":
    a = rnd(m, n)
  elif kind == "zero":
    a = np.zeros((m, n)) * (1j if cplx else 1)
  elif kind == "diag":
    a = np.zeros((m, n), dtype=complex if cplx else float)
    for i in range(k):
      a[i, i] = (k - i) * (1j if cplx and i % 2 else -1)
  elif kind == "degenerate":
    q1 = np.linalg.qr(rnd(m, m) + 5 * np.eye(m))[0][:, :k]
    q2 = np.linalg.qr(rnd(n, n) + 5 * np.eye(n))[0][:, :k]
    s = np.array([2.0, 2.0, 1.0, 1.0, 1.0][:k])
    a = (q1 * s) @ q2.conj().T
  elif kind == "zerocol":
    a = rnd(m, n)
    a[:, 0] = 0
    a[m - 1, :] = 0
  else:
    q = int(kind[4:])
    a = rnd(m, q) @ rnd(q, n)
  return a.reshape(shape)


def run_case(desc, rec):
  globals()["do_" + desc["what"]](desc, rec)


def tol(dt):
  return 2e-4 if dt in ("float32", "complex64") else 1e-9


def npy(x):
  return np.asarray(x)


def close(a, b, dt, scale=1.0):
  a, b = npy(a), npy(b)
  if a.shape != b.shape:
    return False
  if a.size == 0:
    return True
  return bool(np.all(np.isfinite(a))) and float(np.max(np.abs(a - b))) <= tol(dt) * max(1.0, scale)


def svd_reference(mat):
  return np.linalg.svd(np.asarray(mat, dtype=np.complex128), compute_uv=False)


def grid(s, dt):
  """Truncation options with the exact number of values that must be kept."""
  k = len(s)
  out = [((None, None, False), k)]
  for m in range(0, k + 2):
    out.append(((m, None, False), min(m, k)))
  cum = [float(np.sqrt(np.sum(s[j:]**2))) for j in range(k + 1)]  # error if j kept
  eps = 1e-2 if dt in ("float32", "complex64") else 1e-4
  errs = set()
  for c in cum:
    if c > 1e-7:
      errs |= {c * (1 - eps), c * (1 + eps)}
  errs |= {1e-3 * s[0]} if s[0] > 0 else {0.5}
  for e in sorted(errs):
    # ambiguous when a breakpoint lies within rounding distance
    if any(abs(c - e) < 0.3 * eps * max(e, c) for c in cum):
      continue
    keep = next(j for j in range(k + 1) if cum[j] <= e)
    out.append(((None, e, False), keep))
    for m in (1, k - 1):
      if m >= 0:
        out.append(((m, e, False), min(m, keep)))
    if s[0] > 0:
      out.append(((None, e / s[0], True), keep))
      out.append(((max(1, k - 1), e / s[0], True), min(max(1, k - 1), keep)))
  return out


def check_svd(u, s, vh, rest, t, pivot, keep, dt, where, rec, iso=True):
  shape = t.shape
  m, n = int(np.prod(shape[:pivot])), int(np.prod(shape[pivot:]))
  k = min(m, n)
  mat = t.reshape(m, n)
  sv = svd_reference(mat)
  scale = max(1.0, float(sv[0]))
  u, s, vh, rest = map(npy, (u, s, vh, rest))
  for x in (u, s, vh, rest):
    if x.dtype != np.dtype(dt):
      return f"dtype: {x.dtype} instead of {dt}"
  if s.shape != (keep,) or rest.shape != (k - keep,):
    return f"number of values: kept {s.shape}, discarded {rest.shape}, expected {keep}"
  if u.shape != tuple(shape[:pivot]) + (keep,) or vh.shape != (keep,) + tuple(shape[pivot:]):
    return f"shapes: {u.shape} {vh.shape}"
  if not close(np.concatenate([s, rest]), sv, dt, scale):
    return f"singular values: {s} {rest} instead of {sv}"
  um, vm = u.reshape(m, keep), vh.reshape(keep, n)
  if not close(um.conj().T @ um, np.eye(keep), dt):
    return "left factor is not isometric"
  if not close(vm @ vm.conj().T, np.eye(keep), dt):
    return "right factor is not isometric"
  err = np.linalg.norm(mat - (um * s) @ vm)
  if abs(err - np.linalg.norm(rest)) > 30 * tol(dt) * scale:
    return f"reconstruction: error {err} but discarded values {rest}"
  return None


def do_svd(desc, rec):
  sh, dt = tuple(desc["sh"]), desc["dt"]
  be = tn.backends.backend_factory.get_backend(desc["be"])
  cplx = dt.startswith("complex")
  for pivot in range(1, len(sh)):
    m, n = int(np.prod(sh[:pivot])), int(np.prod(sh[pivot:]))
    for kind in kinds(m, n):
      t = make(kind, sh, pivot, cplx).astype(dt)
      rec.state()
      sv = svd_reference(t.reshape(m, n))
      opts = grid(sv, dt)
      if desc["be"] != "numpy":
        opts = opts[::2] + opts[-1:]
      for (mx, err, relv), keep in opts:
        for pv in (pivot, pivot - len(sh)):
          if pv < 0 and (mx, err) != (None, None):
            continue
          for api in ("backend", "tensor"):
            if api == "tensor" and (err is not None and relv is False):
              continue
            where = f"svd {desc} kind={kind} pivot={pv} max={mx} err={err} rel={relv} {api}"
            x = be.convert_to_tensor(t.copy())
            rec.step()
            rec.outcome("svd " + desc["be"])
            if api == "backend":
              out = be.svd(x, pv, max_singular_values=mx, max_truncation_error=err, relative=relv)
            else:
              out = tn.linalg.linalg.svd(tn.Tensor(x, backend=be), pv, max_singular_values=mx,
                                         max_truncation_error=err, relative=relv)
              out = [o.array for o in out]
            bad = check_svd(*out, t, pivot, keep, dt, where, rec)
            if bad is None and not np.array_equal(npy(x), t):
              bad = "input changed"
            if bad:
              rec.fail(f"svd:{desc['be']}:{bad.split(':')[0]}", f"{where}: {bad}")
            else:
              rec.validated()


def do_qr(desc, rec):
  sh, dt = tuple(desc["sh"]), desc["dt"]
  be = tn.backends.backend_factory.get_backend(desc["be"])
  cplx = dt.startswith("complex")
  for pivot in range(1, len(sh)):
    m, n = int(np.prod(sh[:pivot])), int(np.prod(sh[pivot:]))
    k = min(m, n)
    for kind in kinds(m, n):
      t = make(kind, sh, pivot, cplx).astype(dt)
      mat = t.reshape(m, n)
      scale = max(1.0, float(np.linalg.norm(mat)))
      rec.state()
      for which in ("qr", "rq"):
        for nn in (False, True):
          for pv in (pivot, pivot - len(sh)):
            for api in ("backend", "tensor"):
              where = f"{which} {desc} kind={kind} pivot={pv} non_negative={nn} {api}"
              x = be.convert_to_tensor(t.copy())
              rec.step()
              rec.outcome(which + " " + desc["be"])
              if api == "backend":
                a, b = getattr(be, which)(x, pv, nn)
              else:
                a, b = getattr(tn.linalg.linalg, which)(tn.Tensor(x, backend=be), pv, nn)
                a, b = a.array, b.array
              a, b = npy(a), npy(b)
              bad = None
              if a.dtype != np.dtype(dt) or b.dtype != np.dtype(dt):
                bad = f"dtype: {a.dtype} {b.dtype}"
              elif a.shape != sh[:pivot] + (k,) or b.shape != (k,) + sh[pivot:]:
                bad = f"shapes: {a.shape} {b.shape}"
              else:
                am, bm = a.reshape(m, k), b.reshape(k, n)
                if not close(am @ bm, mat, dt, scale):
                  bad = f"product: {which} factors do not multiply to the tensor\n{am}\n{bm}\n{mat}"
                q = am if which == "qr" else bm.conj().T
                r = bm if which == "qr" else am
                if bad is None and not close(q.conj().T @ q, np.eye(k), dt):
                  bad = "isometry: unitary factor is not isometric"
                # the docstring promises a triangular factor
                if bad is None and which == "qr" and not close(
                    np.tril(r, -1), np.zeros_like(r), dt, scale):
                  bad = "triangular: R is not upper triangular"
                if bad is None and nn:
                  d = np.diagonal(r)
                  if np.any(d.real < -tol(dt) * scale) or np.any(np.abs(d.imag) > tol(dt) * scale):
                    bad = f"sign: diagonal {d}"
              if bad is None and not np.array_equal(npy(x), t):
                bad = "input changed"
              if bad:
                rec.fail(f"{which}:{desc['be']}:nn={nn}:{bad.split(':')[0]}", f"{where}: {bad}")
              else:
                rec.validated()


def do_mat(desc, rec):
  """eigh, inv, expm, norm of small matrices."""
  import scipy.linalg
  be = tn.backends.backend_factory.get_backend(desc["be"])
  n = desc["n"]
  for dt in ("float64", "complex128", "float32"):
    cplx = dt.startswith("complex")
    for kind in ("generic", "diag", "degenerate"):
      a = make(kind, (n, n), 1, cplx).astype(dt)
      h = (a + a.conj().T) / 2
      rec.state()
      for api in ("backend", "tensor"):
        where = f"{desc} {dt} {kind} {api}"
        x = be.convert_to_tensor(h)
        rec.step()
        w, v = be.eigh(x) if api == "backend" else [
            t.array for t in tn.linalg.linalg.eigh(tn.Tensor(x, backend=be))]
        w, v = npy(w), npy(v)
        ref = np.linalg.eigvalsh(h)
        if not close(w, ref, dt, 10) or not close(v.conj().T @ v, np.eye(n), dt) or not close(
            h @ v, v * w, dt, 10):
          rec.fail(f"eigh:{desc['be']}", f"{where}: {w} instead of {ref}")
        g = a + 7 * np.eye(n).astype(dt)
        x = be.convert_to_tensor(g)
        rec.step(2)
        i = be.inv(x) if api == "backend" else tn.linalg.linalg.inv(tn.Tensor(x, backend=be)).array
        if npy(i).dtype != np.dtype(dt) or not close(g @ npy(i), np.eye(n), dt, 10):
          rec.fail(f"inv:{desc['be']}", where)
        x = be.convert_to_tensor(a / 4)
        e = be.expm(x) if api == "backend" else tn.linalg.linalg.expm(tn.Tensor(x, backend=be)).array
        if npy(e).dtype != np.dtype(dt) or not close(npy(e), scipy.linalg.expm(a / 4), dt, 10):
          rec.fail(f"expm:{desc['be']}", where)
        x = be.convert_to_tensor(a)
        nr = be.norm(x) if api == "backend" else tn.linalg.linalg.norm(tn.Tensor(x, backend=be))
        if abs(npy(nr) - np.linalg.norm(a)) > tol(dt) * 30:
          rec.fail(f"norm:{desc['be']}", where)
        rec.validated(4)


def do_node(desc, rec):
  sh, dt = tuple(desc["sh"]), desc["dt"]
  bename = desc["be"]
  R = len(sh)
  seen = set()
  for perm in itertools.permutations(range(R)):
    for cut in range(1, R):
      L, Rr = perm[:cut], perm[cut:]
      if R == 4 and list(L) != sorted(L) and list(Rr) != sorted(Rr):
        continue
      pshape = tuple(sh[i] for i in perm)
      m, n = int(np.prod(pshape[:cut])), int(np.prod(pshape[cut:]))
      for kind in ("generic", "rank1", "zero", "degenerate"):
        if kind == "rank1" and min(m, n) < 2:
          continue
        pt = make(kind, pshape, cut, True).astype(dt)
        t = np.transpose(pt, np.argsort(perm))
        rec.state()
        opts = grid(svd_reference(pt.reshape(m, n)), dt)
        if R == 4 or bename != "numpy":
          opts = opts[:1] + opts[1::3]
        for (mx, err, relv), keep in opts:
          for form in ("split", "full"):
            split(form, t, pt, L, Rr, mx, err, relv, keep, dt, bename, rec, desc, kind)
        for form in ("qr", "rq"):
          split(form, t, pt, L, Rr, None, None, False, min(m, n), dt, bename, rec, desc, kind)


def split(form, t, pt, L, Rr, mx, err, relv, keep, dt, bename, rec, desc, kind):
  names = (sum(L) + len(L) + keep) % 2 == 0
  hashctl.reset("asc")
  ax = ["p", "q", "r", "s"][:t.ndim]
  node = tn.Node(t.copy(), name="N", axis_names=ax, backend=bename)
  # half of the edges lead to neighbours
  other = []
  for i in range(0, t.ndim, 2):
    o = tn.Node(np.eye(t.shape[i]).astype(dt), backend=bename)
    tn.connect(node[i], o[0]) if i % 4 == 0 else tn.connect(o[0], node[i])
    other.append(o)
  le, re = [node[i] for i in L], [node[i] for i in Rr]
  ids = ([id(e) for e in le], [id(e) for e in re])
  m, n = int(np.prod([t.shape[i] for i in L])), int(np.prod([t.shape[i] for i in Rr]))
  mat = pt.reshape(m, n)
  where = f"{form} {desc} kind={kind} left={L} right={Rr} max={mx} err={err} rel={relv}"
  rec.step()
  rec.outcome(form)
  kw = dict(left_name="LN", right_name="RN") if names else {}
  bad = None
  if form == "full":
    if names:
      kw.update(middle_name="MN", left_edge_name="le", right_edge_name="re")
    a, c, b, rest = tn.split_node_full_svd(node, le, re, mx, err, relv, **kw)
    nodes = [a, c, b]
  else:
    if names:
      kw["edge_name"] = "ce"
    if form == "split":
      a, b, rest = tn.split_node(node, le, re, mx, err, relv, **kw)
    elif form == "qr":
      a, b = tn.split_node_qr(node, le, re, **kw)
    else:
      a, b = tn.split_node_rq(node, le, re, **kw)
    nodes = [a, b]
  u, v = npy(a.tensor), npy(b.tensor)
  if [id(e) for e in a.edges[:-1]] != ids[0] or [id(e) for e in b.edges[1:]] != ids[1]:
    bad = "edges: factors do not carry the given edges in the given order"
  elif u.shape != tuple(t.shape[i] for i in L) + (keep,) or v.shape != (keep,) + tuple(
      t.shape[i] for i in Rr):
    bad = f"shapes: {u.shape} {v.shape} for bond {keep}"
  elif u.dtype != np.dtype(dt) or v.dtype != np.dtype(dt):
    bad = "dtype"
  else:
    bad = netx.well_formed(netx.World(nodes + other), queries=False)
  if bad is None:
    um, vm = u.reshape(m, keep), v.reshape(keep, n)
    scale = max(1.0, float(np.linalg.norm(mat)))
    sv = svd_reference(mat)
    if form in ("qr", "rq"):
      if not close(um @ vm, mat, dt, scale):
        bad = "product"
      q = um.conj().T @ um if form == "qr" else vm @ vm.conj().T
      if not close(q, np.eye(keep), dt):
        bad = "isometry"
    else:
      rest = npy(rest)
      if rest.shape != (len(sv) - keep,) or not close(rest, sv[keep:], dt, scale):
        bad = f"reported discarded values: {rest} of {sv}, kept {keep}"
      mid = npy(nodes[1].tensor) if form == "full" else np.eye(keep)
      e = np.linalg.norm(mat - um @ mid @ vm)
      if bad is None and abs(e - np.linalg.norm(sv[keep:])) > 1e-6 * scale:
        bad = f"reconstruction: error {e} but discarded {sv[keep:]}"
      g1 = np.diag(sv[:keep]) if form == "split" else np.eye(keep)
      # split_node shares sqrt(S); the full form keeps isometries and diag(S)
      if bad is None and (not np.allclose(um.conj().T @ um, g1, atol=1e-6 * scale) or
                          not np.allclose(vm @ vm.conj().T, g1, atol=1e-6 * scale)):
        bad = "gauge: factors are not sqrt(S)-weighted isometries"
      if bad is None and form == "full" and not np.allclose(mid, np.diag(sv[:keep]), atol=1e-7 * scale):
        bad = "middle node is not the diagonal matrix of the singular values"
  if bad is None and names:
    want = [("LN", [ax[i] for i in L] + ["le" if form == "full" else "ce"]),
            ("RN", ["re" if form == "full" else "ce"] + [ax[i] for i in Rr])]
    if form == "full":
      want.insert(1, ("MN", ["le", "re"]))
    got = [(x.name, list(x.axis_names)) for x in nodes]
    if want != got:
      bad = f"names: {got} instead of {want}"
    elif a.edges[-1].name != ("le" if form == "full" else "ce") or b.edges[0].name != (
        "re" if form == "full" else "ce"):
      bad = "edge name"
  if bad:
    rec.fail(f"node:{form}:{bad.split(':')[0][:40]}", f"{where}: {bad}")
  else:
    rec.validated()

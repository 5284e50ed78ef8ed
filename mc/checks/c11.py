"""C11: block-sparse linear algebra against dense linear algebra."""
import itertools
import numpy as np
import tensornetwork as tn
from tensornetwork import block_sparse as bs
from tensornetwork.block_sparse.blocksparsetensor import BlockSparseTensor, ChargeArray
from tensornetwork.backends import backend_factory
from mc import bsx

TITLE = "block-sparse linear algebra against dense linear algebra"
LEVEL = "model_checking"
RULE = ("every matrix over the listed leg charges, flows, fusings, storage orders and "
        "value patterns (generic, rank one, zero, partly zero): svd, qr, eigh, eig, inv, "
        "pinv, diag, eye in every mode; every tensor, every pivot and every truncation "
        "setting for the backend's svd/qr/rq and the node splits: defining equations, "
        "charges and flows of every factor, number of stored elements and agreement "
        "with the dense computation")
ASSUMPTIONS = ["the order of the sectors on a new bond is not prescribed",
               "full/complete modes complete within the sectors that occur"]
BOUNDS = {
    "quick": "matrices with one or two elementary legs per side of dimension <=3, tensors of rank <=4, all pivots, every max_singular_values up to the rank and truncation errors between and beyond all partial sums",
    "thorough": "three elementary legs per side, all storage orders and flows",
}
GROUPS = ["U", "2", "3", "U2", "UU3"]
B = backend_factory.get_backend("symmetric")


def lists(sym):
  al = [tuple(bsx.ALPH[s][(k * (i + 1)) % len(bsx.ALPH[s])] for i, s in enumerate(sym))
        for k in range(4)]
  z, a, b, c = al
  return [[z, a, z], [a], [b, z], [z, a], [a, b, z, a], [z, z], [b], []]


PATTERNS = ["gen", "cplx", "rank1", "zero", "part"]


def values(m, pattern, k=0):
  """Replace the model's values by a pattern on the allowed positions."""
  mk = bsx.mask(m.sym, m.legs, m.flows)
  d = bsx.fill(mk.shape, k, pattern == "cplx")
  if pattern == "rank1":
    d = np.ones(mk.shape)
  elif pattern == "zero":
    d = np.zeros(mk.shape)
  elif pattern == "part":     # some sectors vanish, others do not
    d = np.zeros(mk.shape) + (np.indices(mk.shape).sum(axis=0) % 2) * 2.5 if mk.ndim else d
  return np.where(mk, d, 0)


def tensor(sym, legs, flows, perm, pattern, k=0):
  """Tensor with legs/flows stored in order perm, and its model."""
  inv = [int(i) for i in np.argsort(perm)]
  ql, fl = [legs[i] for i in perm], [flows[i] for i in perm]
  m = bsx.Model(sym, [list(q) for q in ql], list(map(bool, fl)), [1] * len(ql), None)
  d = values(m, pattern, k)
  t = BlockSparseTensor.fromdense(
      [bsx.index(sym, q, f, ["raw", "lab", "lab2"][(i + k) % 3]) for i, (q, f) in enumerate(zip(ql, fl))], d)
  m.dense = d
  return t.transpose(inv), m.transpose(inv)


def fuse(t, m, nl):
  """Fuse the first nl legs and the rest (regardless of dimension-one legs)."""
  o = [i for g in t._order for i in g]
  g = [sum(m.groups[:nl]), sum(m.groups[nl:])]
  r = BlockSparseTensor(t.data, t._charges, t._flows, [o[:g[0]], o[g[0]:]], check_consistency=False)
  return r, m.regroup(g)


def cases(tier):
  th = tier == "thorough"
  for sym in GROUPS:
    n = len(lists(sym))
    few = sym in ("3", "UU3") and not th
    for r, pool in ((4, (1, 2, 3) if th else (1, 3)), (3, range(4) if th else (1, 2, 3)),
                    (2, range(n - 1) if th else (0, 2, 3, 4, 6))):
      if r == 4 and few:
        continue
      for legs in itertools.product(pool, repeat=r):
        yield {"kind": "dec", "sym": sym, "l": list(legs), "th": th}
    for l, r in ((2, 1), (1, 2), (2, 2)) + (((3, 1), (1, 3), (3, 2)) if th else ()):
      pool = range(4) if th and l + r <= 4 else range(1, 4) if l + r == 3 else range(2, 4)
      if few:
        continue
      for legs in itertools.product(pool, repeat=l + r):
        yield {"kind": "mat", "sym": sym, "l": list(legs[:l]), "r": list(legs[l:]), "th": th}
    for i in range(n):
      for j in range(n):
        yield {"kind": "mat", "sym": sym, "l": [i], "r": [j], "th": th}
    for i in range(n):
      yield {"kind": "square", "sym": sym, "l": [i], "th": th}
    for legs in itertools.product(range(4) if th else range(1, 4), repeat=2):
      yield {"kind": "square", "sym": sym, "l": list(legs), "th": th}
    for i in range(n):
      for k in (1, 2):
        yield {"kind": "vec", "sym": sym, "l": [i] * k, "th": th}
    for legs in itertools.product(range(4), repeat=2):
      yield {"kind": "vec", "sym": sym, "l": list(legs), "th": th}


def run_case(desc, rec):
  rec.outcome(desc["kind"])
  globals()["k_" + desc["kind"]](desc, desc["sym"], lists(desc["sym"]), rec)


# ---------------------------------------------------------------- helpers
def wf(t):
  """Stored elements are exactly the allowed positions."""
  legs = [bsx.read(c) for c in t.flat_charges]
  sym = t_sym(t)
  if not legs:
    return None
  nz = int(bsx.mask(sym, legs, t.flat_flows).sum())
  if t.data.shape != (nz,):
    return f"{t.data.shape} stored elements, {nz} allowed positions"
  return None


_TYPES = {v: k for k, v in bsx.CLS.items()}


def t_sym(t):
  return "".join(_TYPES.get(c, "?") for c in t.flat_charges[0].charge_types)


class Bad(Exception):
  pass


def need(cond, what):
  if not cond:
    raise Bad(what)


def bond(t, ax):
  o = t._order[ax]
  need(len(o) == 1, "bond with more than one elementary leg")
  return bsx.read(t._charges[o[0]]), bool(t._flows[o[0]])


def outer_legs(t, axes, legs, flows, groups):
  """The legs of t at axes are the given ones."""
  got = [[(bsx.read(t._charges[o]), bool(t._flows[o])) for o in t._order[a]] for a in axes]
  k, exp = 0, []
  for g in groups:
    exp.append([([tuple(x) for x in q], bool(f)) for q, f in zip(legs[k:k + g], flows[k:k + g])])
    k += g
  need(got == exp, f"legs {got}, expected {exp}")


def eq(a, b, what, tol=1e-9):
  a, b = np.asarray(a), np.asarray(b)
  need(a.shape == b.shape, f"{what}: shape {a.shape}, expected {b.shape}")
  if a.size:
    need(np.all(np.abs(a - b) <= tol * (1 + np.abs(b).max())), f"{what}: {a}\nexpected\n{b}")


def mat(t, nl):
  d = t.todense()
  l = int(np.prod(d.shape[:nl]))
  return d.reshape((l, int(np.prod(d.shape[nl:]))))


def isometry(t, nl, left, what):
  x = mat(t, nl)
  if left:
    eq(x.conj().T @ x, np.eye(x.shape[1]), what + " isometric")
  else:
    eq(x @ x.conj().T, np.eye(x.shape[0]), what + " isometric")


def guard(rec, sig, msg, f):
  rec.step()
  try:
    f()
    rec.validated()
  except Bad as b:
    rec.fail(sig, f"{msg}: {b}")
  except Exception as ex:  # pylint: disable=broad-except
    rec.fail(f"{sig} raised {type(ex).__name__}", f"{msg}: {ex!r}")


def sectors(m):
  """{charge: dense block} of a matrix model with groups [l, r]."""
  nl = m.groups[0]
  out = {}
  rows = [bsx.total(m.sym, m.legs[:nl], m.flows[:nl], p)
          for p in itertools.product(*[range(len(q)) for q in m.legs[:nl]])]
  cols = [bsx.dual(m.sym, bsx.total(m.sym, m.legs[nl:], m.flows[nl:], p))
          for p in itertools.product(*[range(len(q)) for q in m.legs[nl:]])]
  v = m.value()
  for c in sorted(set(rows) & set(cols)):
    out[c] = v[np.ix_([i for i, x in enumerate(rows) if x == c], [i for i, x in enumerate(cols) if x == c])]
  return out


# ---------------------------------------------------------------- rectangular
def perms(n, th):
  ps = list(itertools.permutations(range(n)))
  if th or n <= 2:
    return ps
  return [ps[0], ps[len(ps) // 2 + 1]]


def k_mat(desc, sym, ls, rec):
  legs = [ls[i] for i in desc["l"] + desc["r"]]
  nl, n = len(desc["l"]), len(desc["l"] + desc["r"])
  allf = list(itertools.product((False, True), repeat=n))
  if n > 2 and not desc["th"]:
    allf = [f for f in allf if sum(f) in (1, 2)][::3]
  for flows in allf:
    for pi, p in enumerate(perms(n, desc["th"])):
      pats = PATTERNS if n == 2 and desc["th"] else PATTERNS[1 - pi::2] if n == 2 else [PATTERNS[(pi + sum(flows)) % 5], PATTERNS[(pi + sum(flows) + 2) % 5]]
      for pat in pats:
        t, m = tensor(sym, legs, flows, p, pat)
        t, m = fuse(t, m, nl)
        msg = f"{sym} {legs} {flows} split {nl} layout {p} {pat}"
        rec.state()
        if not desc["l"] or not all(legs):
          rec.outcome("empty leg")
        guard(rec, "svd", msg, lambda: t_svd(t, m))
        guard(rec, "qr", msg, lambda: t_qr(t, m))
        guard(rec, "pinv", msg, lambda: t_pinv(t, m))
        guard(rec, "diag of a matrix", msg, lambda: t_diag(t, m))
        bad = bsx.compare(t, m)
        if bad:
          rec.fail("argument changed", f"{msg}: {bad}")


def t_svd(t, m):
  nl = m.groups[0]
  d = m.value()
  sec = sectors(m)
  for full in (True, False):
    u, s, v = bs.svd(t, full_matrices=full)
    for x in (u, v):
      need(not wf(x), f"svd full={full}: {wf(x)}")
    need(isinstance(s, ChargeArray) and s.ndim == 1, "S is a vector")
    need(s.dtype == np.zeros(1, t.dtype).real.dtype, f"dtype of S {s.dtype}")
    need(u.dtype == t.dtype and v.dtype == t.dtype, f"dtype of U, V {u.dtype} {v.dtype}")
    outer_legs(u, [0], m.legs[:nl], m.flows[:nl], [nl])
    outer_legs(v, [1], m.legs[nl:], m.flows[nl:], [len(m.legs) - nl])
    isometry(u, 1, True, "U")
    isometry(v, 1, False, "V")
    sv = np.asarray(s.data)
    need(np.all(sv >= 0), "negative singular values")
    exp = np.sort(np.concatenate([np.linalg.svd(b, compute_uv=False) for b in sec.values()] or [np.zeros(0)]))
    eq(np.sort(sv), exp, "singular values")
    dense = np.sort(np.linalg.svd(d, compute_uv=False)) if d.size else np.zeros(0)
    k = min(len(dense), len(exp))
    eq(dense[len(dense) - k:], exp[len(exp) - k:], "singular values of the dense matrix")
    need(np.all(dense[:len(dense) - k] < 1e-9), "dense matrix has more singular values")
    qs, fs = bond(s, 0)
    need(not fs, "flow of S")
    need(len(qs) == len(sv), "charges of S")
    seen = {}
    for q, x in zip(qs, sv):
      need(seen.get(q, np.inf) >= x, "singular values of a sector descend")
      seen[q] = x
    need(sorted(seen) == sorted(sec) if not full else True, "sectors of S")
    for q, c in ((q, qs.count(q)) for q in set(qs)):
      need(q in sec and c == min(sec[q].shape), f"sector {q} has {c} singular values")
    qu, fu = bond(u, 1)
    qv, fv = bond(v, 0)
    need(fu and not fv, "flows of the new bonds")
    if full:
      for q in sec:
        need(qu.count(q) == sec[q].shape[0] and qv.count(q) == sec[q].shape[1], f"full bond, sector {q}")
    else:
      need(qu == qs and qv == qs, "bond charges of U, S and V")
      r = bs.tensordot(bs.tensordot(u, bs.diag(s), ([1], [0])), v, ([1], [0]))
      bad = bsx.compare(r, m, 1e-9)
      need(not bad, f"U S V: {bad}")
      r = bs.tensordot(u, B.broadcast_left_multiplication(s, v), ([1], [0]))
      bad = bsx.compare(r, m, 1e-9)
      need(not bad, f"U (S V): {bad}")
      r = bs.tensordot(B.broadcast_right_multiplication(u, s), v, ([1], [0]))
      bad = bsx.compare(r, m, 1e-9)
      need(not bad, f"(U S) V: {bad}")
  s = bs.svd(t, compute_uv=False)
  eq(np.sort(s.data), exp, "singular values only")
  eq(bs.norm(t), np.sqrt(np.sum(exp ** 2)), "norm")


def t_qr(t, m):
  nl = m.groups[0]
  sec = sectors(m)
  for mode in ("reduced", "complete"):
    q, r = bs.qr(t, mode)
    for x in (q, r):
      need(not wf(x), f"qr {mode}: {wf(x)}")
      need(x.dtype == t.dtype, "dtype")
    outer_legs(q, [0], m.legs[:nl], m.flows[:nl], [nl])
    outer_legs(r, [1], m.legs[nl:], m.flows[nl:], [len(m.legs) - nl])
    isometry(q, 1, True, "Q")
    bad = bsx.compare(bs.tensordot(q, r, ([1], [0])), m, 1e-9)
    need(not bad, f"Q R: {bad}")
    qq, fq = bond(q, 1)
    qr, fr = bond(r, 0)
    need(qq == qr and fq and not fr, "bond of Q and R")
    for c in sec:
      k = min(sec[c].shape) if mode == "reduced" else sec[c].shape[0]
      need(qq.count(c) == k, f"sector {c} of the bond")
    need(set(qq) <= set(sec), "sectors of the bond")
    # upper triangular within each sector
    rm = bsx.Model(m.sym, [qr] + m.legs[nl:], [False] + m.flows[nl:], [1, len(m.legs) - nl], r.todense().reshape([len(qr)] + [len(x) for x in m.legs[nl:]]))
    for c, b in sectors(rm).items():
      need(np.allclose(b, np.triu(b), atol=1e-10), f"R is not upper triangular in sector {c}")
  r2 = bs.qr(t, "r")
  r = bs.qr(t, "reduced")[1]
  eq(r2.todense(), r.todense(), "mode r")


def t_pinv(t, m):
  x = bs.pinv(t)
  need(not wf(x), str(wf(x)))
  if min(m.shape) == 0:
    return
  e = np.linalg.pinv(m.value(), rcond=1e-13)
  nl = m.groups[0]
  d = bsx.Model(m.sym, m.legs[nl:] + m.legs[:nl], [not f for f in m.flows[nl:] + m.flows[:nl]],
                [len(m.legs) - nl, nl], e.reshape([len(q) for q in m.legs[nl:] + m.legs[:nl]]))
  x = bs.pinv(t, rcond=1e-13)
  bad = bsx.compare(x, d, 1e-8)
  need(not bad, f"pinv: {bad}")


def t_diag(t, m):
  x = bs.diag(t)
  qs, f = bond(x, 0)
  need(isinstance(x, ChargeArray) and not f and len(qs) == x.data.size, "form of the diagonal")
  sec = sectors(m)
  for q in set(qs) | set(sec):
    need(q in sec, f"sector {q}")
    eq(x.data[[i for i, y in enumerate(qs) if y == q]], np.diag(sec[q]), f"diagonal of sector {q}")
  eq(np.asarray(B.diagonal(t).data), np.asarray(x.data), "backend diagonal")


# ---------------------------------------------------------------- square
def k_square(desc, sym, ls, rec):
  half = [ls[i] for i in desc["l"]]
  n = len(half)
  for fl in itertools.product((False, True), repeat=n):
    legs, flows = half * 2, list(fl) + [not f for f in fl]
    idx = bsx.index(sym, half[0], fl[0])
    for q, f in zip(half[1:], fl[1:]):
      idx = idx * bsx.index(sym, q, f)
    dim = int(np.prod([len(q) for q in half]))
    msg = f"{sym} {half} {fl}"
    rec.state()
    for dt in (None, np.float64, np.complex128, np.float32):
      def g():
        # pylint: disable=cell-var-from-loop
        for e in (bs.eye(idx, dtype=dt), B.eye(idx, dtype=dt), bs.eye(idx, idx.copy().flip_flow(), dtype=dt)):
          need(e.dtype == (dt or np.float64), "dtype")
          m = bsx.Model(sym, [list(q) for q in legs], list(flows), [n, n],
                        np.eye(dim).reshape([len(q) for q in legs]))
          bad = bsx.compare(e, m)
          need(not bad, bad)
      guard(rec, "eye", msg, g)
    for pi, p in enumerate(perms(2 * n, desc["th"])):
      for pat in PATTERNS if desc["th"] or n == 1 else PATTERNS[1 - pi::2]:
        t, m = tensor(sym, legs, flows, p, pat)
        t, m = fuse(t, m, n)
        mm = f"{msg} layout {p} {pat}"
        rec.state()
        guard(rec, "eig", mm, lambda: t_eig(t, m))
        guard(rec, "trace", mm, lambda: eq(bs.trace(t), np.trace(m.value()), "trace"))
        guard(rec, "inv", mm, lambda: t_inv(t, m))
        # hermitian: t + t^dagger
        h = m.value()
        h = h + h.conj().T
        hm = m.map(lambda _, h=h: h.reshape(m.dense.shape))
        mdl = hm.regroup([1] * (2 * n)).transpose([int(i) for i in p])
        ht = BlockSparseTensor.fromdense(
            [bsx.index(sym, q, f) for q, f in zip(mdl.legs, mdl.flows)], mdl.dense)
        ht = ht.transpose([int(i) for i in np.argsort(p)])
        ht, hm = fuse(ht, hm.regroup([1] * (2 * n)), n)
        guard(rec, "eigh", mm, lambda: t_eigh(ht, hm))
        bad = bsx.compare(t, m)
        if bad:
          rec.fail("argument changed", f"{mm}: {bad}")
    # rows without a partner: not invertible
    if n == 1 and len(set(map(tuple, half[0]))) > 1:
      out = [q for x in ls for q in x if q not in half[0]]
      other = [q if q == half[0][0] else out[0] if out else half[0][0] for q in half[0]]
      t, m = tensor(sym, [half[0], other], [fl[0], not fl[0]], (0, 1), "gen")

      def singular():
        try:
          x = bs.inv(t)
        except np.linalg.LinAlgError:
          return
        raise Bad(f"the inverse of a singular matrix is {x.todense()}")
      guard(rec, "inverse of a singular matrix", msg, singular)


def t_eig(t, m):
  n = m.groups[0]
  e, v = bs.eig(t)
  need(not wf(v), str(wf(v)))
  outer_legs(v, [0], m.legs[:n], m.flows[:n], [n])
  qs, f = bond(e, 0)
  qv, fv = bond(v, 1)
  need(qs == qv and not f and fv, "bond of E and V")
  a, w = m.value(), v.todense()
  eq(a @ w, w * np.asarray(e.data)[None, :], "A V = V E", 1e-7)
  need(len(e.data) == a.shape[0], "number of eigenvalues")
  for i in range(w.shape[1]):
    need(abs(np.linalg.norm(w[:, i]) - 1) < 1e-9, "norm of an eigenvector")
  if a.shape[0]:
    sec = sectors(m)
    for q in sec:
      x = np.sort_complex(np.asarray(e.data, complex)[[i for i, y in enumerate(qs) if y == q]])
      y = np.sort_complex(np.linalg.eigvals(sec[q]).astype(complex))
      need(np.allclose(np.poly(x), np.poly(y), rtol=1e-7, atol=1e-7 * (1 + np.abs(y).max() ** len(y))), f"eigenvalues of sector {q}: {x} {y}")


def t_eigh(t, m):
  n = m.groups[0]
  for f in (lambda: bs.eigh(t), lambda: bs.eigh(t, "U"), lambda: B.eigh(t)):
    e, v = f()
    need(not wf(v), str(wf(v)))
    outer_legs(v, [0], m.legs[:n], m.flows[:n], [n])
    qs, fe = bond(e, 0)
    qv, fv = bond(v, 1)
    need(qs == qv and not fe and fv, "bond of E and V")
    a, w = m.value(), v.todense()
    eq(a @ w, w * np.asarray(e.data)[None, :], "A V = V E", 1e-9)
    eq(w.conj().T @ w, np.eye(a.shape[0]), "V unitary")
    eq(np.sort(e.data), np.sort(np.linalg.eigvalsh(a)) if a.size else np.zeros(0), "eigenvalues")
    need(e.dtype == np.zeros(1, t.dtype).real.dtype, "dtype of E")
    seen = {}
    for q, x in zip(qs, e.data):
      need(seen.get(q, -np.inf) <= x, "eigenvalues of a sector ascend")
      seen[q] = x


def t_inv(t, m):
  a = m.value()
  if a.size and (np.linalg.matrix_rank(a) < a.shape[0] or np.linalg.cond(a) > 1e8):
    try:
      x = bs.inv(t)
    except np.linalg.LinAlgError:
      return
    need(np.linalg.norm(x.todense()) > 1e7, "inverse of a singular matrix")
    return
  n = m.groups[0]
  for f in (lambda: bs.inv(t), lambda: B.inv(t)):
    x = f()
    need(not wf(x), str(wf(x)))
    e = np.linalg.inv(a)
    d = bsx.Model(m.sym, m.legs[n:] + m.legs[:n], [not q for q in m.flows[n:] + m.flows[:n]],
                  [n, n], e.reshape([len(q) for q in m.legs]))
    bad = bsx.compare(x, d, 1e-7)
    need(not bad, f"inv: {bad}")


# ---------------------------------------------------------------- diagonals
def k_vec(desc, sym, ls, rec):
  legs = [ls[i] for i in desc["l"]]
  n = len(legs)
  for flows in itertools.product((False, True), repeat=n):
    for p in itertools.permutations(range(n)):
      rec.state()
      msg = f"{sym} diag of {legs} {flows} layout {p}"

      def g():
        # pylint: disable=cell-var-from-loop
        ql, fl = [legs[i] for i in p], [flows[i] for i in p]
        size = int(np.prod([len(q) for q in ql]))
        data = bsx.fill((size,), 2)
        c = ChargeArray(data, [bsx.charge(sym, q, "lab2" if q else "raw") for q in ql], list(fl))
        c = c.transpose([int(i) for i in np.argsort(p)])
        o = [i for x in c._order for i in x]
        c = ChargeArray(c.data, c._charges, c._flows, [o], check_consistency=False)
        dense = data.reshape([len(q) for q in ql]).transpose([int(i) for i in np.argsort(p)]).ravel()
        eq(c.todense(), dense, "the vector")
        for x in (bs.diag(c), B.diagflat(c)):
          m = bsx.Model(sym, [list(q) for q in legs] * 2, list(flows) + [not f for f in flows], [n, n],
                        np.diag(dense).reshape([len(q) for q in legs] * 2))
          bad = bsx.compare(x, m)
          need(not bad, bad)
        if size:
          eq(bs.trace(x), np.sum(dense), "trace of a diagonal matrix")
        back = bs.diag(x)
        eq(np.sort(back.data), np.sort(dense), "diagonal of a diagonal matrix")
        eq(c.todense(), dense, "the vector afterwards")
      guard(rec, "diag of a vector", msg, g)


# ---------------------------------------------------------------- tensors
def k_dec(desc, sym, ls, rec):
  legs = [ls[i] for i in desc["l"]]
  n = len(legs)
  allf = list(itertools.product((False, True), repeat=n))
  if n > 2:
    allf = allf if desc["th"] and n == 3 else [f for f in allf if sum(f) in (1, 2)][::(3 if n == 3 else 5)]
  for flows in allf:
    for pi, p in enumerate(perms(n, desc["th"])):
      pats = PATTERNS if n == 2 and desc["th"] else PATTERNS[1 - pi::2] if n == 2 else \
          [PATTERNS[(pi * 2 + sum(flows) + sum(desc["l"])) % 5]]
      for pat in pats:
        for pivot in range(1, n):
          t, m = tensor(sym, legs, flows, p, pat)
          rec.state()
          msg = f"{sym} {legs} {flows} layout {p} {pat} pivot {pivot}"
          guard(rec, "backend svd", msg, lambda: d_svd(rec, t, m, pivot))
          guard(rec, "backend qr", msg, lambda: d_qr(t, m, pivot))
          if pat != "zero" and (pi == 0 or desc["th"] or n == 2):
            guard(rec, "split_node", msg, lambda: d_split(t, m, pivot))
          bad = bsx.compare(t, m)
          if bad:
            rec.fail("argument changed", f"{msg}: {bad}")
        # legs fused before the split
        if n > 2 and pi == 0:
          t, m = tensor(sym, legs, flows, p, pat)
          o = [[0, 1]] + [[i] for i in range(2, n)]
          order = [i for g in t._order for i in g]
          t = BlockSparseTensor(t.data, t._charges, t._flows, [[order[i] for i in g] for g in o], check_consistency=False)
          m = m.regroup([2] + [1] * (n - 2))
          for pivot in range(1, n - 1):
            msg = f"{sym} {legs} {flows} fused {pat} pivot {pivot}"
            guard(rec, "backend svd", msg, lambda: d_svd(rec, t, m, pivot))
            guard(rec, "backend qr", msg, lambda: d_qr(t, m, pivot))


def cut(m, pivot):
  """Matrix model of the bipartition."""
  return m.regroup([sum(m.groups[:pivot]), sum(m.groups[pivot:])])


def d_svd(rec, t, m, pivot):
  n = len(m.groups)
  nl = sum(m.groups[:pivot])
  mm = cut(m, pivot)
  sec = sectors(mm)
  ref = np.sort(np.concatenate([np.linalg.svd(b, compute_uv=False) for b in sec.values()] or [np.zeros(0)]))
  tot = len(ref)
  opts = [{}]
  opts += [{"max_singular_values": k} for k in range(0, tot + 2)]
  cum = np.sqrt(np.cumsum(ref ** 2))
  marks = sorted(set(np.round(cum, 9)))
  errs = [(a + b) / 2 for a, b in zip([0.0] + marks, marks + [2 * (marks[-1] if marks else 1) + 1])]
  errs = [e for e in errs if all(abs(e - c) > 1e-6 for c in marks)]
  if n > 3 or tot > 4:
    errs = errs[:2] + errs[2:-1][(n + pivot) % 2::2] + errs[-1:]
    errs = sorted(set(errs))
  opts += [{"max_truncation_error": e} for e in errs]
  if tot and ref[-1] > 1e-6:
    opts += [{"max_truncation_error": e / ref[-1], "relative": True} for e in errs[::1 if n == 2 else 2]]
    opts += [{"max_truncation_error": errs[len(errs) // 2], "max_singular_values": max(1, tot // 2)}]
    opts += [{"max_truncation_error": errs[0], "max_singular_values": max(1, tot - 1)}]
  for o in opts:
    rec.step()
    u, s, v, disc = B.svd(t, pivot, **o)
    x = o.get("max_truncation_error")
    keep = tot
    if x is not None:
      x = x * ref[-1] if o.get("relative") else x
      keep = int(np.sum(cum > x))
    if o.get("max_singular_values") is not None:
      keep = min(keep, o["max_singular_values"])
    for z in (u, v):
      need(not wf(z), f"{o}: {wf(z)}")
      need(z.dtype == t.dtype, f"{o}: dtype {z.dtype}")
    outer_legs(u, range(pivot), m.legs[:nl], m.flows[:nl], m.groups[:pivot])
    outer_legs(v, range(1, n - pivot + 1), m.legs[nl:], m.flows[nl:], m.groups[pivot:])
    need(u.ndim == pivot + 1 and v.ndim == n - pivot + 1, f"{o}: ranks {u.ndim} {v.ndim}")
    qu, fu = bond(u, u.ndim - 1)
    qv, fv = bond(v, 0)
    qs, fs = bond(s, 0)
    need(qu == qv == qs and fu and not fv and not fs, f"{o}: bonds {qu} {qv} {qs}")
    need(len(qs) == len(s.data), f"{o}: form of S")
    need(len(disc.data) == len(bond(disc, 0)[0]), f"{o}: form of the discarded values")
    eq(np.sort(s.data), ref[tot - keep:], f"{o}: kept singular values")
    eq(np.sort(disc.data), ref[:tot - keep], f"{o}: discarded singular values")
    isometry(u, pivot, True, f"{o}: U")
    isometry(v, 1, False, f"{o}: V")
    if not o:
      r = bs.tensordot(bs.tensordot(u, bs.diag(s), ([pivot], [0])), v, ([pivot], [0]))
      bad = bsx.compare(r, m, 1e-9)
      need(not bad, f"{o}: U S V: {bad}")
    # the bonds match charge by charge: the product can be taken densely
    r = np.tensordot(u.todense() * np.asarray(s.data), v.todense(), ([pivot], [0]))
    if keep == tot:
      eq(r, m.value(), f"{o}: U S V")
    else:
      e = np.linalg.norm(r - m.value())
      need(abs(e - cum[tot - keep - 1]) < 1e-8 * (1 + cum[-1]), f"{o}: error {e}, expected {cum[tot - keep - 1]}")
      # every sector keeps its largest values
      got = sectors(cut(bsx.Model(m.sym, m.legs, m.flows, m.groups, r.reshape(m.dense.shape)), pivot))
      for q, b in got.items():
        need(np.linalg.matrix_rank(b, tol=1e-7 * (1 + cum[-1])) <= qs.count(q), f"{o}: rank of sector {q}")


def d_qr(t, m, pivot):
  n = len(m.groups)
  nl = sum(m.groups[:pivot])
  for name in ("qr", "rq"):
    a, b = getattr(B, name)(t, pivot)
    for z in (a, b):
      need(not wf(z), f"{name}: {wf(z)}")
    outer_legs(a, range(pivot), m.legs[:nl], m.flows[:nl], m.groups[:pivot])
    outer_legs(b, range(1, n - pivot + 1), m.legs[nl:], m.flows[nl:], m.groups[pivot:])
    qa, fa = bond(a, a.ndim - 1)
    qb, fb = bond(b, 0)
    need(qa == qb and fa != fb, f"{name}: bonds {qa} {fa} {qb} {fb}")
    if name == "qr":
      isometry(a, pivot, True, "Q")
    else:
      isometry(b, 1, False, "Q")
    bad = bsx.compare(bs.tensordot(a, b, ([pivot], [0])), m, 1e-9)
    need(not bad, f"{name} product: {bad}")


def d_split(t, m, pivot):
  n = len(m.groups)
  # the left legs in every rotation of the axes
  for shift in range(n)[::1 if n < 4 else 3]:
    axes = [(i + shift) % n for i in range(n)]
    left, right = axes[:pivot], axes[pivot:]
    for name in ("split_node", "split_node_qr", "split_node_rq", "split_node_full_svd"):
      node = tn.Node(t, backend="symmetric")
      es = list(node.edges)
      res = getattr(tn, name)(node, [es[i] for i in left], [es[i] for i in right])
      new = [x for x in res if isinstance(x, tn.AbstractNode)]
      for x in new:
        if isinstance(x.tensor, BlockSparseTensor):
          need(not wf(x.tensor), f"{name}: {wf(x.tensor)}")
      y = new[0]
      for x in new[1:]:
        y = tn.contract_between(y, x)
      y.reorder_edges(es)
      bad = bsx.compare(y.tensor, m, 1e-8)
      need(not bad, f"{name} {left} {right}: {bad}")

"""C19: the Tensor wrapper, its free functions and Node operators against arrays."""
import itertools
import math
import operator
import numpy as np
import scipy.linalg
import tensornetwork as tn
from tensornetwork import linalg as _l  # noqa: F401
from tensornetwork.backends import backend_factory
from tensornetwork.linalg import linalg as lin, node_linalg as nl, operations as ops
from tensornetwork.tensor import NconBuilder, Tensor
from mc.core import Violation
from mc.checks.c12 import SHAPES, arr, dot_ref, factorings, signs

TITLE = "wrapped tensors, their operators and free functions"
LEVEL = "model_checking"
RULE = ("every property, method, operator and free function of the tensor wrapper and of "
        "Node arithmetic x numpy/jax/tensorflow x dtype x every shape (pair of broadcastable "
        "shapes) x scalar/tensor operands in both orders x every argument; all programs of "
        "up to three wrapper methods; value, shape, size, ndim, dtype and backend against "
        "numpy, operands byte-identical afterwards, backend mixing refused")
ASSUMPTIONS = [
    "plain numpy on the same data is the definition of every result",
    "scalar operands are python int/float/complex (arrays and scalar/Tensor are outside the "
    "documented signature); tensorflow operands share their dtype and its permutations are "
    "non-negative (tensorflow itself aborts the process on negative ones)"]
BOUNDS = {
    "quick": "13 shapes of rank 0..3 with dimensions 1..3; float64 and complex128; programs "
             "of depth 2",
    "thorough": "float32/complex64/int64 as well, rank 4, programs of depth 3",
}
BES = ("numpy", "jax", "tensorflow")
GROUPS = ["props", "transpose", "reshape", "scalar", "pairs", "matmul", "call", "tensordot",
          "slice", "unary", "einsum", "diag", "pivot", "kron", "linalg", "mixed", "nodeop",
          "nodelin", "program"]


def cases(tier):
  th = tier == "thorough"
  for be in BES:
    for g in GROUPS:
      dts = ["float64", "complex128"]
      if th:
        dts += ["float32", "complex64"]
      if g in ("props", "transpose", "reshape", "scalar", "pairs", "tensordot", "slice"):
        if th or be == "numpy":
          dts += ["int64"]
      for dt in dts:
        parts = {"pairs": 4, "tensordot": 4, "program": 4, "slice": 2}.get(g, 1)
        for p in range(parts):
          yield {"be": be, "m": g, "dt": dt, "part": [p, parts], "th": th}


def mk(shape, k, dt):
  if np.dtype(dt).kind == "i":
    return np.random.RandomState(k).randint(1, 7, size=shape).astype(dt) * (1 - 2 * (k % 2))
  return arr(shape, k, dt)


class Env:
  def __init__(self, desc, rec):
    self.name = desc["be"]
    self.dt = np.dtype(desc["dt"])
    self.rec = rec
    self.part = desc["part"]
    self.th = desc["th"]
    self.be = backend_factory.get_backend(self.name)
    self.n = 0
    self.single = self.dt.itemsize // (2 if self.dt.kind == "c" else 1) == 4
    self.shapes = SHAPES + ([(2, 2, 3, 2), (4, 3)] if desc["th"] else [])

  def mine(self):
    self.n += 1
    return self.n % self.part[1] == self.part[0]

  def T(self, x):
    return Tensor(self.be.convert_to_tensor(np.array(x)), backend=self.name)

  def check(self, sig, out, ref, what="", dtype=True, kind=Tensor):
    r = np.asarray(ref)
    if kind is not None and type(out) is not kind:
      raise Violation(f"{self.name}:{sig}:type", f"{type(out)}")
    if isinstance(out, Tensor):
      if out.backend.name != self.name:
        raise Violation(f"{self.name}:{sig}:backend", out.backend.name)
      if tuple(out.shape) != r.shape or out.ndim != r.ndim or int(out.size) != r.size:
        raise Violation(f"{self.name}:{sig}:shape",
                        f"{out.shape} {out.ndim} {out.size} expected {r.shape} for {what}")
      o = np.asarray(out.array)
      if isinstance(out.array, np.ndarray) != (self.name == "numpy") and not (
          self.name == "numpy" and np.isscalar(out.array)):
        raise Violation(f"{self.name}:{sig}:array", f"{type(out.array)}")
      if np.dtype(getattr(out.dtype, "name", out.dtype)) != o.dtype:
        raise Violation(f"{self.name}:{sig}:dtype", f"{out.dtype} {o.dtype}")
    elif isinstance(out, tn.AbstractNode):
      if out.backend.name != self.name:
        raise Violation(f"{self.name}:{sig}:backend", out.backend.name)
      if tuple(out.shape) != r.shape or len(out.edges) != r.ndim:
        raise Violation(f"{self.name}:{sig}:shape", f"{out.shape} expected {r.shape} for {what}")
      o = np.asarray(out.tensor)
    else:
      o = np.asarray(out)
    if o.shape != r.shape:
      raise Violation(f"{self.name}:{sig}:shape", f"{o.shape} expected {r.shape} for {what}")
    tol = 2e-4 if self.single else 1e-10
    if not np.allclose(o, r, rtol=tol, atol=tol * max(1.0, np.abs(r).max() if r.size else 1),
                       equal_nan=True):
      raise Violation(f"{self.name}:{sig}", f"{o.tolist()} expected {r.tolist()} for {what}"[:900])
    if dtype and o.dtype != r.dtype:
      raise Violation(f"{self.name}:{sig}:dtype", f"{o.dtype} expected {r.dtype} for {what}")
    self.rec.step()
    self.rec.state((self.name, sig, str(self.dt)))

  def __call__(self, sig, ref, f, *arrays, dtype=True, kind=Tensor, wrap=None):
    ts = [(wrap or self.T)(a) for a in arrays]
    what = f"{[a.shape for a in arrays]} {self.dt}"
    try:
      out = f(*ts)
    except Exception as e:
      raise Violation(f"{self.name}:{sig}:{type(e).__name__}", f"{what}: {e!r}"[:900]) from e
    self.check(sig, out, ref, what, dtype, kind)
    for t, a in zip(ts, arrays):
      d = np.asarray(t.array if isinstance(t, Tensor) else t.tensor)
      if d.shape != a.shape or d.dtype != a.dtype or not np.array_equal(d, a, equal_nan=True):
        raise Violation(f"{self.name}:{sig}:operand", "operand modified")
      if tuple(t.shape) != a.shape:
        raise Violation(f"{self.name}:{sig}:operand", "operand shape modified")
    return out

  def refused(self, sig, f, exc=(ValueError, TypeError)):
    try:
      f()
    except exc:
      self.rec.outcome("refused:" + sig)
      self.rec.step()
      return
    raise Violation(f"{self.name}:{sig}:accepted", "")


def m_props(E):
  for s in E.shapes:
    a = mk(s, 1, E.dt)
    E("construct", a, lambda t: t, a)
    with tn.DefaultBackend(E.name):
      E.check("construct:default", Tensor(E.be.convert_to_tensor(a.copy())), a)
    E.check("construct:object", Tensor(E.be.convert_to_tensor(a.copy()), backend=E.be), a)
    E.check("construct:numpy", Tensor(a.copy(), backend=E.name), a)
    E("T", a.T, lambda t: t.T, a)
    E("H", a.conj().T, lambda t: t.H, a)
    E("conj", a.conj(), lambda t: t.conj(), a)
    E("conj", a.conj(), lambda t: t.conjugate(), a)
    E("conj", a.conj(), ops.conj, a)
    E("hconj", a.conj().T, lambda t: t.hconj(), a)
    E("flatten", a.reshape(-1), lambda t: t.flatten(), a)
    E("ravel", a.reshape(-1), lambda t: t.ravel(), a)
    E("squeeze", a.squeeze(), lambda t: t.squeeze(), a)
    sh = ops.shape(E.T(a))
    if tuple(sh) != a.shape:
      raise Violation(f"{E.name}:shape", f"{sh}")
    for f in ("copy", "flatten"):
      t = E.T(a)
      c = getattr(t, f)()
      if c is t or (E.name == "numpy" and np.shares_memory(c.array, t.array)):
        raise Violation(f"{E.name}:{f}:alias", str(s))
      E.check(f, c, a if f == "copy" else a.reshape(-1))
      if E.name == "numpy":
        c.array[...] = 7
        E.check(f + ":independent", t, a)


def m_transpose(E):
  for s in E.shapes:
    a = mk(s, 1, E.dt)
    for p in itertools.permutations(range(len(s))):
      neg = tuple(x - len(s) if k % 2 else x for k, x in enumerate(p))
      for q in (p, list(p)) + ((neg,) if E.name != "tensorflow" else ()):
        E("transpose", a.transpose(p), lambda t: t.transpose(q), a)
      E("transpose:kw", a.transpose(p), lambda t: t.transpose(perm=p), a)
      E("transpose:free", a.transpose(p), lambda t: ops.transpose(t, p), a)
      E("hconj", a.conj().transpose(p), lambda t: t.hconj(p), a)
      E("hconj:free", a.conj().transpose(p), lambda t: ops.hconj(t, perm=p), a)
    E("transpose:free", a.T, lambda t: ops.transpose(t), a)
    E("hconj:free", a.conj().T, lambda t: ops.hconj(t), a)


def m_reshape(E):
  for s in E.shapes:
    a = mk(s, 1, E.dt)
    for r in range(5 if E.th else 4):
      for u in factorings(a.size, r):
        E("reshape", a.reshape(u), lambda t: t.reshape(u), a)
        E("reshape", a.reshape(u), lambda t: t.reshape(list(u)), a)
        E("reshape:free", a.reshape(u), lambda t: ops.reshape(t, u), a)
        E("reshape:kw", a.reshape(u), lambda t: t.reshape(shape=u), a)


OPS = [("add", operator.add), ("sub", operator.sub), ("mul", operator.mul),
       ("div", operator.truediv)]
IOPS = {"add": operator.iadd, "sub": operator.isub, "mul": operator.imul,
        "div": operator.itruediv}


def m_scalar(E):
  sc = [2, -3, 0, 1] if E.dt.kind == "i" else [2, -3, 0, 0.5, -1.25]
  if E.dt.kind == "c":
    sc += [2j, 0.5 - 1.5j]
  for s in E.shapes:
    a = mk(s, 1, E.dt)
    for c in sc:
      for n, f in OPS:
        if n == "div" and (c == 0 or E.dt.kind == "i" and E.name == "tensorflow"):
          continue
        E(f"{n}:scalar", f(a, c), lambda t: f(t, c), a)
        if n != "div":
          E(f"r{n}:scalar", f(c, a), lambda t: f(c, t), a)
        E(f"i{n}:scalar", f(a, c), lambda t: IOPS[n](t, c), a)


def bshape(sa, sb):
  try:
    return np.broadcast_shapes(sa, sb)
  except ValueError:
    return None


def m_pairs(E):
  for sa, sb in itertools.product(E.shapes, repeat=2):
    if bshape(sa, sb) is None or not E.mine():
      continue
    a, b = mk(sa, 1, E.dt), mk(sb, 2, E.dt)
    for n, f in OPS:
      E(n, f(a, b), f, a, b)
      E("i" + n, f(a, b), IOPS[n], a, b)
    t = E.T(a)
    for n, f in OPS:
      E.check(n + ":self", f(t, t), f(a, a))
    E.check("unchanged", t, a)
    E("tensor scalar", f(a, b.reshape(-1)[0]), f, a, np.array(b.reshape(-1)[0]))


def m_matmul(E):
  sh = [s for s in E.shapes if len(s) >= 2] + [(3, 3), (3, 1)]
  for sa, sb in itertools.product(sh, repeat=2):
    if sa[-1] != sb[-2] or bshape(sa[:-2], sb[:-2]) is None:
      continue
    a, b = mk(sa, 1, E.dt), mk(sb, 2, E.dt)
    E("matmul", a @ b, operator.matmul, a, b)
  a = E.T(mk((2, 3), 1, E.dt))
  E.refused("matmul shape", lambda: a @ a, exc=(Exception,))


def m_call(E):
  dims = {1: 2, 2: 3, 3: 2, -1: 2, -2: 3, -3: 1, "x": 2}
  lists = [[[1, 2], [2, 1]], [[-1, 1], [1, -2]], [[-2, 1], [1, 2], [2, -1]], [[1, 1]],
           [[1, 2, -1], [2, 1]], [[-1, -2], [-3]], [[-3, 1, 1, -1], [-2]], [[1], [1]],
           [[-1, 1], [1, 2], [2, 3], [3, -2]]]
  for ls in lists:
    arrays = [mk(tuple(dims[x] for x in l), 3 + k, E.dt) for k, l in enumerate(ls)]
    letters = {l: chr(97 + k) for k, l in enumerate(sorted({x for l in ls for x in l}))}
    out = "".join(letters[-k] for k in range(1, 5) if -k in letters)
    ref = np.einsum(",".join("".join(letters[x] for x in l) for l in ls) + "->" + out, *arrays)
    ts = [E.T(a) for a in arrays]
    b = ts[0](*ls[0])
    if not isinstance(b, NconBuilder):
      raise Violation(f"{E.name}:call", f"{type(b)}")
    pre = []
    for t, l in zip(ts[1:], ls[1:]):
      pre.append((b, list(b.tensors), [list(x) for x in b.axes]))
      b = b @ t(*l)
    for old, tt, aa in pre:
      if len(old.tensors) != len(tt) or old.axes != aa:
        raise Violation(f"{E.name}:call:alias", "builder modified")
    if [list(x) for x in b.axes] != ls or any(x is not y for x, y in zip(b.tensors, ts)):
      raise Violation(f"{E.name}:call:axes", f"{b.axes}")
    res = tn.finalize(b)
    E.check("call:ncon", res, ref, ls)
    E.check("ncon:tensors", tn.ncon(ts, ls, backend=E.name), ref, ls)
    if len(ts) > 2:  # right-associated builders
      r = ts[-1](*ls[-1])
      for t, l in zip(ts[-2::-1], ls[-2::-1]):
        r = t(*l) @ r
      E.check("call:right", tn.finalize(r), ref, ls)
    for t, a in zip(ts, arrays):
      E.check("call:operand", t, a)


def m_tensordot(E):
  for sa, sb in itertools.product(E.shapes, repeat=2):
    a, b = mk(sa, 1, E.dt), mk(sb, 2, E.dt)
    for k in range(min(len(sa), len(sb)) + 1):
      for i in itertools.permutations(range(len(sa)), k):
        for j in itertools.combinations(range(len(sb)), k):
          if any(sa[x] != sb[y] for x, y in zip(i, j)) or not E.mine():
            continue
          ref = dot_ref(a, b, (i, j))
          E("tensordot", ref, lambda x, y: ops.tensordot(x, y, [list(i), list(j)]), a, b)
          if i == tuple(range(len(sa) - k, len(sa))) and j == tuple(range(k)):
            E("tensordot:int", ref, lambda x, y: ops.tensordot(x, y, k), a, b)
    if E.mine():
      E("outer", np.multiply.outer(a, b), ops.outer, a, b)


def m_slice(E):
  for s in E.shapes:
    if not s or len(s) > 3:
      continue
    a = mk(s, 1, E.dt)
    spaces = [[(st, sz) for st in range(d) for sz in range(1, d - st + 1)] for d in s]
    for combo in itertools.product(*spaces):
      if not E.mine():
        continue
      st, sz = zip(*combo)
      ref = a[tuple(slice(x, x + y) for x, y in combo)]
      E("take_slice", ref, lambda t: ops.take_slice(t, st, sz), a)


def m_unary(E):
  for s in E.shapes:
    a = mk(s, 1, E.dt)
    for n, f in (("sin", np.sin), ("cos", np.cos), ("exp", np.exp), ("abs", np.abs),
                 ("conj", np.conj)):
      E(n, f(a), getattr(ops, n), a)
    p = a if E.dt.kind == "c" else np.abs(a)
    E("sqrt", np.sqrt(p), ops.sqrt, p)
    E("log", np.log(p), ops.log, p)
    if E.dt.kind != "c":
      E("sign", np.sign(a), ops.sign, a)


def m_einsum(E):
  from mc.checks.c12 import EIN, ein_ref
  for expr in EIN:
    ins = expr.split("->")[0].split(",")
    letters = sorted(set("".join(ins)))
    for ds in itertools.product((1, 2, 3), repeat=len(letters)):
      d = dict(zip(letters, ds))
      arrays = [mk(tuple(d[c] for c in i), n + 1, E.dt) for n, i in enumerate(ins)]
      if len(letters) == 3 and len(set(ds)) < 3 and not E.th:
        continue
      ref = ein_ref(expr, arrays)
      for o in (True, False):
        E("einsum:" + expr, ref, lambda *t: ops.einsum(expr, *t, optimize=o), *arrays)


def m_diag(E):
  for s in E.shapes + [(3, 3), (3, 3, 2)]:
    a = mk(s, 1, E.dt)
    n = len(s)
    if n >= 2:
      E("diagonal:default", a.diagonal(axis1=-2, axis2=-1), lambda t: ops.diagonal(t), a)
      if E.name != "tensorflow" or s[-1] == s[-2]:
        E("trace:default", a.trace(axis1=-2, axis2=-1), lambda t: ops.trace(t), a)
      if E.name == "tensorflow":  # offset and axes are documented as unsupported
        for f in (ops.diagonal, ops.trace):
          for kw in ({"offset": 1}, {"axis1": 0}):
            if f is ops.diagonal and "offset" in kw or f is ops.trace and "axis1" in kw and s[
                0] != s[-1]:
              continue
            try:
              out = f(E.T(a), **kw)
            except (NotImplementedError, ValueError):
              E.rec.outcome("refused:tf diag")
              continue
            kk = dict({"axis1": -2, "axis2": -1}, **kw)
            ref = (np.trace if f is ops.trace else np.diagonal)(a, **kk)
            E.check("tf diag", out, ref)
      else:
        for x, y in itertools.permutations(range(-n, n), 2):
          if x % n == y % n:
            continue
          for off in range(-3, 4):
            ref = np.diagonal(a, off, x, y)
            if not ref.size and not -s[x] < off < s[y]:
              continue
            E("diagonal", ref, lambda t: ops.diagonal(t, offset=off, axis1=x, axis2=y), a)
            E("trace", np.trace(a, off, x, y),
              lambda t: ops.trace(t, offset=off, axis1=x, axis2=y), a)
    for k in range(-2, 3):
      E("diagflat", np.diagflat(a, k), lambda t: ops.diagflat(t, k), a)
    E("diagflat", np.diagflat(a), lambda t: ops.diagflat(t), a)


def m_pivot(E):
  for s in E.shapes:
    if not s:
      continue
    a = mk(s, 1, E.dt)
    E("pivot", a.reshape(-1, s[-1]), lambda t: ops.pivot(t), a)
    for p in range(-len(s), len(s) + 1):
      q = p + len(s) if p < 0 else p
      ref = a.reshape(math.prod(s[:q]), math.prod(s[q:]))
      if p <= len(s):
        E("pivot", ref, lambda t: ops.pivot(t, pivot_axis=p), a)


def kron_ref(a, b):
  x, y = a.ndim // 2, b.ndim // 2
  out = np.multiply.outer(a, b)
  perm = (list(range(x)) + list(range(a.ndim, a.ndim + y)) + list(range(x, a.ndim))
          + list(range(a.ndim + y, a.ndim + b.ndim)))
  return out.transpose(perm)


def m_kron(E):
  ev = [(), (2, 3), (3, 2), (1, 2), (1, 1), (2, 2, 3, 1), (1, 2, 2, 3)]
  for sa, sb in itertools.product(ev, repeat=2):
    a, b = mk(sa, 1, E.dt), mk(sb, 2, E.dt)
    ref = kron_ref(a, b)
    out = E("kron", ref, ops.kron, a, b)
    ma = a.reshape(math.prod(sa[:len(sa) // 2]), -1)
    mb = b.reshape(math.prod(sb[:len(sb) // 2]), -1)
    E.check("kron:matrix", np.asarray(out.array).reshape(ma.shape[0] * mb.shape[0], -1),
            np.kron(ma, mb), kind=None)
    nodes = [tn.Node(E.be.convert_to_tensor(x), backend=E.name) for x in (a, b)]
    E.check("node kron", nl.kron(nodes), ref, (sa, sb), kind=None)
    for sc in ev[:4]:
      c = mk(sc, 4, E.dt)
      nodes = [tn.Node(E.be.convert_to_tensor(x), backend=E.name) for x in (a, b, c)]
      E.check("node kron 3", nl.kron(nodes), kron_ref(ref, c), (sa, sb, sc), kind=None)
  for odd in [(2,), (2, 1, 3)]:
    a, b = E.T(mk(odd, 1, E.dt)), E.T(mk((2, 2), 2, E.dt))
    E.refused("kron odd", lambda: ops.kron(a, b))
    E.refused("kron odd", lambda: ops.kron(b, a))
    E.refused("node kron odd", lambda: nl.kron([tn.Node(b.array, backend=E.name),
                                                tn.Node(a.array, backend=E.name)]))


def m_linalg(E):
  tol = 2e-4 if E.single else 1e-9
  for s in [x for x in E.shapes if len(x) >= 2] + [(2, 3, 2, 2), (4, 4)]:
    a = mk(s, 1, E.dt)
    for p in list(range(1, len(s))) + [-1, None] + ([1 - len(s)] if len(s) > 2 else []):
      kw = {} if p is None else {"pivot_axis": p}
      q = (-1 if p is None else p) % len(s)
      m = a.reshape(math.prod(s[:q]), -1)
      k = min(m.shape)
      sv = np.linalg.svd(m)[1]
      def parts(name, outs, n):
        if type(outs) is not tuple or len(outs) != n or any(type(o) is not Tensor for o in outs):
          raise Violation(f"{E.name}:{name}:result", f"{type(outs)} {s} {p}")
        return [np.asarray(o.array) for o in outs]
      u, d, v, r = parts("svd", lin.svd(E.T(a), **kw), 4)
      if u.shape != s[:q] + (k,) or v.shape != (k,) + s[q:] or r.size:
        raise Violation(f"{E.name}:svd:shape", f"{u.shape} {v.shape} {r.shape} for {s} {p}")
      E.check("svd", np.tensordot(u * d, v, 1), a, (s, p), kind=None, dtype=False)
      E.check("svd:s", d, sv, (s, p), kind=None, dtype=False)
      for keep in range(1, k + 1):
        u, d, v, r = parts("svd", lin.svd(E.T(a), max_singular_values=keep, **kw), 4)
        E.check("svd:keep", d, sv[:keep], (s, p, keep), kind=None, dtype=False)
        E.check("svd:rest", r, sv[keep:], (s, p, keep), kind=None, dtype=False)
      tails = [np.sqrt(np.sum(sv[j:]**2)) for j in range(k)] + [0.]
      for j in range(1, k):
        err = (tails[j] + tails[j - 1]) / 2
        if tails[j - 1] - tails[j] < 1e-3:
          continue
        for rel in (False, True):
          e = err / sv[0] if rel else err
          u, d, v, r = parts("svd", lin.svd(E.T(a), max_truncation_error=e, relative=rel, **kw),
                             4)
          E.check("svd:error", d, sv[:j], (s, p, j, rel), kind=None, dtype=False)
          E.check("svd:error", r, sv[j:], (s, p, j, rel), kind=None, dtype=False)
      for nn in (False, True):
        qq, rr = parts("qr", lin.qr(E.T(a), non_negative_diagonal=nn, **kw), 2)
        if qq.shape != s[:q] + (k,) or rr.shape != (k,) + s[q:]:
          raise Violation(f"{E.name}:qr:shape", f"{qq.shape} {rr.shape} for {s} {p}")
        E.check("qr", np.tensordot(qq, rr, 1), a, (s, p), kind=None, dtype=False)
        qm = qq.reshape(-1, k)
        E.check("qr:iso", qm.conj().T @ qm, np.eye(k), (s, p), kind=None, dtype=False)
        rm = rr.reshape(k, -1)
        E.check("qr:tri", np.tril(rm, -1), np.zeros(rm.shape), (s, p), kind=None, dtype=False)
        if nn and (np.any(np.diag(rm).real < -tol) or np.any(np.abs(np.diag(rm).imag) > tol)):
          raise Violation(f"{E.name}:qr:diagonal", f"{np.diag(rm)} {s} {p}")
        rr, qq = parts("rq", lin.rq(E.T(a), non_negative_diagonal=nn, **kw), 2)
        if rr.shape != s[:q] + (k,) or qq.shape != (k,) + s[q:]:
          raise Violation(f"{E.name}:rq:shape", f"{rr.shape} {qq.shape} for {s} {p}")
        E.check("rq", np.tensordot(rr, qq, 1), a, (s, p), kind=None, dtype=False)
        qm = qq.reshape(k, -1)
        E.check("rq:iso", qm @ qm.conj().T, np.eye(k), (s, p), kind=None, dtype=False)
        rm = rr.reshape(-1, k)
        if nn and (np.any(np.diag(rm).real < -tol) or np.any(np.abs(np.diag(rm).imag) > tol)):
          raise Violation(f"{E.name}:rq:diagonal", f"{np.diag(rm)} {s} {p}")
  for s in E.shapes:
    a = mk(s, 1, E.dt)
    out = lin.norm(E.T(a))
    E.check("norm", out.array if isinstance(out, Tensor) else out,
            np.sqrt(np.sum(np.abs(a)**2)), s, kind=None, dtype=False)
  for n in (1, 2, 3):
    for k in range(1, 4):
      a = mk((n, n), k, E.dt)
      h = a + a.conj().T
      w, v = lin.eigh(E.T(h))
      if type(w) is not Tensor or type(v) is not Tensor:
        raise Violation(f"{E.name}:eigh:type", "")
      E.check("eigh", np.asarray(w.array), np.linalg.eigvalsh(h), n, kind=None, dtype=False)
      vv = np.asarray(v.array)
      E.check("eigh:vec", (vv * np.asarray(w.array)) @ vv.conj().T, h, n, kind=None, dtype=False)
      i = a + 5 * np.eye(n, dtype=E.dt)
      E("inv", np.linalg.inv(i), lin.inv, i)
      b = a / 4
      E("expm", scipy.linalg.expm(b), lin.expm, b)


def m_mixed(E):
  others = [o for o in BES if o != E.name]
  for o in others:
    def pair(s, t=None):
      return E.T(mk(s, 1, E.dt)), Tensor(backend_factory.get_backend(o).convert_to_tensor(
          mk(t or s, 2, E.dt)), backend=o)
    for s in [(), (2,), (2, 2)]:
      for x, y in (pair(s), pair(s)[::-1]):
        for n, f in OPS:
          E.refused("mixed " + n, lambda: f(x, y))
          E.refused("mixed i" + n, lambda: IOPS[n](x, y))
        E.refused("mixed outer", lambda: ops.outer(x, y))
        E.refused("mixed tensordot", lambda: ops.tensordot(x, y, 0))
        E.refused("mixed ncon", lambda: tn.ncon([x, y], [list(range(1, len(s) + 1))] * 2))
        if len(s) == 2:
          E.refused("mixed matmul", lambda: x @ y)
          E.refused("mixed einsum", lambda: ops.einsum("ab,bc->ac", x, y, optimize=True))
          E.refused("mixed einsum", lambda: ops.einsum("ab,bc,cd->ad", x, x, y, optimize=True))
        if len(s) != 1:
          E.refused("mixed kron", lambda: ops.kron(x, y))
    a = tn.Node(E.be.convert_to_tensor(mk((2,), 1, E.dt)), backend=E.name)
    b = tn.Node(backend_factory.get_backend(o).convert_to_tensor(mk((2,), 1, E.dt)), backend=o)
    for n, f in OPS:
      E.refused("mixed node " + n, lambda: f(a, b))


def m_nodeop(E):
  names = ["p", "q", "r", "s"]
  def wrap(x):
    return tn.Node(E.be.convert_to_tensor(np.array(x)), name="nm", axis_names=names[:np.ndim(x)],
                   backend=E.name)
  def verify(n, out, t):
    if out is t or out.name != "nm":
      raise Violation(f"{E.name}:node:{n}:name", f"{out.name}")
    if not all(e.is_dangling() and e.node1 is out and e.axis1 == k
               for k, e in enumerate(out.edges)):
      raise Violation(f"{E.name}:node:{n}:edges", "")
    if t.name != "nm" or list(t.axis_names) != names[:len(t.edges)]:
      raise Violation(f"{E.name}:node:{n}:operand", "")
  for s in E.shapes:
    a = mk(s, 1, E.dt)
    for c in [2, -3, 0.5, 1.5] + ([1 - 2j] if E.dt.kind == "c" else []):
      for n, f in OPS:
        t = wrap(a)
        out = f(t, c)
        E.check("node " + n, out, f(a, c), s, kind=tn.Node)
        verify(n, out, t)
        E.check("node operand", t, a, s, kind=tn.Node)
  for sa, sb in itertools.product(E.shapes, repeat=2):
    if bshape(sa, sb) is None:
      continue
    a, b = mk(sa, 1, E.dt), mk(sb, 2, E.dt)
    for n, f in OPS:
      t, u = wrap(a), wrap(b)
      e = [x for x in t.edges]
      out = f(t, u)
      E.check("node " + n, out, f(a, b), (sa, sb), kind=tn.Node)
      verify(n, out, t)
      E.check("node operand", t, a, kind=tn.Node)
      E.check("node operand", u, b, kind=tn.Node)
      if any(x is not y for x, y in zip(e, t.edges)):
        raise Violation(f"{E.name}:node:edges", "operand edges replaced")


def m_nodelin(E):
  names = ["p", "q", "r", "s"]
  for s in E.shapes:
    a = mk(s, 1, E.dt)
    nm = names[:len(s)]
    def node():
      return tn.Node(E.be.convert_to_tensor(np.array(a)), name="x", axis_names=nm, backend=E.name)
    E.check("node norm", nl.norm(node()), np.sqrt(np.sum(np.abs(a)**2)), s, kind=None,
            dtype=False)
    for kw in ({}, {"name": "y"}, {"axis_names": [c + "2" for c in nm]}):
      t = node()
      out = nl.conj(t, **kw)
      E.check("node conj", out, a.conj(), s, kind=tn.Node)
      if list(out.axis_names) != (kw.get("axis_names") or nm) or "name" in kw and out.name != "y":
        raise Violation(f"{E.name}:node conj:names", f"{out.axis_names} {out.name}")
      E.check("node conj operand", t, a, s, kind=tn.Node)
      for p in itertools.permutations(range(len(s))):
        for q in (p, [nm[x] for x in p], [nm[x] if k % 2 else x for k, x in enumerate(p)]):
          t = node()
          out = nl.transpose(t, q, **kw)
          E.check("node transpose", out, a.transpose(p), (s, q), kind=tn.Node)
          want = kw.get("axis_names") or [nm[x] for x in p]
          if list(out.axis_names) != want or "name" in kw and out.name != "y":
            raise Violation(f"{E.name}:node transpose:names", f"{out.axis_names} for {q} {kw}")
          if not all(e.is_dangling() and e.node1 is out and e.axis1 == k
                     for k, e in enumerate(out.edges)):
            raise Violation(f"{E.name}:node transpose:edges", "")
          E.check("node transpose operand", t, a, s, kind=tn.Node)
          if list(t.axis_names) != nm:
            raise Violation(f"{E.name}:node transpose:operand", "")


def m_program(E):
  """All programs of wrapper operations, against the same program on numpy arrays."""
  n = 3 if E.th else 2
  acts = [
      ("T", lambda t: t.T, lambda a: a.T),
      ("H", lambda t: t.H, lambda a: a.conj().T),
      ("conj", lambda t: t.conj(), np.conj),
      ("flatten", lambda t: t.flatten(), lambda a: a.reshape(-1)),
      ("squeeze", lambda t: t.squeeze(), np.squeeze),
      ("rev", lambda t: t.reshape([int(d) for d in t.shape][::-1]),
       lambda a: a.reshape(a.shape[::-1])),
      ("col", lambda t: t.reshape([int(t.size), 1]), lambda a: a.reshape(-1, 1)),
      ("x2", lambda t: t * 2, lambda a: a * 2),
      ("1-", lambda t: 1 - t, lambda a: 1 - a),
      ("-t", lambda t: t - t.conj(), lambda a: a - a.conj()),
      ("+t", lambda t: t + t, lambda a: a + a),
      ("gram", lambda t: t.reshape([-1, 1]) @ t.reshape([1, -1]),
       lambda a: a.reshape(-1, 1) @ a.reshape(1, -1)),
      ("outer", lambda t: ops.outer(t, t) if t.ndim < 3 else t,
       lambda a: np.multiply.outer(a, a) if a.ndim < 3 else a),
      ("copy", lambda t: t.copy(), np.copy),
      ("abs", ops.abs, np.abs),
      ("pivot", lambda t: ops.pivot(t, 1) if t.ndim > 1 else t,
       lambda a: a.reshape(a.shape[0], -1) if a.ndim > 1 else a),
      ("swap", lambda t: t.transpose([1, 0] + list(range(2, t.ndim))) if t.ndim > 1 else t,
       lambda a: np.swapaxes(a, 0, 1) if a.ndim > 1 else a),
  ]
  for s in [(), (2,), (1, 2), (2, 3), (2, 1, 2)]:
    a = mk(s, 1, E.dt)
    for prog in itertools.product(acts, repeat=n):
      if not E.mine():
        continue
      t, r = E.T(a), a
      hist = [(t, r)]
      for nm, f, g in prog:
        try:
          t = f(t)
        except Exception as e:
          raise Violation(f"{E.name}:program:{type(e).__name__}",
                          f"{s} {[p[0] for p in prog]} at {nm}: {e!r}") from e
        r = g(r)
        hist.append((t, r))
      for t, r in hist:  # every intermediate is still what it was
        E.check("program", t, r, (s, [p[0] for p in prog]))


def run_case(desc, rec):
  E = Env(desc, rec)
  globals()["m_" + desc["m"]](E)
  rec.add("calls", E.rec.steps if hasattr(E.rec, "steps") else 1)
  rec.validated(1)
  rec.sample(f"{desc['be']} {desc['m']} {desc['dt']}")

"""C12: every backend method against its mathematical definition."""
import itertools
import math
import numpy as np
import scipy.linalg
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from mc.core import Violation

TITLE = "backend interface, method by method, argument pattern by argument pattern"
LEVEL = "model_checking"
RULE = ("every method of the common interface x numpy/jax/tensorflow x dtype x every "
        "shape of the alphabet x every argument combination (axes positive and "
        "negative, permutations, offsets, keepdims, scalars and tensors as operands): "
        "value, shape and dtype against a definition written with explicit loops or "
        "plain numpy, operands unchanged; compound programs of two methods chained")
ASSUMPTIONS = [
    "numpy semantics is the definition; combinations documented as unsupported by a "
    "backend (offset/axes of tensorflow trace and diagonal) may be refused but not "
    "answered wrongly",
    "tensorflow has no implicit dtype conversion: operands of one call share their dtype"]
BOUNDS = {
    "quick": "shapes of rank 0..3 with dimensions 1..3 (rank 4 for matmul/trace/pivot), "
             "float64/complex128 everywhere, float32/complex64 on a sublist",
    "thorough": "all four dtypes everywhere, dimensions up to 4, rank 4",
}
BOUNDS["quick"] += "; ranks 4-7 on a fixed list of shapes and axes; networks moved between backends"
BES = ("numpy", "jax", "tensorflow")
SHAPES = [(), (1,), (2,), (3,), (1, 1), (2, 3), (3, 2), (2, 2), (1, 3), (2, 1, 3), (2, 2, 2),
          (3, 2, 1), (2, 3, 2)]
METHODS = ["tensordot", "reshape", "transpose", "slice", "shapes", "elementwise", "outer",
           "einsum", "norm", "construct", "eigh", "arith", "index_update", "inv",
           "broadcast", "expm", "jit", "sum", "matmul", "diag", "trace", "pivot", "power",
           "item", "serialize", "eps", "convert", "chain", "high", "switch"]

SINGLE = ("construct", "norm", "eigh", "inv", "expm", "eps", "matmul", "broadcast")


def cases(tier):
  th = tier == "thorough"
  for be in BES:
    for m in METHODS:
      for dt in ("float64", "complex128", "float32", "complex64"):
        if not th and dt in ("float32", "complex64") and (
            m in ("tensordot", "chain", "high") or be == "jax" and m not in SINGLE):
          continue
        parts = 8 if m in ("tensordot", "slice", "chain", "high") else 1
        for p in range(parts):
          yield {"be": be, "m": m, "dt": dt, "part": [p, parts], "th": th}


def arr(shape, k, dt):
  r = np.random.RandomState(31 * k + 7 * len(shape) + 3)
  x = r.randint(-3, 4, size=shape) + 0.25
  if np.dtype(dt).kind == "c":
    x = x + 1j * (r.randint(-3, 4, size=shape) - 0.5)
  return np.array(x).astype(dt)


class Env:
  def __init__(self, desc, rec):
    self.name = desc["be"]
    self.dt = np.dtype(desc["dt"])
    self.be = backend_factory.get_backend(self.name)
    self.rec = rec
    self.part = desc["part"]
    self.th = desc["th"]
    self.n = 0
    self.single = self.dt.itemsize // (2 if self.dt.kind == "c" else 1) == 4
    self.shapes = SHAPES + ([(4,), (4, 3), (2, 2, 3, 2)] if desc["th"] else [])

  def mine(self):
    self.n += 1
    return self.n % self.part[1] == self.part[0]

  def T(self, x):
    return self.be.convert_to_tensor(np.array(x))

  def __call__(self, sig, ref, f, *arrays, dtype=True, kind=None):
    """Run f on converted copies of arrays, compare with ref."""
    ts = [self.T(a) for a in arrays]
    try:
      out = f(*ts)
    except Exception as e:
      raise Violation(f"{self.name}:{sig}:{type(e).__name__}",
                      f"{[a.shape for a in arrays]} {self.dt}: {e!r}"[:900]) from e
    self.rec.step()
    self.check(sig, out, ref, arrays, dtype)
    for t, a in zip(ts, arrays):
      if not np.array_equal(np.asarray(t), a, equal_nan=True):
        raise Violation(f"{self.name}:{sig}:operand", "operand modified")
    self.rec.state((self.name, sig, str(self.dt)))
    return out

  def check(self, sig, out, ref, arrays=(), dtype=True):
    o, r = np.asarray(out), np.asarray(ref)
    what = f"{[(np.shape(a)) for a in arrays]} {self.dt}"
    if o.shape != r.shape:
      raise Violation(f"{self.name}:{sig}:shape", f"{o.shape} expected {r.shape} for {what}")
    tol = 2e-4 if self.single else 1e-10
    if not np.allclose(o, r, rtol=tol, atol=tol * max(1.0, np.abs(r).max() if r.size else 1),
                       equal_nan=True):
      raise Violation(f"{self.name}:{sig}", f"{o.tolist()} expected {r.tolist()} for {what}"[:900])
    if dtype and o.dtype != r.dtype:
      raise Violation(f"{self.name}:{sig}:dtype", f"{o.dtype} expected {r.dtype} for {what}")
    if dtype and arrays and type(out) is not type(self.T(np.ones(1, self.dt))) and not (
        self.name == "numpy" and np.isscalar(out)):
      raise Violation(f"{self.name}:{sig}:type", f"{type(out)}")

  def refused(self, sig, f, exc=(ValueError,)):
    try:
      f()
    except exc:
      self.rec.outcome("refused:" + sig)
      self.rec.step()
      return
    raise Violation(f"{self.name}:{sig}:accepted", "")


def signs(axes, n):
  """Positive, negative and mixed spellings of the same axes."""
  yield list(axes)
  if axes:
    yield [a - n for a in axes]
    yield [a - n if k % 2 else a for k, a in enumerate(axes)]


def dot_ref(a, b, ax):
  la = list(range(a.ndim))
  lb = list(range(20, 20 + b.ndim))
  for i, j in zip(*ax):
    lb[j] = la[i]
  out = [l for k, l in enumerate(la) if k not in [i % a.ndim for i in ax[0]]]
  out += [l for k, l in enumerate(lb) if k not in [j % b.ndim for j in ax[1]]]
  return np.einsum(a, la, b, lb, out)


def m_tensordot(E):
  for sa, sb in itertools.product(E.shapes, repeat=2):
    a, b = arr(sa, 1, E.dt), arr(sb, 2, E.dt)
    for k in range(min(len(sa), len(sb)) + 1):
      for i in itertools.permutations(range(len(sa)), k):
        for j in itertools.combinations(range(len(sb)), k):
          if any(sa[x] != sb[y] for x, y in zip(i, j)):
            continue
          if not E.mine():
            continue
          ref = dot_ref(a, b, (i, j))
          for si in signs(i, len(sa)):
            for sj in signs(j, len(sb)):
              E("tensordot", ref, lambda x, y: E.be.tensordot(x, y, [si, sj]), a, b)
          E("tensordot", ref, lambda x, y: E.be.tensordot(x, y, (tuple(i), tuple(j))), a, b)
          if not k:
            E("tensordot:int", ref, lambda x, y: E.be.tensordot(x, y, 0), a, b)
          if i == tuple(range(len(sa) - k, len(sa))) and j == tuple(range(k)):
            E("tensordot:int", ref, lambda x, y: E.be.tensordot(x, y, k), a, b)


def factorings(n, r):
  if r == 0:
    if n == 1:
      yield ()
    return
  for d in range(1, n + 1):
    if n % d == 0:
      for rest in factorings(n // d, r - 1):
        yield (d,) + rest


def m_reshape(E):
  for s in E.shapes:
    a = arr(s, 1, E.dt)
    for r in range(4):
      for t in factorings(a.size, r):
        for form in (tuple, list, np.array):
          if form is np.array and not t:
            continue
          E("reshape", a.reshape(t), lambda x: E.be.reshape(x, form(t)), a)
        if t:
          for k in range(len(t)):
            u = t[:k] + (-1,) + t[k + 1:]
            E("reshape:-1", a.reshape(t), lambda x: E.be.reshape(x, u), a)
          E("reshape:tensor", a.reshape(t),
            lambda x: E.be.reshape(x, E.be.shape_tensor(E.T(np.zeros(t)))), a)


def m_transpose(E):
  for s in E.shapes:
    a = arr(s, 1, E.dt)
    for p in itertools.permutations(range(len(s))):
      E("transpose", a.transpose(p), lambda x: E.be.transpose(x, p), a)
      E("transpose", a.transpose(p), lambda x: E.be.transpose(x, list(p)), a)
      E("transpose", a.transpose(p), lambda x: E.be.transpose(x, perm=p), a)
    E("transpose:none", a.T, lambda x: E.be.transpose(x), a)


def m_slice(E):
  for s in E.shapes:
    if not s:
      continue
    a = arr(s, 1, E.dt)
    spaces = [[(st, sz) for st in range(d) for sz in range(1, d - st + 1)] for d in s]
    for combo in itertools.product(*spaces):
      if not E.mine():
        continue
      st, sz = zip(*combo)
      ref = a[tuple(slice(x, x + y) for x, y in combo)]
      E("slice", ref, lambda x: E.be.slice(x, st, sz), a)
    E.refused("slice lengths", lambda: E.be.slice(E.T(a), (0,) * len(s), (1,) * (len(s) + 1)))


def m_shapes(E):
  for s in E.shapes:
    a = arr(s, 1, E.dt)
    t = E.T(a)
    for f in ("shape_tensor", "shape_tuple", "sparse_shape"):
      out = getattr(E.be, f)(t)
      if tuple(int(x) for x in out) != s:
        raise Violation(f"{E.name}:{f}", f"{out} for {s}")
      if f != "shape_tensor" and type(out) is not tuple:
        raise Violation(f"{E.name}:{f}:type", f"{type(out)}")
      E.rec.step()
    if s:
      E.check("shape_prod", E.be.shape_prod(E.be.shape_tensor(t)), a.size, dtype=False)
      E.check("shape_prod", E.be.shape_prod(list(s)), a.size, dtype=False)
      E.check("shape_concat", E.be.shape_concat([E.be.shape_tensor(t), [5, 7]], axis=-1),
              np.array(s + (5, 7)), dtype=False)
      for ax in range(-len(s), len(s)):
        b = arr(s, 2, E.dt)
        E("shape_concat", np.concatenate([a, b], ax),
          lambda x, y: np.asarray(E.be.shape_concat([x, y], ax)), a, b, dtype=False)


def m_elementwise(E):
  fs = {"sin": np.sin, "cos": np.cos, "exp": np.exp, "conj": np.conj, "abs": np.abs}
  for s in E.shapes:
    a = arr(s, 1, E.dt)
    for n, f in fs.items():
      E(n, f(a), lambda x: getattr(E.be, n)(x), a)
    p = a if E.dt.kind == "c" else np.abs(a)
    E("sqrt", np.sqrt(p), lambda x: E.be.sqrt(x), p)
    E("log", np.log(p), lambda x: E.be.log(x), p)
    if E.dt.kind != "c":  # complex sign is documented as backend dependent
      z = np.round(a)
      E("sign", np.sign(z), lambda x: E.be.sign(x), z)
  z = np.array([0.0, -0.0, 1.0, -2.0]).astype(E.dt)
  E("abs", np.abs(z), lambda x: E.be.abs(x), z)
  E("sqrt", np.array([0, 1, 2]).astype(E.dt), lambda x: E.be.sqrt(x), np.array([0, 1, 4]).astype(E.dt))


def m_outer(E):
  for sa, sb in itertools.product(E.shapes, repeat=2):
    a, b = arr(sa, 1, E.dt), arr(sb, 2, E.dt)
    E("outer_product", np.multiply.outer(a, b), lambda x, y: E.be.outer_product(x, y), a, b)


EIN = ["a->a", "ab->ba", "ab->a", "ab->", "aa->", "aa->a", "ab,bc->ac", "ab,bc->ca", "ab,ab->",
       "a,b->ab", "a,a->a", "abc->cab", "abc,cd->abd", "abc,abd->cd", "aba->b", "ab,bc,ca->",
       "ab,bc,cd->ad", "abc,c,b->a", ",a->a", ",->", "ab,b", "ab,bc"]


def ein_ref(expr, ops):
  """Plain sum over all index values."""
  if "->" in expr:
    ins, out = expr.split("->")
    ins = ins.split(",")
  else:
    ins = expr.split(",")
    flat = "".join(ins)
    out = "".join(sorted(c for c in set(flat) if flat.count(c) == 1))
  dims = {}
  for i, o in zip(ins, ops):
    for c, d in zip(i, o.shape):
      dims[c] = d
  letters = sorted(dims)
  r = np.zeros([dims[c] for c in out], dtype=ops[0].dtype)
  for vals in itertools.product(*[range(dims[c]) for c in letters]):
    v = dict(zip(letters, vals))
    p = 1
    for i, o in zip(ins, ops):
      p = p * o[tuple(v[c] for c in i)]
    r[tuple(v[c] for c in out)] += p
  return r


def m_einsum(E):
  for expr in EIN:
    ins = expr.split("->")[0].split(",")
    letters = sorted(set("".join(ins)))
    for ds in itertools.product((1, 2, 3), repeat=len(letters)):
      d = dict(zip(letters, ds))
      ops = [arr(tuple(d[c] for c in i), n, E.dt) for n, i in enumerate(ins)]
      ref = ein_ref(expr, ops)
      E("einsum:" + expr, ref, lambda *t: E.be.einsum(expr, *t), *ops)
      if len(letters) < 3 or len(set(ds)) == 3:
        E("einsum:" + expr, ref, lambda *t: E.be.einsum(expr, *t, optimize=False), *ops)


def m_norm(E):
  for s in E.shapes:
    a = arr(s, 1, E.dt)
    ref = np.sqrt(np.sum(a.real**2 + a.imag**2))
    out = E("norm", ref, lambda x: E.be.norm(x), a, dtype=False)
    if np.asarray(out).dtype.kind == "f" and np.asarray(out).dtype != a.real.dtype:
      raise Violation(f"{E.name}:norm:dtype", f"{np.asarray(out).dtype} for {a.dtype}")


def be_dtype(E, dt):
  if E.name != "tensorflow":
    return np.dtype(dt)
  import tensorflow as tf
  return tf.as_dtype(np.dtype(dt).name)


def m_construct(E):
  for dt in (E.dt, None):
    kw = {} if dt is None else {"dtype": be_dtype(E, dt)}
    rdt = np.float64 if dt is None else dt
    for s in E.shapes:
      E.check("zeros", E.be.zeros(s, **kw), np.zeros(s, rdt))
      E.check("ones", E.be.ones(s, **kw), np.ones(s, rdt))
      E.rec.step(2)
    for n in range(1, 4):
      E.check("eye", E.be.eye(n, **kw), np.eye(n, dtype=rdt))
      for m in range(1, 5):
        ref = np.array([[1 if i == j else 0 for j in range(m)] for i in range(n)]).astype(rdt)
        E.check("eye:M", E.be.eye(n, M=m, **kw), ref)
        E.rec.step()


def m_eigh(E):
  for n in (1, 2, 3):
    for k in range(5):
      a = arr((n, n), k, E.dt)
      a = a + a.conj().T
      if k == 0:
        a = np.eye(n).astype(E.dt)
      if k == 1:
        a = np.zeros((n, n)).astype(E.dt)
      w, v = E.be.eigh(E.T(a))
      w, v = np.asarray(w), np.asarray(v)
      E.rec.step()
      E.check("eigh:values", np.sort(w.real), np.sort(np.linalg.eigvalsh(a)), dtype=False)
      if np.any(np.diff(w.real) < -1e-4):
        raise Violation(f"{E.name}:eigh:order", str(w))
      E.check("eigh:equation", a @ v, v * w, dtype=False)
      E.check("eigh:unitary", v.conj().T @ v, np.eye(n), dtype=False)
      if v.dtype != E.dt:
        raise Violation(f"{E.name}:eigh:dtype", str(v.dtype))


def m_arith(E):
  ops = {"addition": np.add, "subtraction": np.subtract, "multiply": np.multiply,
         "divide": np.divide}
  for sa, sb in itertools.product(E.shapes, repeat=2):
    try:
      np.broadcast_shapes(sa, sb)
    except ValueError:
      continue
    a, b = arr(sa, 1, E.dt), arr(sb, 2, E.dt)
    for n, f in ops.items():
      E(n, f(a, b), lambda x, y: getattr(E.be, n)(x, y), a, b)
  for s in E.shapes:
    a = arr(s, 1, E.dt)
    for n, f in ops.items():
      E(n + ":number", f(a, a.dtype.type(2)), lambda x: getattr(E.be, n)(x, 2.0), a)
      E(n + ":number", f(a.dtype.type(2), a), lambda x: getattr(E.be, n)(2.0, x), a)


def m_index_update(E):
  for s in E.shapes:
    a = arr(s, 1, E.dt)
    masks = [np.zeros(s, bool), np.ones(s, bool), a.real > 0]
    for m in masks:
      ref = np.where(m, a.dtype.type(0.5), a)
      E("index_update", ref, lambda x, y: E.be.index_update(x, y, np.array(0.5, E.dt)), a, m)
      E("index_update", ref, lambda x, y: E.be.index_update(x, y, 0.5), a, m)
      E("index_update", ref,
        lambda x, y: E.be.index_update(x, y, E.T(np.array(0.5, E.dt))), a, m)


def m_inv(E):
  for n in (1, 2, 3):
    for k in range(4):
      a = arr((n, n), k, E.dt) + 3 * np.eye(n).astype(E.dt)
      E("inv", np.linalg.inv(a), lambda x: E.be.inv(x), a)
  E.refused("inv of rank 3", lambda: E.be.inv(E.T(arr((2, 2, 2), 1, E.dt))))


def m_broadcast(E):
  for s in E.shapes:
    if not s:
      continue
    a = arr(s, 1, E.dt)
    r, l = arr(s[-1:], 2, E.dt), arr(s[:1], 3, E.dt)
    ref = np.zeros(s, E.dt)
    for idx in itertools.product(*[range(d) for d in s]):
      ref[idx] = a[idx] * r[idx[-1]]
    E("broadcast_right", ref, lambda x, y: E.be.broadcast_right_multiplication(x, y), a, r)
    for idx in itertools.product(*[range(d) for d in s]):
      ref[idx] = a[idx] * l[idx[0]]
    E("broadcast_left", ref, lambda x, y: E.be.broadcast_left_multiplication(y, x), a, l)
    m = E.T(arr((2, 2), 2, E.dt))
    E.refused("broadcast by a matrix", lambda: E.be.broadcast_right_multiplication(E.T(a), m))
    E.refused("broadcast by a matrix", lambda: E.be.broadcast_left_multiplication(m, E.T(a)))


def m_expm(E):
  for n in (1, 2, 3):
    for k in range(5):
      a = arr((n, n), k, E.dt) / 4
      if k == 0:
        a = np.zeros((n, n), E.dt)
      if k == 1:
        a = np.triu(arr((n, n), k, E.dt), 1).astype(E.dt)  # defective
      ref, term = np.eye(n).astype(np.complex128), np.eye(n).astype(np.complex128)
      for j in range(1, 60):
        term = term @ a / j
        ref = ref + term
      ref = ref.astype(E.dt) if E.dt.kind == "c" else ref.real.astype(E.dt)
      E("expm", ref, lambda x: E.be.expm(x), a)
  E.refused("expm of rank 3", lambda: E.be.expm(E.T(arr((2, 2, 2), 1, E.dt))))
  E.refused("expm of rectangles", lambda: E.be.expm(E.T(arr((2, 3), 1, E.dt))))


def m_jit(E):
  for s in E.shapes:
    a = arr(s, 1, E.dt)
    for n in (1, 2):
      f = E.be.jit(lambda x, y: x * y + x)
      E("jit", a * a + a, lambda x: f(x, x), a)
    g = E.be.jit(lambda x, k: x * k, static_argnums=(1,)) if E.name == "jax" else E.be.jit(
        lambda x, k: x * k, static_argnums=(1,))
    for k in (1, 2, 3):
      E("jit:static", a * a.dtype.type(k), lambda x: g(x, k), a)


def m_sum(E):
  for s in E.shapes:
    a = arr(s, 1, E.dt)
    for kd in (False, True):
      E("sum:all", np.sum(a, axis=None, keepdims=kd), lambda x: E.be.sum(x, keepdims=kd), a)
      for r in range(len(s) + 1):
        for ax in itertools.combinations(range(len(s)), r):
          for sp in signs(ax, len(s)):
            for form in (tuple, list):
              E("sum", np.sum(a, axis=tuple(ax), keepdims=kd),
                lambda x: E.be.sum(x, axis=form(sp), keepdims=kd), a)


def m_matmul(E):
  shapes = [(1, 1), (2, 3), (3, 2), (2, 2), (3, 3), (2, 2, 3), (2, 3, 2), (1, 3, 2), (1, 2, 3),
            (2, 1, 2, 3), (1, 2, 3, 2)]
  for sa, sb in itertools.product(shapes, repeat=2):
    if sa[-1] != sb[-2]:
      continue
    try:
      batch = np.broadcast_shapes(sa[:-2], sb[:-2])
    except ValueError:
      continue
    a, b = arr(sa, 1, E.dt), arr(sb, 2, E.dt)
    A = np.broadcast_to(a, batch + sa[-2:])
    B = np.broadcast_to(b, batch + sb[-2:])
    ref = np.zeros(batch + (sa[-2], sb[-1]), E.dt)
    for idx in itertools.product(*[range(d) for d in batch]):
      ref[idx] = np.einsum("ij,jk->ik", A[idx], B[idx])
    E("matmul", ref, lambda x, y: E.be.matmul(x, y), a, b)
  v = E.T(arr((2,), 1, E.dt))
  m = E.T(arr((2, 2), 1, E.dt))
  E.refused("matmul vector", lambda: E.be.matmul(v, m))
  E.refused("matmul vector", lambda: E.be.matmul(m, v))


def diag_ref(a, offset, ax1, ax2):
  n = a.ndim
  ax1, ax2 = ax1 % n, ax2 % n
  b = np.moveaxis(a, (ax1, ax2), (-2, -1))
  r, c = b.shape[-2:]
  cols = [b[..., i, i + offset] for i in range(r) if 0 <= i + offset < c]
  if not cols:
    return np.zeros(b.shape[:-2] + (0,), a.dtype)
  return np.stack(cols, -1)


def m_diag(E):
  for s in E.shapes:
    a = arr(s, 1, E.dt)
    for k in range(-2, 3):
      n = a.size + abs(k)
      ref = np.zeros((n, n), E.dt)
      for i, v in enumerate(a.ravel()):
        ref[i + max(0, -k), i + max(0, k)] = v
      E("diagflat", ref, lambda x: E.be.diagflat(x, k=k), a)
    if len(s) < 2:
      continue
    E("diagonal", diag_ref(a, 0, -2, -1), lambda x: E.be.diagonal(x), a)
    n = len(s)
    for ax1, ax2 in itertools.product(range(-n, n), repeat=2):
      if ax1 % n == ax2 % n:
        continue
      for k in range(-s[ax1] + 1, s[ax2]):
        ref = diag_ref(a, k, ax1, ax2)
        if E.name == "tensorflow" and (ax1, ax2) != (-2, -1):
          E.refused("diagonal axes", lambda: E.be.diagonal(E.T(a), k, ax1, ax2),
                    (NotImplementedError,))
          continue
        E("diagonal", ref, lambda x: E.be.diagonal(x, offset=k, axis1=ax1, axis2=ax2), a)


def m_trace(E):
  for s in E.shapes + [(2, 3, 2, 3), (2, 2, 1, 2)]:
    if len(s) < 2:
      continue
    a = arr(s, 1, E.dt)
    n = len(s)
    E("trace:default", diag_ref(a, 0, -2, -1).sum(-1) if s[-1] == s[-2] or
      E.name != "tensorflow" else 0, lambda x: E.be.trace(x), a) if (
          s[-1] == s[-2] or E.name != "tensorflow") else None
    for ax1, ax2 in itertools.product(range(-n, n), repeat=2):
      if ax1 % n == ax2 % n:
        continue
      if E.name == "tensorflow" and s[ax1] != s[ax2]:
        continue
      for k in range(-s[ax1] + 1, s[ax2]):
        ref = diag_ref(a, k, ax1, ax2).sum(-1)
        if E.name == "tensorflow" and k:
          E.refused("trace offset", lambda: E.be.trace(E.T(a), k, ax1, ax2),
                    (NotImplementedError,))
          continue
        E("trace", np.asarray(ref), lambda x: E.be.trace(x, offset=k, axis1=ax1, axis2=ax2), a)


def m_pivot(E):
  for s in E.shapes + [(2, 3, 2, 2)]:
    a = arr(s, 1, E.dt)
    n = len(s)
    for p in range(-n + 1 if n else 0, n + 1):
      if p < 0:
        l, r = s[:p], s[p:]
      else:
        l, r = s[:p], s[p:]
      ref = a.reshape(int(np.prod(l)), int(np.prod(r)))
      if not n or not l or not r:
        if E.name == "tensorflow":
          continue  # empty products are floats there
      E("pivot", ref, lambda x: E.be.pivot(x, pivot_axis=p), a)
    if n >= 2:
      E("pivot:default", a.reshape(-1, s[-1]), lambda x: E.be.pivot(x), a)
    E.refused("pivot", lambda: E.be.pivot(E.T(a), pivot_axis=n + 1))


def m_power(E):
  for sa, sb in itertools.product(E.shapes, repeat=2):
    try:
      np.broadcast_shapes(sa, sb)
    except ValueError:
      continue
    a, b = arr(sa, 1, E.dt), arr(sb, 2, E.dt)
    a = a if E.dt.kind == "c" else np.abs(a)
    E("power", np.power(a, b), lambda x, y: E.be.power(x, y), a, b)
  for s in E.shapes:
    a = arr(s, 1, E.dt)
    for k in (0.0, 1.0, 2.0, 3.0, -1.0):
      E("power:number", np.power(a, a.dtype.type(k)), lambda x: E.be.power(x, k), a)


def m_item(E):
  for s in [(), (1,), (1, 1), (1, 1, 1)]:
    a = arr(s, 1, E.dt)
    out = E.be.item(E.T(a))
    E.rec.step()
    if np.shape(out) != () or complex(out) != complex(a.ravel()[0]):
      raise Violation(f"{E.name}:item", f"{out!r} for {a!r}")
  for s in [(2,), (1, 2), (2, 2)]:
    E.refused("item of many", lambda: E.be.item(E.T(arr(s, 1, E.dt))), (ValueError, TypeError))


def m_serialize(E):
  if E.name != "numpy":
    return
  for s in E.shapes + [(0,), (2, 0)]:
    a = arr(s, 1, E.dt)
    for v in (a, a.T, np.asfortranarray(a)):
      st = E.be.serialize_tensor(v)
      if not isinstance(st, str):
        raise Violation("numpy:serialize:type", str(type(st)))
      E.check("serialize", E.be.deserialize_tensor(st), v)
      E.rec.step()


def m_eps(E):
  e = E.be.eps(be_dtype(E, E.dt)) if E.name != "tensorflow" else E.be.eps(E.dt)
  if float(e) != float(np.finfo(E.dt).eps):
    raise Violation(f"{E.name}:eps", f"{e}")
  E.rec.step()


def m_convert(E):
  for s in E.shapes:
    a = arr(s, 1, E.dt)
    E.check("convert", E.be.convert_to_tensor(a), a)
    E.check("convert", E.be.convert_to_tensor(E.be.convert_to_tensor(a)), a)
    E.check("convert", E.be.convert_to_tensor(a.T), a.T)
    E.check("convert", E.be.convert_to_tensor(a[..., :1] if a.ndim else a), a[..., :1] if a.ndim else a)
    E.rec.step(4)
  for v in (1.5, 2, np.float64(2.5)):
    if np.asarray(E.be.convert_to_tensor(v)).shape != () or float(E.be.convert_to_tensor(v)) != v:
      raise Violation(f"{E.name}:convert:number", str(v))
  if E.name != "tensorflow":
    for v in ("abc"[:0] or [1, 2], (1, 2), {}):
      E.refused("convert " + type(v).__name__, lambda: E.be.convert_to_tensor(v), (TypeError,))


def m_chain(E):
  """Two methods in a row: results of one method are valid operands of the next."""
  un = {
      "transpose": (lambda x: E.be.transpose(x), lambda x: x.T),
      "conj": (lambda x: E.be.conj(x), np.conj),
      "flat": (lambda x: E.be.reshape(x, (-1,)), lambda x: x.reshape(-1)),
      "row": (lambda x: E.be.reshape(x, (1, -1)), lambda x: x.reshape(1, -1)),
      "sum": (lambda x: E.be.sum(x, axis=(0,)), lambda x: x.sum(0)),
      "exp": (lambda x: E.be.exp(x * 0.25), lambda x: np.exp(x * x.dtype.type(0.25))),
      "diagflat": (lambda x: E.be.diagflat(x), np.diagflat),
      "diagonal": (lambda x: E.be.diagonal(x), lambda x: np.diagonal(x, axis1=-2, axis2=-1)),
      "dot": (lambda x: E.be.tensordot(x, x, [[0], [0]]), lambda x: np.tensordot(x, x, [[0], [0]])),
      "outer": (lambda x: E.be.outer_product(x, x), np.multiply.outer),
      "pivot": (lambda x: E.be.pivot(x, 1), lambda x: x.reshape(x.shape[0], -1)),
      "slice": (lambda x: E.be.slice(x, (0,) * len(x.shape), (1,) * len(x.shape)),
                lambda x: x[tuple(slice(0, 1) for _ in x.shape)]),
  }
  need = {"sum": 1, "dot": 1, "pivot": 1, "slice": 1, "diagonal": 2}
  un["outer"] = (un["outer"][0], lambda x: np.multiply.outer(x, x))
  for s in E.shapes:
    a = arr(s, 1, E.dt)
    for names in itertools.product(un, repeat=2 if E.name == "jax" and not E.th else 3):
      if not E.mine():
        continue
      ref = a
      ok = True
      for n in names:
        if ref.ndim < need.get(n, 0) or ref.ndim > 3 or ref.size > 100:
          ok = False
          break
        ref = un[n][1](ref)
        if not np.all(np.isfinite(ref)) or np.abs(ref).max() > 1e6:
          ok = False
          break
      if not ok:
        continue
      def f(x):
        for n in names:
          x = un[n][0](x)
        return x
      E("chain:" + "/".join(names), ref.astype(E.dt), f, a)


def m_switch(E):
  """Changing the backend of a network changes nothing but the array type."""
  for shapes in [((2,),), ((2, 3),), ((2, 3), (3, 2)), ((2, 2, 3), (3, 1), (1, 2)), ((), (2,)), ((2, 2), (2, 2))]:
    for form in (list, tuple, set, iter, "part"):
      for copy in (False, True):
        ns = [tn.Node(arr(s, k, E.dt), name=f"n{k}", backend="numpy") for k, s in enumerate(shapes)]
        for a, b in zip(ns, ns[1:]):
          if a.shape and b.shape and a.shape[-1] == b.shape[0]:
            a[-1 + len(a.shape)] ^ b[0]
        if copy:
          c = tn.CopyNode(3, 2, dtype=E.dt, backend="numpy")
          if ns[0].shape and ns[0].shape[0] == 2 and ns[0][0].is_dangling():
            c[1] ^ ns[0][0]
          ns.append(c)
        before = [(n.name, tuple(n.axis_names), [id(e) for e in n.edges], n.shape, np.array(n.tensor)) for n in ns]
        chosen = ns[:1] if form == "part" else ns
        tn.switch_backend(chosen if form == "part" else form(ns), E.name)
        E.rec.step()
        for n, (nm, ax, es, sh, t) in zip(ns, before):
          want = E.name if any(n is m for m in chosen) else "numpy"
          if n.backend.name != want or type(n.tensor) is not type(
              (E.T if want == E.name else np.asarray)(np.ones(2, E.dt))):
            raise Violation(f"{E.name}:switch:backend", f"{n.backend.name} {type(n.tensor)}")
          if (n.name, tuple(n.axis_names), [id(e) for e in n.edges], tuple(n.shape)) != (nm, ax, es, tuple(sh)) or (
              np.asarray(n.tensor).dtype != t.dtype or not np.array_equal(np.asarray(n.tensor), t)):
            raise Violation(f"{E.name}:switch:node", f"{shapes} {form}")
        if form == "part" and len(ns) > 1:
          continue
        free = tn.get_subgraph_dangling(set(ns))
        order = [e for n in ns for e in n.edges if e in free]
        args = []
        ids = {}
        for n, (_, _, es, _, t) in zip(ns, before):
          args += [t, [ids.setdefault(e, len(ids)) for e in es]]
        ref = np.einsum(*args, [ids[id(e)] for e in order])
        out = tn.contractors.auto(ns, output_edge_order=order)
        E.check("switch:contract", out.tensor, ref)
        E.rec.state((E.name, "switch", shapes, str(form), copy))
  if E.name != "numpy":
    for to in BES:
      n = tn.Node(E.T(arr((2,), 1, E.dt)), backend=E.name)
      m = tn.Node(arr((2,), 1, E.dt), backend="numpy")
      for group in ([n], [m, n], [n, m]):
        E.refused("switch back", lambda: tn.switch_backend(group, to), (NotImplementedError,))
        if m.backend.name != "numpy" or type(m.tensor) is not np.ndarray or n.backend.name != E.name:
          raise Violation(f"{E.name}:switch:refused", "a refused switch changed a node")


HIGH = [(2, 3, 1, 2), (3, 2, 2, 2), (2, 2, 3, 2, 1), (2, 1, 2, 3, 2), (2, 2, 2, 2, 2), (1, 2, 1, 3, 2, 2), (2,) * 7]


def m_high(E):
  """More axes than the exhaustive shapes have."""
  for s in HIGH:
    a, n = arr(s, 1, E.dt), len(s)
    for j, p in enumerate(itertools.permutations(range(n))):
      if (n < 6 or j % (17 if n == 6 else 211) == 3) and E.mine():
        E("transpose", a.transpose(p), lambda x: E.be.transpose(x, p), a)
    for r in (2, 3, 4, 5):
      for j, t in enumerate(factorings(a.size, r)):
        if j % 7 == 2 and E.mine():
          E("reshape", a.reshape(t), lambda x: E.be.reshape(x, t), a)
    for p in range(1, n + 1):
      if E.mine() and (p < n or E.name != "tensorflow"):
        E("pivot", a.reshape(int(np.prod(s[:p])), -1), lambda x: E.be.pivot(x, pivot_axis=p), a)
    for ax1, ax2 in itertools.permutations(range(n), 2):
      if not E.mine():
        continue
      b1, b2 = ax1 - n * (ax2 % 2), ax2 - n * (ax1 % 2)
      if E.name != "tensorflow" or s[ax1] == s[ax2]:
        E("trace", np.asarray(diag_ref(a, 0, ax1, ax2).sum(-1)), lambda x: E.be.trace(x, axis1=b1, axis2=b2), a)
      if E.name != "tensorflow":
        k = (ax1 + 2 * ax2) % s[ax2]
        E("diagonal", diag_ref(a, k, ax1, ax2), lambda x: E.be.diagonal(x, offset=k, axis1=b1, axis2=b2), a)
    for k in (1, 2, 3, n - 1):
      for j, ax in enumerate(itertools.combinations(range(n), k)):
        if not E.mine():
          continue
        bx = tuple(x - n * (i % 2) for i, x in enumerate(ax))
        E("sum", a.sum(ax), lambda x: E.be.sum(x, axis=bx), a)
        E("sum", a.sum(ax, keepdims=True), lambda x: E.be.sum(x, axis=ax, keepdims=True), a)
    st = [tuple((j * (i + 1)) % d for i, d in enumerate(s)) for j in range(6)]
    for v in st:
      if E.mine():
        sz = tuple(1 + (i + sum(v)) % (d - x) for i, (d, x) in enumerate(zip(s, v)))
        E("slice", a[tuple(slice(x, x + y) for x, y in zip(v, sz))], lambda x: E.be.slice(x, v, sz), a)
  for n1, n2 in itertools.product(range(len(HIGH)), repeat=2):
    sa, sb = HIGH[n1], HIGH[n2][::-1]
    a, b = arr(sa, 1, E.dt), arr(sb, 2, E.dt)
    at = 0
    for k in range(1, min(len(sa), len(sb)) + 1):
      for i in itertools.permutations(range(len(sa)), k):
        for j in itertools.combinations(range(len(sb)), k):
          if any(sa[x] != sb[y] for x, y in zip(i, j)):
            continue
          at += 1
          if at % (29 if at < 3000 else 4099) or not E.mine():
            continue
          si = [x - len(sa) * (x % 2) for x in i]
          sj = [y - len(sb) * ((y + k) % 2) for y in j]
          E("tensordot", dot_ref(a, b, (i, j)), lambda x, y: E.be.tensordot(x, y, [si, sj]), a, b)
        if at > 40000:
          break
      if at > 40000:
        break
  for sa, sb in [((2, 1, 3, 2, 2), (3, 2, 2)), ((2, 2), (2, 1, 3, 2, 3)), ((1, 3, 1, 2, 1), (2, 1, 2, 1, 3)), ((2, 3, 2, 2), (2, 1, 2, 2))]:
    a, b = arr(sa, 1, E.dt), arr(sb, 2, E.dt)
    if E.mine():
      E("matmul", np.einsum("...ij,...jk->...ik", a, b), lambda x, y: E.be.matmul(x, y), a, b)
  for expr, shapes in [("abcd,cefb,ghe,fgd->ha", [(2, 3, 2, 2), (2, 2, 3, 3), (2, 3, 2), (3, 2, 2)]),
                       ("abcde,ebfga->cgdf", [(2, 2, 3, 2, 2), (2, 2, 3, 2, 2)]), ("aabbc,cd->dab", [(2, 2, 3, 3, 2), (2, 3)]),
                       ("ab,bc,cd,de,ef->fa", [(2, 3), (3, 2), (2, 2), (2, 3), (3, 2)])]:
    ops = [arr(t, i, E.dt) for i, t in enumerate(shapes)]
    if E.mine():
      E("einsum:" + expr, np.einsum(expr, *ops), lambda *t: E.be.einsum(expr, *t), *ops)


def run_case(desc, rec):
  E = Env(desc, rec)
  globals()["m_" + desc["m"]](E)
  rec.outcome(desc["m"])
  rec.validated()

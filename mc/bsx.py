"""Reference model for block-sparse tensors: explicit charge lists and dense arrays.

A leg is a list of charges (one tuple of integers per position, one integer per
symmetry) together with a flow.  Nothing in here uses the library's own charge
arithmetic.
"""
import itertools
import numpy as np
from tensornetwork.block_sparse.charge import U1Charge, Z2Charge, ZNCharge, BaseCharge
from tensornetwork.block_sparse.index import Index
from tensornetwork.block_sparse.blocksparsetensor import BlockSparseTensor, ChargeArray

Z3, Z4, Z5 = ZNCharge(3), ZNCharge(4), ZNCharge(5)
CLS = {"U": U1Charge, "2": Z2Charge, "3": Z3, "4": Z4, "5": Z5}
MOD = {"U": None, "2": 2, "3": 3, "4": 4, "5": 5}
ALPH = {"U": [0, 1, -1, 2], "2": [0, 1], "3": [0, 1, 2], "4": [0, 1, 3, 2], "5": [0, 2, 3, 4, 1]}


def fuse1(s, a, b):
  m = MOD[s]
  return a + b if m is None else (a + b) % m


def fuse(sym, a, b):
  return tuple(fuse1(s, x, y) for s, x, y in zip(sym, a, b))


def dual(sym, a, flow=True):
  if not flow:
    return tuple(a)
  return tuple(-x if MOD[s] is None else (-x) % MOD[s] for s, x in zip(sym, a))


def identity(sym):
  return (0,) * len(sym)


def charge(sym, qs, rep="raw"):
  """The library's charge object for the list qs; rep 'raw' or 'lab' (touched)."""
  n = len(sym)
  parts = [CLS[s](np.array([q[i] for q in qs], dtype=np.int16).reshape((-1,)))
           for i, s in enumerate(sym)]
  c = parts[0]
  for p in parts[1:]:
    c = c @ p
  if rep == "lab":
    c.unique_charges  # pylint: disable=pointless-statement
  elif rep == "lab2":    # unique charges in an order of its own, one of them unused
    u = sorted(set(map(tuple, qs)), reverse=True)
    lab = np.array([u.index(tuple(q)) for q in qs], dtype=np.int16)
    c = type(c)(np.array(u, dtype=np.int16).reshape((-1, n)), charge_labels=lab,
                charge_types=list(c.charge_types))
  return c


def read(c):
  """The explicit list of a library charge object."""
  a = np.asarray(c.charges)
  return [tuple(int(x) for x in row) for row in a]


def words(sym, n, limit=None):
  """All charge lists of length n over the small alphabet (one per symmetry)."""
  alph = list(itertools.product(*[ALPH[s] for s in sym]))
  if limit:
    alph = alph[:limit]
  return [list(w) for w in itertools.product(alph, repeat=n)]


def total(sym, legs, flows, pos):
  t = identity(sym)
  for q, f, p in zip(legs, flows, pos):
    t = fuse(sym, t, dual(sym, q[p], f))
  return t


def mask(sym, legs, flows):
  """Boolean array: where the charges fuse to the identity."""
  n = len(sym)
  acc = [np.zeros((), dtype=np.int64) for _ in range(n)]
  for q, f in zip(legs, flows):
    for i, s in enumerate(sym):
      v = np.array([dual(sym, x, f)[i] for x in q], dtype=np.int64).reshape((-1,))
      acc[i] = np.add.outer(acc[i], v)
  res = np.ones(acc[0].shape, dtype=bool)
  for i, s in enumerate(sym):
    a = acc[i] if MOD[s] is None else acc[i] % MOD[s]
    res &= a == 0
  return res


def fill(shape, k=0, cplx=False):
  """Distinct, reproducible values."""
  n = int(np.prod(shape, dtype=np.int64))
  a = (np.arange(n) + 1 + 3 * k) * (1 + 0.25 * ((np.arange(n) * 7 + k) % 5))
  a = np.where((np.arange(n) + k) % 3 == 0, -a, a) / 4.0
  if cplx:
    a = a + 1j * ((np.arange(n) * 5 + k) % 7 - 3)
  return a.reshape(shape)


class Model:
  """Dense twin of a BlockSparseTensor: elementary legs in the current order,
  grouped, plus the dense array over the elementary legs."""

  def __init__(self, sym, legs, flows, groups, dense):
    self.sym, self.legs, self.flows, self.groups, self.dense = sym, legs, flows, groups, dense

  @property
  def shape(self):
    out, k = [], 0
    for g in self.groups:
      out.append(int(np.prod([len(q) for q in self.legs[k:k + g]], dtype=np.int64)))
      k += g
    return tuple(out)

  def value(self):
    return self.dense.reshape(self.shape)

  def spans(self):
    k = 0
    for g in self.groups:
      yield k, k + g
      k += g

  def transpose(self, order):
    sp = list(self.spans())
    flat = [i for o in order for i in range(*sp[o])]
    return Model(self.sym, [self.legs[i] for i in flat], [self.flows[i] for i in flat],
                 [self.groups[o] for o in order], self.dense.transpose(flat))

  def regroup(self, groups):
    return Model(self.sym, self.legs, self.flows, list(groups), self.dense)

  def conj(self):
    return Model(self.sym, self.legs, [not f for f in self.flows], self.groups,
                 np.conj(self.dense))

  def map(self, f):
    return Model(self.sym, self.legs, self.flows, self.groups, f(self.dense))


def index(sym, q, flow, rep="raw"):
  return Index(charge(sym, q, rep), bool(flow))


def make(sym, legs, flows, k=0, cplx=False, rep="raw", shared=None):
  """(BlockSparseTensor, Model) with distinct values on the allowed positions."""
  dense = fill([len(q) for q in legs], k, cplx)
  m = mask(sym, legs, flows)
  dense = np.where(m, dense, 0)
  reps = rep if isinstance(rep, (list, tuple)) else [rep] * len(legs)
  t = BlockSparseTensor.fromdense(
      [index(sym, q, f, r) for q, f, r in zip(legs, flows, reps)], dense)
  return t, Model(sym, [list(map(tuple, q)) for q in legs], [bool(f) for f in flows],
                  [1] * len(legs), dense)


def same(a, b, tol=1e-10):
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape:
    return False
  return bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b).max() if b.size else 1)))


def compare(t, m, tol=1e-10, values=True):
  """None when the library tensor t is exactly the model m, else a message."""
  if tuple(int(s) for s in t.shape) != m.shape:
    return f"shape {t.shape}, expected {m.shape}"
  if t.ndim != len(m.groups):
    return f"ndim {t.ndim}, expected {len(m.groups)}"
  fc, ff = t.flat_charges, [bool(f) for f in t.flat_flows]
  if len(fc) != len(m.legs):
    return f"{len(fc)} elementary legs, expected {len(m.legs)}"
  if ff != [bool(f) for f in m.flows]:
    return f"flows {ff}, expected {m.flows}"
  for i, (c, q) in enumerate(zip(fc, m.legs)):
    if read(c) != [tuple(x) for x in q]:
      return f"charges of leg {i}: {read(c)}, expected {q}"
  if [len(c) for c in t.charges] != list(m.groups):
    return f"grouping {[len(c) for c in t.charges]}, expected {m.groups}"
  sp = t.sparse_shape
  for ix, d in zip(sp, m.shape):
    if int(ix.dim) != d:
      return f"sparse_shape dim {ix.dim}, expected {d}"
  if not values:
    return None
  if isinstance(t, BlockSparseTensor) and m.legs:
    nz = int(mask(m.sym, m.legs, m.flows).sum())
    if t.data.shape != (nz,):
      return f"{t.data.shape} stored elements, expected {nz}"
  if not same(t.todense(), m.value(), tol):
    return f"values\n{t.todense()}\nexpected\n{m.value()}"
  return None

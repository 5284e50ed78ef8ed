"""C20: quantum objects against dense linear algebra."""
import itertools
import numpy as np
import tensornetwork as tn
from tensornetwork import CopyNode, Node
from tensornetwork.quantum.quantum import (
    QuOperator, QuVector, QuAdjointVector, QuScalar, identity, check_spaces,
    eliminate_identities, quantum_constructor)
from mc import hashctl
from mc.core import Violation

hashctl.install()

TITLE = "all short programs over quantum objects, interleaved with contraction"
LEVEL = "model_checking"
RULE = ("pools of vectors, adjoint vectors, operators, identities and scalars; every "
        "program of the depth over composition, tensor product, scalar "
        "multiplication, adjoint, partial traces, trace, norm, projector, reduced "
        "density and in-place contraction on any pool object (later steps may use "
        "earlier results); afterwards every object of the pool is evaluated, in "
        "two orders, under permuted set iteration orders, and compared with dense "
        "matrices")
ASSUMPTIONS = [
    "norm() is the squared 2-norm <A,A>, as the repository's tests use it",
    "numpy.einsum/tensordot as the meaning of the dense algebra"]
BOUNDS = {
    "quick": "9 pools, programs of length 2 (all) and focused chains of length 3, "
             "2 hash orders x 2 evaluation orders; constructor refusals",
    "thorough": "focused chains of length 4 and all programs of length 3 on small pools",
}
BOUNDS["quick"] += "; operators with up to 6 legs and products of up to 6 operators"


class M:
  """Dense model: array with axes out + in."""

  def __init__(self, t, nout, plain=False):
    self.t, self.nout = np.asarray(t), nout
    self.plain = plain  # built with the general class, whatever its spaces

  @property
  def out(self):
    return self.t.shape[:self.nout]

  @property
  def inn(self):
    return self.t.shape[self.nout:]


def arr(shape, k, cplx=True):
  r = np.random.RandomState(77 + k)
  x = r.randint(-2, 3, size=shape).astype(float) + 0.5
  if cplx:
    x = x + 1j * r.randint(-2, 3, size=shape)
  return x


# -------------------------------------------------------------------- objects
def make(spec, k, backend):
  kind, out, inn = spec[0], list(spec[1]), list(spec[2])
  if kind == "id":
    d = int(np.prod(out))
    q = identity(out, backend=backend, dtype=np.complex128)
    return q, M(np.eye(d).reshape(out + out), len(out))
  if kind == "v":
    t = arr(out, k)
    return QuVector.from_tensor(t, backend=backend), M(t, len(out))
  if kind == "vp":  # vector with permuted axes
    t = arr(out[::-1], k)
    axes = list(range(len(out)))[::-1]
    return QuVector.from_tensor(t, axes, backend=backend), M(t.transpose(axes), len(out))
  if kind == "b":
    t = arr(inn, k)
    return QuAdjointVector.from_tensor(t, backend=backend), M(t, 0)
  if kind == "bp":
    t = arr(inn[::-1], k)
    axes = list(range(len(inn)))[::-1]
    return QuAdjointVector.from_tensor(t, axes, backend=backend), M(t.transpose(axes), 0)
  if kind == "op":
    t = arr(out + inn, k)
    q = QuOperator.from_tensor(t, range(len(out)), range(len(out), t.ndim), backend=backend)
    return q, M(t, len(out), True)
  if kind == "opx":  # tensor stored with in-axes first and reversed
    sh = (out + inn)[::-1]
    t = arr(sh, k)
    n = t.ndim
    oa = [n - 1 - i for i in range(len(out))]
    ia = [n - 1 - i for i in range(len(out), n)]
    return QuOperator.from_tensor(t, oa, ia, backend=backend), M(t.transpose(oa + ia), len(out))
  if kind == "two":  # operator made of two connected nodes
    a, b = arr(out + [3], k), arr([3] + inn, k + 1)
    na, nb = Node(a, backend=backend), Node(b, backend=backend)
    tn.connect(na[-1], nb[0])
    q = QuOperator([na[i] for i in range(len(out))], [nb[i + 1] for i in range(len(inn))])
    return q, M(np.tensordot(a, b, 1), len(out))
  if kind == "s":
    t = arr((), k)
    return QuScalar.from_tensor(t, backend=backend), M(t, 0)
  if kind == "s1":  # scalar given by one node of a bigger network
    a, b = arr((2, 3), k), arr((3, 2), k + 1)
    na, nb = Node(a, backend=backend), Node(b, backend=backend)
    tn.connect(na[1], nb[0])
    tn.connect(na[0], nb[1])
    return QuScalar([nb]), M(np.trace(a @ b), 0)
  raise AssertionError(kind)


POOLS = [
    [("id", (2,), (2,)), ("id", (2,), (2,)), ("v", (2,), ())],
    [("id", (2, 3), (2, 3)), ("vp", (2, 3), ()), ("s", (), ())],
    [("op", (2,), (3,)), ("opx", (3,), (2,)), ("b", (), (2,))],
    [("two", (2,), (2,)), ("id", (2,), (2,)), ("opx", (2, 2), (2, 2))],
    [("op", (1, 2), (2, 1)), ("id", (1,), (1,)), ("v", (2, 1), ())],
    [("bp", (), (2, 3)), ("opx", (2, 3), (3, 2)), ("s1", (), ())],
    [("op", (2,), ()), ("op", (), (2,)), ("op", (), ())],
    [("opx", (3, 2), (2,)), ("v", (2,), ()), ("id", (3,), (3,))],
    [("s", (), ()), ("s1", (), ()), ("v", (1,), ())],
]


# ------------------------------------------------------------------- programs
def subsets(n):
  for r in range(n + 1):
    yield from itertools.combinations(range(n), r)


def binary(a, b):
  """Model-level applicability of a op b."""
  out = []
  if a.inn == b.out:
    out.append("mm")
  if a.t.ndim + b.t.ndim <= 5:
    out.append("tp")
  if a.t.ndim == 0 or b.t.ndim == 0:
    out.append("mul")
  return out


def unary(m):
  out = [("adj",), ("con",), ("nrm",)]
  if m.inn == m.out:
    out.append(("tr",))
  k = min(len(m.out), len(m.inn))
  for s in subsets(k):
    if all(m.out[i] == m.inn[i] for i in s):
      out.append(("pt", s))
      if len(s) == 2:
        out.append(("pt", s[::-1]))
  out += [("num", 0), ("num", 1), ("num", 2), ("num", 3)]
  if not m.plain and m.t.ndim and (m.nout == m.t.ndim or m.nout == 0):
    if m.t.ndim <= 2:
      out.append(("prj",))
      out += [("rd", s) for s in subsets(m.t.ndim)]
  return out


def legal(models, focus, last=False):
  n = len(models)
  idx = range(n)
  for i in idx:
    for u in unary(models[i]):
      if focus and i != n - 1 and u[0] != "con":
        continue
      if last and not (u[0] in ("con", "tr") or u[0] == "pt" and u[1]):
        continue
      if focus and (u[0] == "num" and u[1] != 1 or u[0] == "rd" and len(u[1]) != 1):
        continue
      yield (u[0], i) + tuple(u[1:])
  for i in idx:
    for j in idx:
      if focus and n - 1 not in (i, j):
        continue
      for op in binary(models[i], models[j]):
        if last and op == "tp":
          continue
        yield (op, i, j)


def mm(a, b):
  k = len(a.inn)
  return M(np.tensordot(a.t, b.t, axes=(list(range(a.nout, a.nout + k)), list(range(k)))), a.nout)


def dag(a):
  n = a.t.ndim
  return M(a.t.conj().transpose(list(range(a.nout, n)) + list(range(a.nout))), n - a.nout)


def ptrace(a, s):
  n = a.t.ndim
  lab = list(range(n))
  for i in s:
    lab[a.nout + i] = lab[i]
  keep = [l for k, l in enumerate(lab) if lab.count(l) == 1]
  return M(np.einsum(a.t, lab, keep), a.nout - len(s))


def model(op, ms):
  k = op[0]
  a = ms[op[1]]
  if k == "mm":
    return mm(a, ms[op[2]])
  if k == "tp" or k == "mul":
    b = ms[op[2]]
    n, m = a.nout, b.nout
    t = np.multiply.outer(a.t, b.t)
    x, y = a.t.ndim, b.t.ndim
    perm = (list(range(n)) + [x + i for i in range(m)] + list(range(n, x)) +
            [x + i for i in range(m, y)])
    return M(t.transpose(perm), n + m)
  if k == "adj":
    return dag(a)
  if k == "con":
    return None
  if k == "nrm":
    return M(np.sum(np.abs(a.t)**2).astype(complex), 0)
  if k == "tr":
    return ptrace(a, range(a.nout))
  if k == "pt":
    return ptrace(a, op[2])
  if k == "num":
    return M(a.t * NUM[op[2]], a.nout)
  if k in ("prj", "rd"):
    p = mm(a, dag(a)) if a.nout else mm(dag(a), a)
    return p if k == "prj" else ptrace(p, op[2])
  raise AssertionError(op)


NUM = [2.0, -1j, np.float64(0.5), 3.0]


def apply(op, qs, backend):
  k = op[0]
  a = qs[op[1]]
  if k == "mm":
    return a @ qs[op[2]]
  if k == "tp":
    return a.tensor_product(qs[op[2]])
  if k == "mul":
    return a * qs[op[2]]
  if k == "adj":
    return a.adjoint()
  if k == "con":
    r = a.contract()
    if r is not a:
      raise Violation("contract:returns", "not the present object")
    return None
  if k == "nrm":
    return a.norm()
  if k == "tr":
    return a.trace()
  if k == "pt":
    return a.partial_trace(list(op[2]))
  if k == "num":
    v = NUM[op[2]]
    if backend == "tensorflow" and op[2] == 3:  # no implicit conversions there
      v = np.complex128(v)
    if op[2] == 3:
      return a * Node(np.array(v), backend=backend)
    return v * a if op[2] % 2 else a * v
  if k == "prj":
    return a.projector()
  if k == "rd":
    return a.reduced_density(list(op[2]))
  raise AssertionError(op)


KIND = {(True, True): QuScalar, (False, True): QuVector, (True, False): QuAdjointVector,
        (False, False): QuOperator}


def check_obj(q, m, what, cls=True):
  if [int(d) for d in q.out_space] != list(m.out) or [int(d) for d in q.in_space] != list(m.inn):
    raise Violation("space", f"{what}: {q.out_space} {q.in_space} for {m.out} {m.inn}")
  if cls and type(q) is not KIND[(not m.out, not m.inn)]:
    raise Violation("class", f"{what}: {type(q).__name__} for {m.out} {m.inn}")
  if (q.is_scalar(), q.is_vector(), q.is_adjoint_vector()) != (
      not m.out and not m.inn, bool(m.out) and not m.inn, bool(m.inn) and not m.out):
    raise Violation("predicates", what)
  if isinstance(q, (QuVector, QuAdjointVector)) and [int(x) for x in q.space] != list(m.out or m.inn):
    raise Violation("space", what)
  if isinstance(q, (QuVector, QuAdjointVector)) and [
      id(e) for e in q.subsystem_edges] != [id(e) for e in list(q.out_edges) + list(q.in_edges)]:
    raise Violation("subsystem_edges", what)
  q.check_network()


def evaluate(q, m, what, variant=0):
  if variant == 1:  # explicit order of all axes, inputs first
    order = list(q.in_edges) + list(q.out_edges)
    v = np.asarray(q.eval(final_edge_order=order) if order else q.eval())
    ref = m.t.transpose(list(range(m.nout, m.t.ndim)) + list(range(m.nout)))
  elif variant == 2:  # contract keeping any order, then evaluate
    q.contract()
    if len(q.nodes) != 1:
      raise Violation("contract:nodes", what)
    v, ref = np.asarray(q.eval(contractor=tn.contractors.optimal)), m.t
  else:
    v, ref = np.asarray(q.eval()), m.t
  if v.shape != ref.shape or not np.allclose(v, ref, atol=1e-9, rtol=1e-9):
    raise Violation("value", f"{what}: {v.tolist()} expected {ref.tolist()}")


def run(pool, prog, backend, mode, rev, variant, rec):
  hashctl.reset(mode)
  qs, ms = [], []
  for k, spec in enumerate(pool):
    q, m = make(spec, k, backend)
    qs.append(q)
    ms.append(m)
  what = f"pool {pool} program {prog} mode {mode} eval {'reversed' if rev else 'forward'}"
  try:
    for op in prog:
      r = apply(op, qs, backend)
      rec.step()
      m = model(op, ms)
      if m is not None:
        check_obj(r, m, what)
        qs.append(r)
        ms.append(m)
    idx = list(range(len(qs)))
    for i in (idx[::-1] if rev else idx):
      check_obj(qs[i], ms[i], what, i >= len(pool))
      evaluate(qs[i], ms[i], f"{what} object {i}", variant)
      rec.step()
    for i in idx:  # once more: evaluation in place keeps the value
      evaluate(qs[i], ms[i], f"{what} object {i} again")
    rec.validated()
  except Violation as v:
    v.extra = {"program": str(prog)}
    raise
  except Exception as e:
    raise Violation(f"exception:{type(e).__name__}", f"{what}: {e!r}") from e


def programs(ms, depth, focus, first=None):
  def rec(models, prefix):
    if len(prefix) == depth:
      yield prefix
      return
    ops = list(legal(models, focus and prefix, focus and len(prefix) == 2))
    if not prefix and first is not None:
      ops = ops[first:first + 1]
    for op in ops:
      if op[0] == "con" and prefix and prefix[-1] == op:
        continue
      m = model(op, models)
      yield from rec(models + ([m] if m is not None else []), prefix + (op,))
  yield from rec(list(ms), ())


def models_of(pool):
  return [make(s, k, "numpy")[1] for k, s in enumerate(pool)]


def cases(tier):
  th = tier == "thorough"
  for p, pool in enumerate(POOLS):
    ms = models_of(pool)
    nf = len(list(legal(ms, False)))
    for f in range(nf):
      yield {"k": "prog", "pool": p, "depth": 2, "focus": False, "first": f, "be": "numpy"}
    for f in range(nf):
      yield {"k": "prog", "pool": p, "depth": 4 if th else 3, "focus": True, "first": f,
             "be": "numpy"}
    if th:
      for f in range(nf):
        yield {"k": "prog", "pool": p, "depth": 3, "focus": False, "first": f, "be": "numpy"}
  for p in (0, 2, 3):
    for be in ("jax", "tensorflow"):
      yield {"k": "prog", "pool": p, "depth": 1, "focus": False, "first": None, "be": be}
  for p in range(len(WIDE)):
    n = len(list(wide_programs(p)))
    for f in range(0, n, 24):
      yield {"k": "wide", "pool": p, "from": f, "be": "numpy"}
    for be in ("jax", "tensorflow"):
      yield {"k": "wide", "pool": p, "from": 24 * (n // 48), "be": be, "every": 6}
  yield {"k": "long"}
  yield {"k": "chain"}
  yield {"k": "refuse"}


# ------------------------------------------- many subsystems, many factors
WIDE = [
    [("v", (2, 3, 1, 2, 2, 2), ()), ("bp", (), (2, 1, 3, 2, 2))],
    [("op", (2, 3, 2, 2), (2, 3, 2, 2)), ("id", (2, 3, 2, 2), (2, 3, 2, 2)), ("opx", (2, 3, 2, 2), (2, 3, 2, 2))],
    [("two", (2,), (2,)), ("id", (2,), (2,)), ("v", (2,), ()), ("b", (), (2,)), ("s1", (), ()), ("op", (2, 1), (1, 2))],
    [("op", (2, 2, 1, 2, 2), (2, 2, 2, 2, 1)), ("opx", (2, 2, 2, 2, 1), (2, 2, 1, 2, 2))],
]


def wide_programs(p):
  if p == 0:
    for s in subsets(6):
      yield (("rd", 0, s),)
      if len(s) > 1:
        yield (("rd", 0, s[::-1]), ("tr", 2)) if len(s) < 6 else (("rd", 0, s[::-1]),)
    for s in subsets(5):
      yield (("rd", 1, s[1:] + s[:1]), ("con", 1))
    yield (("prj", 0), ("con", 2), ("pt", 2, (5, 0, 3)), ("tr", 3), ("nrm", 0))
    yield (("prj", 1), ("adj", 2), ("mm", 2, 3), ("nrm", 4))
    return
  if p == 1:
    for o in range(3):
      for k in range(1, 5):
        for s in itertools.permutations(range(4), k):
          yield (("pt", o, s),)
    for a, b, c in itertools.product(range(3), repeat=3):
      yield (("mm", a, b), ("mm", 3, c), ("pt", 4, (2, 0)), ("con", 4), ("pt", 4, (1, 3)), ("tr", 4))
    yield (("mm", 0, 2), ("mm", 3, 1), ("mm", 4, 0), ("adj", 5), ("mm", 5, 6), ("con", 7), ("mm", 7, 1), ("tr", 8), ("pt", 8, (3, 1, 0)))
    return
  if p == 2:
    # eight factors side by side, in several orders, then traces over scattered positions
    for order in ((0, 1, 2, 3, 0, 4, 1), (3, 2, 1, 0, 1, 5), (5, 0, 4, 4, 1, 0, 3, 2), (1, 1, 1, 1, 0, 0)):
      prog, last, n = [], order[0], 6
      outs = 0
      for k in order[1:]:
        prog.append(("tp", last, k))
        last, n = n, n + 1
      full = [2 if k < 5 and k not in (4,) else 0 for k in order]
      yield tuple(prog)
      yield tuple(prog) + (("adj", last), ("con", last))
      yield tuple(prog) + (("nrm", last), ("con", last), ("adj", last))
      for s in ((0,), (1,), (2, 0), (0, 2), (1, 2)):
        yield tuple(prog) + (("pt", last, s), ("con", n), ("adj", n))
    # ten factors composed, with a contraction in every place
    base = [("mm", 0, 1), ("mm", 6, 0), ("mm", 7, 0), ("mm", 8, 1), ("mm", 9, 0), ("mm", 10, 0), ("mm", 11, 1), ("mm", 12, 2),
            ("mm", 3, 13)]
    yield tuple(base)
    for k in range(1, len(base)):
      yield tuple(base[:k] + [("con", 5 + k)] + base[k:])
      yield tuple(base[:k] + [("adj", 5 + k), ("tr", 5 + k)] + [tuple(x + 2 if isinstance(x, int) and x >= 6 + k else x for x in op)
                                                              for op in base[k:]]) if k < 7 else tuple(base[:k])
    return
  for a, b in ((0, 1), (1, 0)):
    for s in subsets(5):
      if s:
        yield (("mm", a, b), ("pt", 2, s[::-1]), ("con", 2), ("tr", 2))
    yield (("mm", a, b), ("adj", a), ("nrm", b), ("mm", 2, a), ("adj", 5), ("mm", 5, 6))


def wide(desc, rec):
  pool = WIDE[desc["pool"]]
  progs = list(wide_programs(desc["pool"]))[desc["from"]:desc["from"] + 24]
  for n, prog in enumerate(progs[::desc.get("every", 1)]):
    # programs may name operations that do not apply to the spaces: skipped
    ms = models_of(pool)
    ok = True
    for op in prog:
      try:
        a = ms[op[1]]
        if op[0] == "mm" and a.inn != ms[op[2]].out or op[0] == "tr" and a.inn != a.out or op[0] == "pt" and any(
            i >= min(len(a.out), len(a.inn)) or a.out[i] != a.inn[i] for i in op[2]):
          ok = False
          break
        m = model(op, ms)
      except IndexError:
        ok = False
        break
      if m is not None:
        ms.append(m)
    if not ok:
      rec.outcome("program does not apply")
      continue
    for k, (mode, rev) in enumerate([("asc", False), ("desc", True)]):
      run(pool, prog, desc["be"], mode, rev, (n + k) % 3, rec)
    rec.state(("wide", desc["pool"], prog))


def long(rec):
  """Chains and rings of identities and operators, longer than the exhaustive ones."""
  for L in (6, 9, 14):
    for pat in ("i", "o", "io", "ooi", "iio", "iiiio"):
      kinds = (pat * L)[:L]
      mats = [np.eye(2) if k == "i" else arr((2, 2), n) / 2 for n, k in enumerate(kinds)]
      prod = np.linalg.multi_dot(mats)
      for ring in (False, True):
        for perm in (range(L), range(L)[::-1], [(5 * i + 2) % L for i in range(L)] if L % 5 else range(L)):
          for mode in ("asc", "desc"):
            hashctl.reset(mode)
            nodes = [CopyNode(2, 2, dtype=np.complex128) if k == "i" else Node(m.astype(complex))
                     for k, m in zip(kinds, mats)]
            hashctl.pin(nodes, list(perm))
            for n in range(L - 1):
              tn.connect(nodes[n][1], nodes[n + 1][0])
            what = f"{kinds} ring={ring} perm={list(perm)} {mode}"
            if ring:
              tn.connect(nodes[-1][1], nodes[0][0])
              v, ref = QuScalar([nodes[L // 3]]).eval(), np.trace(prod)
            else:
              q = QuOperator([nodes[0][0]], [nodes[-1][1]])
              q2 = q.adjoint()
              if not np.allclose(q2.eval(), prod.conj().T):
                raise Violation("long:adjoint", what)
              v, ref = q.eval(), prod
            rec.step()
            if not np.allclose(v, ref):
              raise Violation("long:value", f"{what}: {v} expected {ref}")
            rec.state((kinds, ring, tuple(perm), mode))


def chain(rec):
  """Networks given by the user: chains and rings of identities and operators,
  under every hash order of the nodes."""
  for L in range(1, 5):
    for kinds in itertools.product("io", repeat=L):
      mats = [np.eye(2) if k == "i" else arr((2, 2), n) for n, k in enumerate(kinds)]
      prod = mats[0]
      for x in mats[1:]:
        prod = prod @ x
      for ring in (False, True):
        for perm in itertools.permutations(range(L)):
          for flip in (0, 1):
            hashctl.reset("asc")
            nodes = [CopyNode(2, 2, dtype=np.complex128) if k == "i" else Node(m.astype(complex))
                     for k, m in zip(kinds, mats)]
            hashctl.pin(nodes, perm)
            ax = [(1, 0) if flip and k == "i" else (0, 1) for k in kinds]
            for n in range(L - 1):
              tn.connect(nodes[n][ax[n][1]], nodes[n + 1][ax[n + 1][0]])
            what = f"{kinds} ring={ring} perm={perm} flip={flip}"
            try:
              if ring:
                tn.connect(nodes[-1][ax[-1][1]], nodes[0][ax[0][0]])
                for ref in ([nodes[0]], nodes, [nodes[-1]]):
                  q = QuScalar(ref)
                  q2 = q.adjoint()
                  v2 = q2.eval()
                  if not np.allclose(v2, np.conj(np.trace(prod))):
                    raise Violation("chain:scalar", what)
                  rec.step()
                v = QuScalar([nodes[L // 2]]).eval()
                if not np.allclose(v, np.trace(prod)):
                  raise Violation("chain:scalar", f"{what}: {v}")
              else:
                q = QuOperator([nodes[0][ax[0][0]]], [nodes[-1][ax[-1][1]]])
                v = q.eval()
                if not np.allclose(v, prod):
                  raise Violation("chain:operator", f"{what}: {v}")
              rec.step()
            except Violation:
              raise
            except Exception as e:
              raise Violation(f"chain:exception:{type(e).__name__}", f"{what}: {e!r}") from e
            rec.state((kinds, ring, perm, flip))


def refuse(rec):
  def refused(f, sig, exc=(ValueError,)):
    try:
      f()
    except exc:
      rec.outcome("refused:" + sig)
      rec.step()
      return
    raise Violation("accepted:" + sig, "")
  specs = sorted({s for p in POOLS for s in p})
  objs = [make(s, k, "numpy") for k, s in enumerate(specs)]
  for (q1, m1), (q2, m2) in itertools.product(objs, repeat=2):
    if m1.inn != m2.out:
      refused(lambda: q1 @ q2, "composition of different spaces")
    if m1.t.ndim and m2.t.ndim:
      refused(lambda: q1 * q2, "product of two non-scalars")
    ok = True
    try:
      check_spaces(q1.in_edges, q2.out_edges)
    except ValueError:
      ok = False
    if ok != (m1.inn == m2.out):
      raise Violation("check_spaces", f"{m1.inn} {m2.out}")
    rec.state((m1.t.shape, m1.nout, m2.t.shape, m2.nout))
  for q, m in objs:
    k = min(len(m.out), len(m.inn))
    for s in subsets(k):
      if any(m.out[i] != m.inn[i] for i in s):
        refused(lambda: q.partial_trace(list(s)), "partial trace over different spaces")
    if m.t.ndim:
      refused(lambda: q * np.ones(2), "array factor")
  for n in range(2):
    a, b = Node(arr((2, 3), 1)), Node(arr((3, 2), 2))
    e = tn.connect(a[1], b[0])
    refused(lambda: QuOperator([a[0]], []), "unexpected dangling edge")
    refused(lambda: QuOperator([e], [b[1]]), "non-dangling edge")
    refused(lambda: QuVector([a[0]]), "unexpected dangling edge of a vector")
    refused(lambda: QuOperator([a[0]], [b[1]], None, [e]), "ignored non-dangling edge")
    refused(lambda: QuScalar([]), "scalar without nodes")
    q = QuOperator([a[0]], [], None, [b[1]])
    v = q.eval()  # ignored axes come first
    if not np.allclose(v, (arr((2, 3), 1) @ arr((3, 2), 2)).T):
      raise Violation("ignored-edges", str(v))
  # ignored edges survive every operation
  for mode in ("asc", "desc"):
    hashctl.reset(mode)
    t = arr((2, 3, 2), 5)
    n = Node(t)
    q = QuOperator([n[0]], [n[2]], None, [n[1]])
    for f, ref in ((lambda: q.adjoint(), t.conj().transpose(1, 2, 0)),
                   (lambda: q.partial_trace([0]), np.einsum("aba->b", t)),
                   (lambda: q * 2.0, 2 * t.transpose(1, 0, 2)),
                   (lambda: q @ identity([2], dtype=np.complex128), t.transpose(1, 0, 2)),
                   (lambda: identity([2], dtype=np.complex128) @ q, t.transpose(1, 0, 2))):
      r = f()
      if len(r.ignore_edges) != 1 or not np.allclose(r.eval(), ref):
        raise Violation("ignored-edges", "lost")
      rec.step()
  for out, inn in itertools.product([0, 1, 2], repeat=2):
    n = Node(arr((2,) * (out + inn), 3))
    r = quantum_constructor([n[i] for i in range(out)], [n[out + i] for i in range(inn)], [n])
    if type(r) is not KIND[(not out, not inn)]:
      raise Violation("constructor", f"{out} {inn} {type(r)}")
    rec.step()


def run_case(desc, rec):
  if desc["k"] == "chain":
    return chain(rec)
  if desc["k"] == "refuse":
    return refuse(rec)
  if desc["k"] == "long":
    return long(rec)
  if desc["k"] == "wide":
    return wide(desc, rec)
  pool = POOLS[desc["pool"]]
  ms = models_of(pool)
  n = 0
  for prog in programs(ms, desc["depth"], desc["focus"], desc["first"]):
    for k, (mode, rev) in enumerate([("asc", False), ("desc", True)]):
      if desc["focus"] and k != n % 2:
        continue
      run(pool, prog, desc["be"], mode, rev, (n + k) % 3, rec)
    n += 1
    rec.state((desc["pool"], prog))

"""C26: constructors give exactly the requested shape, dtype, pattern and seeded data."""
import itertools
import numpy as np
import tensornetwork as tn
import tensornetwork.block_sparse as bs
from tensornetwork.backends import backend_factory
from tensornetwork.block_sparse.blocksparsetensor import BlockSparseTensor, ChargeArray
from tensornetwork.linalg import initialization as li, node_linalg as nl
from mc import bsx
from mc.core import Violation

TITLE = "constructors: shape, dtype, backend, pattern, seeds and bounds"
LEVEL = "model_checking"
RULE = ("every constructor (backend method, wrapped tensor, node, block-sparse, like-variants, "
        "matrix product states) x backend x dtype in every spelling x shape x default or "
        "explicit backend against the exact pattern; for random data every pair of equal or "
        "different seeds (zero included) x every interleaving of up to two other random calls "
        "between them, in every order of constructors")
ASSUMPTIONS = [
    "block-sparse constructors get at least one leg",
    "randomness itself is judged only through reproducibility, bounds, distinctness and "
    "completeness (no constant entries, complex data complex), never statistically",
    "boundaries are half open intervals of floats"]
BOUNDS = {
    "quick": "shapes of rank 0..3 with dimensions 1..3, seeds 0, 1, 10 and 2**31-1, "
             "interleavings up to length 2 over 4 actions, U1/Z2/Z3/U1xZ2 legs of dimension 1..3",
    "thorough": "interleavings up to length 3, more shapes and symmetries, rank 4",
}
BOUNDS["quick"] += "; nodes from every topology string of up to 6 axes on up to 3 tensors"
BES = ("numpy", "jax", "tensorflow")
SHAPES = [(), (1,), (3,), (2, 2), (2, 3), (3, 1), (1, 1, 2), (2, 3, 2)]
DTS = ("float64", "float32", "complex128", "complex64")
SEEDS = (0, 1, 10, 2**31 - 1)


def cases(tier):
  th = tier == "thorough"
  for be in BES:
    for dt in DTS + ("None",):
      for g in ("pattern", "random", "like"):
        yield {"m": g, "be": be, "dt": dt, "th": th}
    for dt in (DTS + ("None",) if th or be != "jax" else ("float64", "complex64")):
      for lay in ("backend", "tensor", "node"):
        for fn in ("randn", "random_uniform"):
          yield {"m": "seed", "be": be, "dt": dt, "layer": lay, "fn": fn, "th": th}
  for sym in ("U", "2", "3", "U2") + (("4", "22", "U3") if th else ()):
    for r in (1, 2, 3) + ((4,) if th else ()):
      yield {"m": "symmetric", "sym": sym, "r": r, "th": th}
    yield {"m": "bseye", "sym": sym, "th": th}
  for sym in ("U", "U2"):
    for dt in DTS + ("None",):
      yield {"m": "symseed", "sym": sym, "dt": dt, "th": th}
  for be in BES:
    for dt in DTS if th or be != "jax" else ("float64", "complex64"):
      yield {"m": "mps", "be": be, "dt": dt, "th": th}
    yield {"m": "topology", "be": be, "th": th}


def labelings(n):
  """Every way of naming n axes, up to renaming."""
  def grow(w):
    if len(w) == n:
      yield tuple(w)
      return
    for x in range(max(w, default=-1) + 2):
      yield from grow(w + [x])
  yield from grow([])


def m_topology(desc, rec):
  """Nodes from an einsum-like string: names, connections, values."""
  be = desc["be"]
  dim = (2, 3, 1, 4, 2, 3, 2)
  for ranks in [(0,), (1,), (2,), (3,), (0, 2), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 1, 1), (2, 1, 2),
                (3, 2), (2, 2, 2)] + ([(3, 3), (2, 1, 1, 2), (4, 2)] if desc["th"] else []):
    for lab in labelings(sum(ranks)):
      for names in ("abcdefg", "zBxAwCy") if be == "numpy" else ("gdbface",):
        at, parts = 0, []
        for r in ranks:
          parts.append(lab[at:at + r])
          at += r
        top = ",".join("".join(names[x] for x in q) for q in parts)
        arrs = [np.random.RandomState(at + i).rand(*[dim[x] for x in q]) for i, q in enumerate(parts)]
        arrs = [np.asarray(a) for a in arrs]
        keep = [a.copy() for a in arrs]
        legal = all(lab.count(x) <= 2 for x in lab) and all(len(set(q)) == len(q) for q in parts)
        b = backend_factory.get_backend(be)
        ts = [b.convert_to_tensor(a) for a in arrs]
        rec.step()
        try:
          if be == "jax":
            with tn.DefaultBackend("jax"):
              nodes = tn.from_topology(top, ts)
          else:
            nodes = tn.from_topology(top, ts, backend=be)
        except ValueError:
          if legal:
            raise Violation("topology:refused", f"{be} {top}")
          rec.outcome("refused topology")
          continue
        what = f"{be} {top}"
        if not legal and any(lab.count(x) > 2 for x in lab):
          raise Violation("topology:accepted", what)
        if len(nodes) != len(ranks) or any(n.backend.name != be or not np.array_equal(np.asarray(n.tensor), a)
                                           for n, a in zip(nodes, keep)):
          raise Violation("topology:nodes", what)
        for n, q in zip(nodes, parts):
          if list(n.axis_names) != [names[x] for x in q]:
            raise Violation("topology:axis names", what)
        ends = {}
        for n, q in zip(nodes, parts):
          for i, x in enumerate(q):
            ends.setdefault(x, []).append((n, i))
        for x, es in ends.items():
          e = es[0][0].edges[es[0][1]]
          if any(n.edges[i] is not e for n, i in es) or e.is_dangling() != (len(es) == 1) or {
              (id(n), i) for n, i in zip(e.get_nodes(), (e.axis1, e.axis2)) if n is not None} != {
                  (id(n), i) for n, i in es}:
            raise Violation("topology:edges", f"{what} {names[x]}")
        free = [x for x in sorted(ends) if len(ends[x]) == 1]
        out = tn.contractors.auto(nodes, output_edge_order=[ends[x][0][0].edges[ends[x][0][1]] for x in free],
                                  ignore_edge_order=False)
        args = []
        for a, q in zip(keep, parts):
          args += [a, list(q)]
        ref = np.einsum(*args, free)
        if out.shape != ref.shape or not np.allclose(np.asarray(out.tensor), ref, atol=1e-5):
          raise Violation("topology:value", what)
        rec.state((be, top))
        rec.validated()
  for top, shapes in (("ab,b", [(2, 3), (2,)]), ("ab", [(2, 3), (3,)]), ("ab,bc", [(2, 3)]), ("abc,c", [(2, 3), (3,)]),
                      ("a", [(2, 3)]), ("", [(2,)])):
    try:
      tn.from_topology(top, [np.ones(s) for s in shapes], backend=be)
    except ValueError:
      rec.outcome("refused topology")
    else:
      raise Violation("topology:mismatch accepted", f"{be} {top} {shapes}")


def spellings(be, dt):
  """The ways a caller names the dtype."""
  if dt == "None":
    return [{}, {"dtype": None}]
  out = [{"dtype": getattr(np, dt)}, {"dtype": np.dtype(dt)}]
  if be == "tensorflow":
    import tensorflow as tf
    out = [{"dtype": tf.as_dtype(dt)}] + out
  if be == "jax":
    import jax.numpy as jnp
    out.append({"dtype": getattr(jnp, dt)})
  return out


def rdt(dt):
  return np.dtype("float64" if dt == "None" else dt)


def layers(be, fn, only=None):
  """name, callable(*args, **kw) -> (numpy data, meta check)"""
  b = backend_factory.get_backend(be)
  typ = type(b.convert_to_tensor(np.ones(2)))

  def arr(f):
    def g(*a, **k):
      out = f(*a, **k)
      if be == "numpy" and not isinstance(out, np.ndarray) and np.isscalar(out):
        return np.asarray(out)
      if not isinstance(out, typ):
        raise Violation(f"{be}:{fn}:type", f"{type(out)}")
      return np.asarray(out)
    return g

  def ten(f):
    def g(*a, **k):
      out = f(*a, **k)
      if type(out) is not tn.Tensor or out.backend.name != be:
        raise Violation(f"{be}:{fn}:tensor", f"{type(out)}")
      d = np.asarray(out.array)
      if tuple(out.shape) != d.shape:
        raise Violation(f"{be}:{fn}:tensor shape", f"{out.shape} {d.shape}")
      return d
    return g

  def nod(f):
    def g(*a, **k):
      names = None
      if fn != "eye":
        names = [f"n{i}" for i in range(len(a[0]))]
      out = f(*a, name="nm", axis_names=names, **k)
      if type(out) is not tn.Node or out.backend.name != be or out.name != "nm":
        raise Violation(f"{be}:{fn}:node", f"{type(out)} {out}")
      d = np.asarray(out.tensor)
      if tuple(out.shape) != d.shape or len(out.edges) != d.ndim or (
          names and list(out.axis_names) != names) or not all(
              e.is_dangling() for e in out.edges):
        raise Violation(f"{be}:{fn}:node structure", f"{out.shape} {out.axis_names}")
      return d
    return g

  def default(f):
    def g(*a, **k):
      with tn.DefaultBackend(be):
        return f(*a, **k)
    return g

  lf, nf = getattr(li, fn), getattr(nl, fn)
  res = [("backend", arr(getattr(b, fn))),
         ("tensor", ten(lambda *a, **k: lf(*a, backend=be, **k))),
         ("tensor:object", ten(lambda *a, **k: lf(*a, backend=b, **k))),
         ("tensor:default", ten(default(lf))),
         ("node", nod(lambda *a, **k: nf(*a, backend=be, **k))),
         ("node:object", nod(lambda *a, **k: nf(*a, backend=b, **k))),
         ("node:default", nod(default(nf)))]
  return [x for x in res if only is None or x[0] == only]


def exact(rec, what, out, ref):
  rec.step()
  if out.shape != ref.shape or out.dtype != ref.dtype:
    raise Violation(what + ":shape", f"{out.shape} {out.dtype} expected {ref.shape} {ref.dtype}")
  if not np.array_equal(out, ref):
    raise Violation(what, f"{out.tolist()} expected {ref.tolist()}"[:600])


def m_pattern(d, rec):
  be, dt = d["be"], d["dt"]
  for kw in spellings(be, dt):
    for fn, ref in (("zeros", np.zeros), ("ones", np.ones)):
      for name, f in layers(be, fn):
        for s in SHAPES:
          for form in (tuple(s), list(s)):
            exact(rec, f"{be}:{name}:{fn}", f(form, **kw), ref(s, rdt(dt)))
            rec.state((be, name, fn, s, dt))
    for name, f in layers(be, "eye"):
      for n in range(1, 5):
        exact(rec, f"{be}:{name}:eye", f(n, **kw), np.eye(n, dtype=rdt(dt)))
        for m in list(range(1, 5)) + [None]:
          ref = np.zeros((n, m or n), rdt(dt))
          for i in range(min(ref.shape)):
            ref[i, i] = 1
          exact(rec, f"{be}:{name}:eye M", f(n, M=m, **kw), ref)
          rec.state((be, name, "eye", n, m, dt))
    # results are independent of each other
    for fn in ("zeros", "ones"):
      for name, f in layers(be, fn):
        a, b = f((2,), **kw), f((2,), **kw)
        if np.shares_memory(a, b) and be == "numpy":
          raise Violation(f"{be}:{name}:{fn}:shared", "")
  rec.validated(1)


def good_random(rec, what, x, s, dt, lo=None, hi=None, many=True):
  rec.step()
  if x.shape != tuple(s) or x.dtype != rdt(dt):
    raise Violation(what + ":shape", f"{x.shape} {x.dtype} expected {s} {dt}")
  parts = [x.real, x.imag] if x.dtype.kind == "c" else [x]
  for p in parts:
    if not np.all(np.isfinite(p)):
      raise Violation(what + ":finite", str(p))
    if many and p.size > 1 and len(np.unique(p)) < p.size:
      raise Violation(what + ":constant", str(p))
    if lo is not None and (np.any(p < lo) or np.any(p > hi)):
      raise Violation(what + ":bounds", f"{p} outside [{lo}, {hi})")
    if lo is None and np.any(p == 0):
      raise Violation(what + ":zero", str(p))
  if len(parts) == 2 and np.array_equal(parts[0], parts[1]):
    raise Violation(what + ":imaginary part equals real part", str(x))


BND = [(0.0, 1.0), (-1.0, 1.0), (2.0, 3.0), (-5.0, -4.5), (0.0, 0.125), (-10.0, 0.0)]


def m_random(d, rec):
  be, dt = d["be"], d["dt"]
  single = dt in ("float32", "complex64")
  for kw in spellings(be, dt):
    for s in SHAPES:
      for name, f in layers(be, "randn"):
        for seed in ({}, {"seed": 0}, {"seed": 7}, {"seed": None}):
          good_random(rec, f"{be}:{name}:randn", f(s, **kw, **seed), s, dt, many=not single)
          rec.state((be, name, s, dt))
      for name, f in layers(be, "random_uniform"):
        good_random(rec, f"{be}:{name}:uniform", f(s, **kw), s, dt, 0, 1, not single)
        for lo, hi in BND if s in ((2, 3), (3,), ()) else BND[2:3]:
          for seed in ({}, {"seed": 0}):
            good_random(rec, f"{be}:{name}:uniform bounds",
                        f(s, boundaries=(lo, hi), **kw, **seed), s, dt, lo, hi, not single)
    for lo, hi in BND:  # the whole interval is used, not a part of it
      for name, f in layers(be, "random_uniform"):
        x = f((200,), boundaries=(lo, hi), seed=3, **kw)
        for p in ([x.real, x.imag] if x.dtype.kind == "c" else [x]):
          w = (hi - lo) / 4
          if not (p.min() < lo + w and p.max() > hi - w):
            raise Violation(f"{be}:{name}:uniform range", f"{p.min()} {p.max()} for {lo} {hi}")
    for fn in ("randn", "random_uniform"):
      for name, f in layers(be, fn):
        seen = [f((3,), **kw).tobytes() for _ in range(3)]
        if len(set(seen)) != 3:
          raise Violation(f"{be}:{name}:{fn}:unseeded calls repeat", "")
  rec.validated(1)


def m_like(d, rec):
  be, dt = d["be"], d["dt"]
  b = backend_factory.get_backend(be)
  for fn, ref in (("ones_like", np.ones), ("zeros_like", np.zeros)):
    f = getattr(li, fn)
    for s in SHAPES:
      for src in DTS:
        x = (np.arange(int(np.prod(s))) + 2.5).reshape(s).astype(src)
        for kw in spellings(be, dt):
          want = ref(s, src if dt == "None" else dt)
          t = tn.Tensor(b.convert_to_tensor(x), backend=be)
          for bk in ({}, {"backend": be}):
            out = f(t, **kw, **bk)
            if out.backend.name != be:
              raise Violation(f"{be}:{fn}:backend", out.backend.name)
            exact(rec, f"{be}:{fn}:tensor", np.asarray(out.array), want)
          for a in (b.convert_to_tensor(x), x):
            out = f(a, backend=be, **kw)
            if type(out) is not tn.Tensor or out.backend.name != be:
              raise Violation(f"{be}:{fn}:backend", out.backend.name)
            exact(rec, f"{be}:{fn}:array", np.asarray(out.array), want)
            with tn.DefaultBackend(be):
              out = f(a, **kw)
            if out.backend.name != be:
              raise Violation(f"{be}:{fn}:default backend", out.backend.name)
            exact(rec, f"{be}:{fn}:default", np.asarray(out.array), want)
          exact(rec, f"{be}:{fn}:operand", np.asarray(t.array), x)
          rec.state((be, fn, s, src, dt))
  rec.validated(1)


def disturb(be, fn, lay, kw):
  """Other random calls that may happen between two seeded ones."""
  b = backend_factory.get_backend(be)
  other = "random_uniform" if fn == "randn" else "randn"
  def glob():
    np.random.rand(3)
    if be == "tensorflow":
      import tensorflow as tf
      tf.random.normal((2,))
  return [("unseeded same", lambda: getattr(b, fn)((2,), **kw)),
          ("unseeded other", lambda: getattr(b, other)((3,), **kw)),
          ("seeded other", lambda: getattr(b, other)((2, 2), seed=4, **kw)),
          ("global", glob)]


def m_seed(d, rec):
  be, dt, fn = d["be"], d["dt"], d["fn"]
  (_, f), = layers(be, fn, d["layer"])
  depth = 3 if d["th"] else 2
  kws = spellings(be, dt)
  for s in SHAPES if d["th"] else [(), (3,), (2, 3)]:
    acts = disturb(be, fn, d["layer"], kws[0])
    for seed in SEEDS:
      first = f(s, seed=seed, **kws[0])
      good_random(rec, f"{be}:{fn}:seeded", first, s, dt, many=False)
      for k in range(depth + 1):
        for hist in itertools.product(acts, repeat=k):
          for _, a in hist:
            a()
          for kw in kws if k < 2 else kws[:1]:
            again = f(s, seed=seed, **kw)
            rec.step()
            if again.tobytes() != first.tobytes():
              raise Violation(f"{be}:{d['layer']}:{fn}:seed",
                              f"seed {seed} shape {s} {kw} after {[n for n, _ in hist]}: "
                              f"{again.tolist()} != {first.tolist()}"[:700])
          rec.state((be, fn, d["layer"], s, seed, dt, tuple(n for n, _ in hist)))
    for a, b in itertools.combinations(SEEDS, 2):
      if np.array_equal(f(s, seed=a, **kws[0]), f(s, seed=b, **kws[0])):
        raise Violation(f"{be}:{fn}:different seeds", f"{a} {b} {s}")
    # a seeded call does not freeze the unseeded ones that follow
    f(s, seed=1, **kws[0])
    x = f(s, **kws[0])
    y = f(s, **kws[0])
    if np.array_equal(x, y):
      raise Violation(f"{be}:{fn}:frozen", str(s))
  rec.validated(1)


LEGS = {"U": [[(0,)], [(1,), (0,)], [(0,), (-1,), (1,)]],
        "2": [[(0,)], [(1,), (0,)], [(0,), (1,), (1,)]],
        "3": [[(0,)], [(2,), (1,)], [(1,), (0,), (2,)]],
        "4": [[(2,)], [(3,), (1,)]],
        "22": [[(0, 1)], [(1, 1), (0, 0)]],
        "U3": [[(0, 0)], [(1, 2), (-1, 1)]],
        "U2": [[(0, 0)], [(1, 1), (0, 0)], [(-1, 1), (1, 0), (0, 1)]]}


def m_symmetric(d, rec):
  sym, r = d["sym"], d["r"]
  b = backend_factory.get_backend("symmetric")
  for legs in itertools.product(LEGS[sym], repeat=r):
    for flows in itertools.product((False, True), repeat=r):
      idx = lambda: [bsx.index(sym, q, f) for q, f in zip(legs, flows)]
      mk = bsx.mask(sym, legs, flows)
      for dt in DTS + ("None",):
        for kw in ([{"dtype": getattr(np, dt)}, {"dtype": np.dtype(dt)}] if dt != "None"
                   else [{}, {"dtype": None}]):
          for fn, lo, hi in (("zeros", 0, 0), ("ones", 1, 1), ("randn", None, None),
                             ("random_uniform", 0, 1), ("random_uniform", 2, 3)):
            if fn == "random_uniform":
              t = b.random_uniform(idx(), boundaries=(float(lo), float(hi)), **kw)
            else:
              t = getattr(b, fn)(idx(), **kw)
            rec.step()
            what = f"symmetric:{fn}"
            if t.dtype != rdt(dt) or t.data.dtype != rdt(dt):
              raise Violation(what + ":dtype", f"{t.dtype} {dt}")
            m = bsx.Model(sym, list(legs), list(flows), [1] * r,
                          np.where(mk, {"zeros": 0, "ones": 1}.get(fn, 0), 0).astype(rdt(dt)))
            bad = bsx.compare(t, m, values=fn in ("zeros", "ones"))
            if bad or t.data.shape != (int(mk.sum()),):
              raise Violation(what, f"{sym} {legs} {flows}: {bad} {t.data.shape}")
            if fn.startswith("rand") and t.data.size:
              good_random(rec, what, t.data, t.data.shape, dt, lo, hi,
                          dt not in ("float32", "complex64"))
          for lo, hi in ((0.0, 1.0), (2.0, 3.0)):
            c = ChargeArray.random(idx(), boundaries=(lo, hi), **kw)
            rec.step()
            if c.data.shape != (int(mk.size),) or c.dtype != rdt(dt):
              raise Violation("ChargeArray.random:shape", f"{c.data.shape} {c.dtype}")
            good_random(rec, "ChargeArray.random", c.data, c.data.shape, dt, lo, hi,
                        dt not in ("float32", "complex64"))
      rec.state((sym, str(legs), flows))
  rec.validated(1)


def m_symseed(d, rec):
  sym, dt = d["sym"], d["dt"]
  b = backend_factory.get_backend("symmetric")
  kw = {} if dt == "None" else {"dtype": getattr(np, dt)}
  legs = LEGS[sym]
  idx = lambda: [bsx.index(sym, legs[2], False), bsx.index(sym, legs[2], True)]
  fns = {"randn": lambda **k: b.randn(idx(), **kw, **k).data,
         "random_uniform": lambda **k: b.random_uniform(idx(), **kw, **k).data,
         "tensor": lambda **k: li.randn(idx(), backend="symmetric", **kw, **k).array.data,
         "node": lambda **k: nl.random_uniform(idx(), backend="symmetric", **kw,
                                               **k).tensor.data}
  acts = [lambda: fns["randn"](), lambda: fns["random_uniform"](), lambda: np.random.rand(2),
          lambda: fns["randn"](seed=3)]
  for fn, f in fns.items():
    for seed in SEEDS:
      first = np.array(f(seed=seed))
      for k in range(4 if d["th"] else 3):
        for hist in itertools.product(acts, repeat=k):
          for a in hist:
            a()
          rec.step()
          rec.state((sym, dt, fn, seed, k, len(hist)))
          if np.array(f(seed=seed)).tobytes() != first.tobytes():
            raise Violation(f"symmetric:{fn}:seed", f"seed {seed}")
    for x, y in itertools.combinations(SEEDS, 2):
      if np.array_equal(f(seed=x), f(seed=y)):
        raise Violation(f"symmetric:{fn}:different seeds", f"{x} {y}")
    if np.array_equal(f(), f()):
      raise Violation(f"symmetric:{fn}:frozen", "")
  rec.validated(1)


def sector_eye(sym, col, cf, row, rf, dt):
  out = np.zeros((len(col), len(row)), dt)
  mk = bsx.mask(sym, [col, row], [cf, rf])
  for i, q in enumerate(col):
    k = sum(1 for x in col[:i] if tuple(x) == tuple(q))
    js = [j for j in range(len(row)) if mk[i, j]]
    if k < len(js):
      out[i, js[k]] = 1
  return out


def m_bseye(d, rec):
  sym = d["sym"]
  b = backend_factory.get_backend("symmetric")
  n = 3 if d["th"] else 2
  alph = bsx.words(sym, 1, 4)
  legs = [w for k in range(1, n + 2) for w in bsx.words(sym, k, 3)]
  if not d["th"]:
    legs = legs[:20]
  for col in legs:
    for cf in (False, True):
      for dt in ("float64", "complex128", "float32"):
        kw = {"dtype": getattr(np, dt)}
        for f in (bs.eye, b.eye):
          t = f(bsx.index(sym, col, cf), **kw)
          m = bsx.Model(sym, [col, col], [cf, not cf], [1, 1], np.eye(len(col), dtype=dt))
          bad = bsx.compare(t, m)
          rec.step()
          if bad or t.dtype != np.dtype(dt):
            raise Violation("symmetric:eye", f"{sym} {col} {cf}: {bad}")
      t = bs.eye(bsx.index(sym, col, cf))
      if t.dtype != np.float64:
        raise Violation("symmetric:eye:dtype", f"{t.dtype}")
      for row in legs:
        for rf in (False, True):
          t = b.eye(bsx.index(sym, col, cf), M=bsx.index(sym, row, rf))
          m = bsx.Model(sym, [col, row], [cf, rf], [1, 1],
                        sector_eye(sym, col, cf, row, rf, "float64"))
          bad = bsx.compare(t, m)
          rec.step()
          rec.state((sym, str(col), cf, str(row), rf))
          if bad:
            raise Violation("symmetric:eye M", f"{sym} {col} {cf} {row} {rf}: {bad}")
  # fused legs: the identity on the product space
  for q1, q2 in itertools.product(legs[:8], repeat=2):
    for f1, f2 in itertools.product((False, True), repeat=2):
      t0, _ = bsx.make(sym, [q1, q2, q1, q2], [f1, f2, not f1, not f2])
      ix = t0.reshape((len(q1) * len(q2), len(q1), len(q2))).sparse_shape[0]
      t = bs.eye(ix)
      rec.step()
      if not np.array_equal(t.todense(), np.eye(len(q1) * len(q2))):
        raise Violation("symmetric:eye fused", f"{sym} {q1} {q2} {f1} {f2}: {t.todense()}")
      # the identity acts trivially
      c = t0.reshape((len(q1) * len(q2), len(q1) * len(q2)))
      e = bs.eye(c.sparse_shape[0])
      x = bs.tensordot(bs.conj(e), c, ([0], [0])) if False else bs.tensordot(
          e, c, ([1], [0]))
      if not np.allclose(x.todense(), c.todense()):
        raise Violation("symmetric:eye action", f"{sym} {q1} {q2} {f1} {f2}")
  rec.validated(1)


def m_mps(d, rec):
  be, dt = d["be"], d["dt"]
  typ = type(backend_factory.get_backend(be).convert_to_tensor(np.ones(2)))
  tol = 1e-5 if dt in ("float32", "complex64") else 1e-10
  ds = [[2], [2, 3], [3, 2, 2], [1, 2, 3, 2]]
  small = be == "jax" and not d["th"]  # every new shape costs a compilation
  if small:
    ds = ds[:2] + [[3, 2, 2]]
  for pd in ds:
    for D in itertools.product((1, 3) if small else (1, 2, 3), repeat=len(pd) - 1):
      D = list(D)
      for can in (True, False, None):
        kw = {} if can is None else {"canonicalize": can}
        m = tn.FiniteMPS.random(list(pd), list(D), getattr(np, dt), backend=be, **kw)
        rec.step()
        rec.state((be, dt, tuple(pd), tuple(D), can))
        what = f"{be}:FiniteMPS.random"
        if m.backend.name != be or len(m) != len(pd) or len(m.tensors) != len(pd):
          raise Violation(what, f"{m.backend.name} {len(m)}")
        full = [1] + D + [1]
        for k, t in enumerate(m.tensors):
          if not isinstance(t, typ) or np.asarray(t).dtype != np.dtype(dt):
            raise Violation(what + ":type", f"{type(t)} {np.asarray(t).dtype}")
          s = tuple(np.asarray(t).shape)
          if can is False and s != (full[k], pd[k], full[k + 1]):
            raise Violation(what + ":shape", f"{s} at {k} for {pd} {D}")
          if s[1] != pd[k] or s[0] > full[k] or s[2] > full[k + 1]:
            raise Violation(what + ":shape", f"{s} at {k} for {pd} {D}")
          if k and s[0] != np.asarray(m.tensors[k - 1]).shape[2]:
            raise Violation(what + ":bonds", f"{pd} {D}")
        if [int(x) for x in m.physical_dimensions] != pd:
          raise Violation(what + ":physical", f"{m.physical_dimensions}")
        bd = [np.asarray(t).shape[0] for t in m.tensors] + [np.asarray(m.tensors[-1]).shape[2]]
        if [int(x) for x in m.bond_dimensions] != bd or bd[0] != 1 or bd[-1] != 1:
          raise Violation(what + ":bond dimensions", f"{m.bond_dimensions} {bd}")
        v = np.ones((1, 1))
        for t in m.tensors:
          v = np.tensordot(v, np.asarray(t), 1)
        if can is False:
          if m.center_position is not None:
            raise Violation(what + ":center", f"{m.center_position}")
        else:
          if m.center_position != 0 or abs(np.linalg.norm(v) - 1) > tol:
            raise Violation(what + ":normalized", f"{m.center_position} {np.linalg.norm(v)}")
        # reproducible from numpy's global state, a different state gives other data
        res = []
        for seed in (0, 0, 5):
          np.random.seed(seed)
          m = tn.FiniteMPS.random(list(pd), list(D), getattr(np, dt), backend=be, **kw)
          res.append(b"".join(np.asarray(t).tobytes() for t in m.tensors))
        if res[0] != res[1] or (res[0] == res[2] and np.prod(pd) > 1):
          raise Violation(what + ":seed", f"{pd} {D} {can}")
    for args in (([2, 2], [2, 2]), ([2, 2], [])):
      try:
        tn.FiniteMPS.random(args[0], args[1], np.float64, backend=be)
      except ValueError:
        rec.outcome("refused:mps")
        continue
      raise Violation(f"{be}:FiniteMPS.random:accepted", str(args))
    for D in itertools.product((1, 2, 3), repeat=len(pd)):
      D = list(D) + [D[0]]
      m = tn.InfiniteMPS.random(list(pd), list(D), getattr(np, dt), backend=be)
      rec.step()
      what = f"{be}:InfiniteMPS.random"
      if m.backend.name != be or m.center_position != 0 or len(m) != len(pd):
        raise Violation(what, f"{m.backend.name} {m.center_position}")
      for k, t in enumerate(m.tensors):
        a = np.asarray(t)
        if not isinstance(t, typ) or a.dtype != np.dtype(dt) or a.shape != (D[k], pd[k], D[k + 1]):
          raise Violation(what + ":tensor", f"{type(t)} {a.dtype} {a.shape} for {pd} {D}")
      if [int(x) for x in m.bond_dimensions] != D or [
          int(x) for x in m.physical_dimensions] != pd:
        raise Violation(what + ":dimensions", f"{m.bond_dimensions}")
    for D in ([2] * len(pd), [2] * len(pd) + [3]):
      try:
        tn.InfiniteMPS.random(list(pd), D, np.float64, backend=be)
      except ValueError:
        rec.outcome("refused:imps")
        continue
      raise Violation(f"{be}:InfiniteMPS.random:accepted", str(D))
  rec.validated(1)


def run_case(desc, rec):
  globals()["m_" + desc["m"]](desc, rec)
  rec.sample(str(desc))

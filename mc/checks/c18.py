"""C18: default-backend and node-collection contexts nest like a stack."""
import contextlib
import itertools
import numpy as np
import tensornetwork as tn
from tensornetwork import backend_contextmanager as bc
from tensornetwork import network_components as nc
from tensornetwork.backends import backend_factory
from tensornetwork.backends.numpy.numpy_backend import NumPyBackend

TITLE = "default-backend and node-collection contexts, explicit stack model"
LEVEL = "model_checking"
RULE = ("every sequence of events (enter a backend context given by name, by "
        "object or by an object already entered; enter a collection of either "
        "kind, also one already entered; leave the innermost context of either "
        "kind normally or by an exception; change the default; ask for something "
        "invalid) up to the stated length, from the empty state and from every "
        "stack of the listed nestings; after every event the whole state is "
        "probed through the public constructors and compared with a model made "
        "of two Python lists")
ASSUMPTIONS = ["contexts of one kind are left in the order opposite to entry (as 'with' does)"]
BOUNDS = {
    "quick": "all event sequences of length <=5 over 16 events; all constructors under every nesting of depth <=2",
    "thorough": "length <=6; constructors under every nesting of depth <=3",
}
BOUNDS["quick"] += "; context towers up to depth 40; jit call forms"


class FakeA(NumPyBackend):
  def __init__(self):
    super().__init__()
    self.name = "fake_a"


class FakeB(NumPyBackend):
  def __init__(self):
    super().__init__()
    self.name = "fake_b"


class Boom(Exception):
  pass


A, B = FakeA(), FakeB()
EVENTS = ["bn", "bA", "bB", "bX", "bE", "cl", "cs", "cX", "xb", "xc", "eb", "ec",
          "dA", "dn", "d!", "!"]
# bX / cX: one shared context object, entered again every time it occurs
# bE: the backend given as the plain name of an installed backend


def cases(tier):
  depth = 6 if tier == "thorough" else 5
  pre = 2 if tier == "quick" else 3
  for p in itertools.product(EVENTS, repeat=pre):
    if legal(p):
      yield {"prefix": list(p), "depth": depth - pre}
  for d in range(0, 4 if tier == "thorough" else 3):
    for st in itertools.product(["numpy", "jax", "tensorflow", "A", "obj:jax"], repeat=d):
      for dflt in ("numpy", "jax", "tensorflow"):
        yield {"stack": list(st), "default": dflt}


  for pat in itertools.product(["bn", "bA", "bX", "cl", "cX", "cs"], repeat=3):
    yield {"deep": list(pat), "times": 4 if tier == "quick" else 10}
  for name in ("numpy", "jax", "tensorflow", "symmetric", "A"):
    for mode in ("default", "context", "name", "object", "argnum"):
      yield {"jit": name, "mode": mode}


def deep(pat, times):
  """A tower of entries, taken down in every one of six ways, then another entry."""
  w = list(pat) * times
  kinds = [e[0] for e in w]
  for order in (kinds[::-1], sorted(kinds), sorted(kinds, reverse=True)):
    for how in ("x", "xe"):
      yield w + [how[i % len(how)] + k for i, k in enumerate(order)] + ["!", pat[0]]


def legal(p):
  b = c = 0
  for e in p:
    if e[0] == "b":
      b += 1
    elif e[0] == "c":
      c += 1
    elif e in ("xb", "eb"):
      b -= 1
    elif e in ("xc", "ec"):
      c -= 1
    if b < 0 or c < 0:
      return False
  return True


def words(prefix, depth):
  def rec(word, b, c, left):
    if not left:
      yield word
      return
    for e in EVENTS:
      db = 1 if e[0] == "b" else -1 if e in ("xb", "eb") else 0
      dc = 1 if e[0] == "c" else -1 if e in ("xc", "ec") else 0
      if b + db < 0 or c + dc < 0:
        continue
      yield from rec(word + [e], b + db, c + dc, left - 1)
  b = sum(e[0] == "b" for e in prefix) - sum(e in ("xb", "eb") for e in prefix)
  c = sum(e[0] == "c" for e in prefix) - sum(e in ("xc", "ec") for e in prefix)
  yield from rec(list(prefix), b, c, depth)


def resolve(x):
  return x if not isinstance(x, str) else backend_factory.get_backend(x)


class Run:
  """One history on the real contexts next to the model."""

  def __init__(self, default="numpy"):
    tn.set_default_backend(default)
    self.default = default
    self.bs, self.cs = [], []          # model: (ExitStack, backend) / (ExitStack, container)
    self.shared_b = tn.DefaultBackend(B)
    self.l2 = []
    self.shared_c = tn.NodeCollection(self.l2)
    self.model = []                    # (container, what it must hold)
    self.watch(self.l2)

  def watch(self, c):
    self.model.append((c, []))

  def expected(self):
    return resolve(self.bs[-1][1] if self.bs else self.default)

  def enter_b(self, cm, backend):
    es = contextlib.ExitStack()
    es.enter_context(cm)
    self.bs.append((es, backend))

  def enter_c(self, cm, cont):
    es = contextlib.ExitStack()
    es.enter_context(cm)
    self.cs.append((es, cont))

  @staticmethod
  def leave(es, exc):
    if not exc:
      es.close()
      return None
    try:
      with es:
        raise Boom()
    except Boom:
      return None
    return "an exception raised inside the context was swallowed"

  def event(self, e):
    if e == "bn":
      self.enter_b(tn.DefaultBackend("numpy"), "numpy")
    elif e == "bE":
      self.enter_b(tn.DefaultBackend("jax"), "jax")
    elif e == "bA":
      self.enter_b(tn.DefaultBackend(A), A)
    elif e == "bB":
      self.enter_b(tn.DefaultBackend(B), B)
    elif e == "bX":
      self.enter_b(self.shared_b, B)
    elif e == "cl":
      l = []
      self.watch(l)
      self.enter_c(tn.NodeCollection(l), l)
    elif e == "cs":
      s = set()
      self.watch(s)
      self.enter_c(tn.NodeCollection(s), s)
    elif e == "cX":
      self.enter_c(self.shared_c, self.l2)
    elif e in ("xb", "eb"):
      return self.leave(self.bs.pop()[0], e == "eb")
    elif e in ("xc", "ec"):
      return self.leave(self.cs.pop()[0], e == "ec")
    elif e in ("dA", "dn", "d!"):
      want = {"dA": A, "dn": "numpy", "d!": "no such backend"}[e]
      try:
        tn.set_default_backend(want)
      except AssertionError:
        return None if self.bs else "changing the default refused outside every context"
      except ValueError:
        return None if e == "d!" else "a valid default was refused"
      if self.bs:
        return "the default was changed inside a backend context"
      if e == "d!":
        return "an unknown default was accepted"
      self.default = want
    elif e == "!":
      for f, a in ((tn.DefaultBackend, 3), (tn.DefaultBackend, None),
                   (tn.NodeCollection, ()), (tn.NodeCollection, {})):
        try:
          f(a)
          return f"{f.__name__}({a!r}) accepted"
        except ValueError:
          pass
    return None

  def created(self, node):
    if self.cs:
      for c, m in self.model:
        if c is self.cs[-1][1]:
          m.append(node)

  def contents(self):
    for c, m in self.model:
      if isinstance(c, list):
        if len(c) != len(m) or any(x is not y for x, y in zip(c, m)):
          return f"a list collection holds {len(c)} nodes, expected {len(m)}"
      elif len(c) != len(m) or any(x not in c for x in m):
        return f"a set collection holds {len(c)} nodes, expected {len(m)}"
    return None

  def probe(self, full):
    want = self.expected()
    got = resolve(bc.get_default_backend())
    if got is not want:
      return f"default backend {got.name}, expected {want.name}"
    # the element handed to constructors, through the cheapest constructor
    if want.name in ("numpy", "fake_a", "fake_b") or full:
      n = tn.Node(DATA)
      self.created(n)
      if n.backend is not want:
        return f"new node has backend {n.backend.name}, expected {want.name}"
    n = tn.Node(DATA, backend=A)
    self.created(n)
    if n.backend is not A:
      return "explicit backend ignored by Node"
    c = tn.CopyNode(2, 2)
    self.created(c)
    if c.backend is not want:
      return f"new copy node has backend {c.backend.name}, expected {want.name}"
    return self.contents()

  def close(self):
    while self.bs:
      self.bs.pop()[0].close()
    while self.cs:
      self.cs.pop()[0].close()
    tn.set_default_backend("numpy")


DATA = np.ones((2,))


def run_case(desc, rec):
  if "jit" in desc:
    jit_forms(desc, rec)
    return
  if "prefix" in desc or "deep" in desc:
    for w in words(desc["prefix"], desc["depth"]) if "prefix" in desc else deep(desc["deep"], desc["times"]):
      r = Run()
      bad = None
      try:
        for k, e in enumerate(w):
          bad = r.event(e)
          # the state after the shared prefix was probed by an earlier word
          bad = bad or r.probe(k == len(w) - 1 or k % 5 == 4)
          rec.step()
          if bad:
            bad = f"after {w[:k + 1]}: {bad}"
            break
      except Exception as ex:  # pylint: disable=broad-except
        bad = f"{w}: {type(ex).__name__}: {ex}"
      rec.state()
      rec.outcome(w[-1])
      try:
        r.close()
        if not bad and bc.get_default_backend() != "numpy":
          bad = f"after leaving everything entered by {w}: default is {bc.get_default_backend()}"
        n = tn.Node(DATA)
        bad = bad or r.contents()
      except Exception as ex:  # pylint: disable=broad-except
        bad = bad or f"{w}, closing: {type(ex).__name__}: {ex}"
      if bad:
        rec.fail("stack:" + bad.split(": ", 1)[-1][:40], bad)
        return
      rec.validated()
    return
  constructors(desc, rec)


def constructors(desc, rec):
  obj = lambda s: A if s == "A" else backend_factory.get_backend(s[4:]) if s.startswith("obj:") else s
  want = resolve(obj((desc["stack"] or [desc["default"]])[-1]))
  tn.set_default_backend(desc["default"])
  outer, inner = [], []
  rec.state()
  try:
    with contextlib.ExitStack() as es:
      for s in desc["stack"]:
        es.enter_context(tn.DefaultBackend(obj(s)))
      es.enter_context(tn.NodeCollection(outer))
      es.enter_context(tn.NodeCollection(inner))
      for name, f in table().items():
        for explicit in (None, "numpy", "tensorflow", "jax", A):
          before = len(inner)
          kw = {} if explicit is None else {"backend": explicit}
          w = want if explicit is None else resolve(explicit)
          try:
            r = f(kw, w)
          except Exception as ex:  # pylint: disable=broad-except
            rec.fail(f"{name} crashed", f"{desc} {name}({kw}): {type(ex).__name__}: {ex}")
            continue
          rec.step()
          rec.outcome(name)
          got = r if isinstance(r, str) else getattr(r, "backend", None)
          if isinstance(r, str):
            if r != "ok":
              rec.fail(f"{name} backend", f"{desc} {name}({kw}): {r}")
              continue
          elif got is not w:
            rec.fail(f"{name} backend", f"{desc} {name}({kw}): {got and got.name}, expected {w.name}")
            continue
          if isinstance(r, nc.AbstractNode):
            if not any(x is r for x in inner[before:]):
              rec.fail(f"{name} collection", f"{desc} {name} not added to the innermost collection")
          rec.validated()
      if outer:
        rec.fail("outer collection", f"{desc}: {len(outer)} nodes in the outer collection")
    n = tn.Node(DATA)
    if any(n is x for x in inner + outer) or n.backend is not resolve(desc["default"]):
      rec.fail("after leaving", f"{desc}")
  finally:
    tn.set_default_backend("numpy")


KIND = {"numpy": np.ndarray, "fake_a": np.ndarray, "fake_b": np.ndarray}


def kind(x, w):
  """'ok' when x is an array of backend w."""
  if w.name in KIND:
    return "ok" if isinstance(x, (np.ndarray, np.generic)) else f"{type(x)}"
  return "ok" if w.name in type(x).__module__ or (w.name == "jax" and "jax" in type(x).__module__) \
      else f"{type(x)}"


def table():
  from tensornetwork.linalg import node_linalg as nl
  from tensornetwork.linalg import initialization as li
  from tensornetwork.matrixproductstates.finite_mps import FiniteMPS
  from tensornetwork.matrixproductstates.infinite_mps import InfiniteMPS
  from tensornetwork.matrixproductstates import mpo as m
  one = np.ones((2, 2))
  f32 = np.float32

  def dt(w):
    if w.name == "tensorflow":
      import tensorflow as tf
      return tf.float32
    return f32

  def array_of(r):
    return r

  def jitted(kw, w):
    seen = []
    f = tn.jit(lambda x: seen.append(type(x)) or x + 1, **kw)
    y = f(w.convert_to_tensor(np.ones((2,), dtype=np.float32)))
    traced = seen and "Tracer" in seen[0].__name__
    if bool(traced) != (w.name == "jax"):
      return f"jit of backend {w.name} traced: {traced}"
    return kind(y, w)

  def nodes_via(op):
    def f(kw, w):
      a, b = tn.Node(one, **kw), tn.Node(one, **kw)
      return op(a, b)
    return f

  def conn(a, b):
    a[0] ^ b[0]
    return tn.contract_between(a, b)

  def trace(a, b):
    return tn.contract(a[0] ^ a[1])

  t = {
      "Node": lambda kw, w: tn.Node(one, **kw),
      "CopyNode": lambda kw, w: tn.CopyNode(2, 2, **kw),
      "Tensor": lambda kw, w: tn.Tensor(w.convert_to_tensor(one), **kw),
      "ncon": lambda kw, w: kind(tn.ncon([one, one], [[-1, 1], [1, -2]], **kw), w),
      "ncon_tensor": lambda kw, w: tn.ncon(
          [tn.Tensor(w.convert_to_tensor(one), backend=w)] * 2, [[-1, 1], [1, -2]], **kw),
      "eye": lambda kw, w: tn.eye(2, dtype=dt(w), **kw),
      "zeros": lambda kw, w: tn.zeros((2,), dtype=dt(w), **kw),
      "ones": lambda kw, w: tn.ones((2,), dtype=dt(w), **kw),
      "randn": lambda kw, w: tn.randn((2,), dtype=f32, seed=1, **kw),
      "random_uniform": lambda kw, w: tn.random_uniform((2,), dtype=f32, seed=1, **kw),
      "ones_like": lambda kw, w: li.ones_like(one, **kw),
      "zeros_like": lambda kw, w: li.zeros_like(one, **kw),
      "nl.eye": lambda kw, w: nl.eye(2, dtype=dt(w), **kw),
      "nl.zeros": lambda kw, w: nl.zeros((2,), dtype=dt(w), **kw),
      "nl.ones": lambda kw, w: nl.ones((2,), dtype=dt(w), **kw),
      "nl.randn": lambda kw, w: nl.randn((2,), dtype=f32, seed=1, **kw),
      "nl.random_uniform": lambda kw, w: nl.random_uniform((2,), dtype=f32, seed=1, **kw),
      "FiniteMPS": lambda kw, w: FiniteMPS([np.ones((1, 2, 1))] * 2, canonicalize=False, **kw),
      "InfiniteMPS": lambda kw, w: InfiniteMPS([np.ones((1, 2, 1))], **kw),
      "FiniteMPO": lambda kw, w: m.FiniteMPO([np.ones((1, 1, 2, 2))] * 2, **kw),
      "jit": jitted,
      "contract_between": nodes_via(conn),
      "outer_product": nodes_via(tn.outer_product),
      "contract_trace": nodes_via(trace),
      "node.copy": nodes_via(lambda a, b: a.copy()),
      "split_left": nodes_via(lambda a, b: tn.split_node(a, [a[0]], [a[1]])[0]),
      "split_right": nodes_via(lambda a, b: tn.split_node(a, [a[0]], [a[1]])[1]),
      "conj": nodes_via(lambda a, b: nl.conj(a)),
  }
  return t


def jit_forms(desc, rec):
  """tn.jit in each of its forms: the function runs on the right backend, is
  traced by the backend that traces and by no other, sees its static arguments
  as they are, and gives the value of the undecorated function."""
  name, mode = desc["jit"], desc["mode"]
  obj = A if name == "A" else backend_factory.get_backend(name)
  spec = A if name == "A" else name
  traces = name == "jax"
  lib = "jax" if name == "jax" else "numpy"
  conv = (lambda x: backend_factory.get_backend("jax").convert_to_tensor(x)) if lib == "jax" else (lambda x: x)
  x0, y0 = np.arange(3.0), np.arange(3.0) + 5

  def make(nargs, pos):
    """A function of nargs arguments (+ the backend at pos): x, y, power, flag."""
    seen = []

    def fun(*args, **kw):
      """original documentation"""
      args = list(args)
      b = args.pop(pos) if pos is not None else None
      seen.append([type(a).__name__ for a in args] + [b])
      x, rest = args[0], args[1:]
      out = x * 2 + kw.get("shift", 0)
      for k, r in enumerate(rest):
        if isinstance(r, (bool, str)):
          out = out + (100 if r in (True, "yes") else 0)
        elif isinstance(r, int):
          for _ in range(r):
            out = out * 3
        else:
          out = out + (k + 1) * r
      return out
    return fun, seen

  def run(f, *args, **kw):
    if mode == "default":
      tn.set_default_backend(spec)
      try:
        return decorate(f, kw)(*args)
      finally:
        tn.set_default_backend("numpy")
    if mode == "context":
      with tn.DefaultBackend("numpy"):
        with tn.DefaultBackend(spec):
          return decorate(f, kw)(*args)
    return decorate(f, kw)(*args)

  def decorate(f, kw):
    if mode in ("name", "object"):
      kw["backend"] = spec if mode == "name" else obj
    g = tn.jit(f, **kw)
    if g.__name__ != f.__name__ or g.__doc__ != f.__doc__:
      rec.fail("jit: name", f"{desc}: {g.__name__}")
    return g

  arglists = [([x0], []), ([x0, y0], []), ([x0, 2], [1]), ([x0, 2, True], [1, 2]), ([x0, "yes", y0], [1]),
              ([x0, y0, 3], [2]), ([x0, False, y0, 1], [1, 3])]
  for args, static in arglists:
    poss = range(len(args) + 1) if mode == "argnum" else [None]
    for pos in poss:
      for form in ("tuple", "list", "int"):
        if form == "int" and len(static) != 1:
          continue
        call = [a if i in static else conv(a) for i, a in enumerate(args)]
        st = list(static)
        kw = {}
        if pos is not None:
          st = [i + (i >= pos) for i in st]
          kw["backend_argnum"] = pos
        if st or form == "tuple":
          kw["static_argnums"] = st[0] if form == "int" else tuple(st) if form == "tuple" else list(st)
        variants = [(spec, 0), (obj, 0), (obj, 1)] if pos is not None else [(None, 0)]
        for v, neg in variants:
          if neg:     # the same positions, counted from the end
            kw["backend_argnum"] = pos - len(args) - 1
            if form == "tuple" and len(st) > 1:
              kw["static_argnums"] = (st[0], st[1] - len(args) - 1)
          full = call[:pos] + [v] + call[pos:] if pos is not None else call
          rec.state()
          rec.step()
          fun, seen = make(len(args), pos)
          msg = f"{desc} args {[type(a).__name__ for a in args]} static {kw.get('static_argnums')} backend at {pos} ({type(v).__name__})"
          plain, _ = make(len(args), pos)
          want = np.asarray(plain(*full))
          try:
            got = run(fun, *full, **dict(kw))
          except Exception as ex:  # pylint: disable=broad-except
            rec.fail(f"jit raised: {type(ex).__name__}", f"{msg}: {ex}")
            continue
          if not np.array_equal(np.asarray(got), want):
            rec.fail("jit value", f"{msg}: {got}, expected {want}")
          if len(seen) != 1:
            rec.fail("jit: number of calls", f"{msg}: {len(seen)}")
            continue
          types, b = seen[0][:-1], seen[0][-1]
          if b is not v:
            rec.fail("jit: backend argument", f"{msg}: the function sees {b}")
          for i, (t, a) in enumerate(zip(types, args)):
            tr = "Tracer" in t
            if i in static and t != type(a).__name__:
              rec.fail("jit: static argument", f"{msg}: argument {i} arrives as {t}")
            if i not in static and tr != traces:
              rec.fail("jit: traced", f"{msg}: argument {i} arrives as {t}")
          rec.validated()
  # what must be refused
  for f in (lambda: tn.jit(lambda a, b: a, backend=spec, backend_argnum=1),
            lambda: tn.jit(lambda a, b: a, backend_argnum=1)(conv(x0), "no such backend"),
            lambda: tn.jit(lambda a, b: a, backend_argnum=0)("no such backend", conv(x0)),
            lambda: tn.jit(lambda a: a, backend="no such backend")(conv(x0))):
    rec.step()
    try:
      f()
      rec.fail("jit: bad backend accepted", f"{desc}")
    except ValueError:
      pass

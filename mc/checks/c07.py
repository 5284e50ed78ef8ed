"""C07: saving and loading a network restores the same network."""
import io
import itertools
import json
import os
import tempfile
import numpy as np
import tensornetwork as tn
from mc import netx, hashctl

TITLE = "round trips of networks through hdf5 files and JSON"
LEVEL = "model_checking"
RULE = ("every multigraph of the listed node ranks x node orders x set "
        "iteration orders x naming schemes x targets (path, binary stream, "
        "JSON), chains of up to 25 nodes, every dtype, every subset of nodes "
        "and every edge-binding kind for JSON; every single write of a save made to "
        "fail; the loaded network is compared "
        "with the live one by position, and the live one with itself before")
ASSUMPTIONS = ["files live in a scratch directory created by the check",
               "edge orientation (node1/node2) is not part of the network"]
BOUNDS = {
    "quick": "ranks (0),(1),(2),(3),(4),(0,1),(1,1),(2,1),(2,2),(3,2),(3,3),(2,2,1),(2,2,2); "
             "chains 1..25; backends numpy, jax, tensorflow",
    "thorough": "adds (4,2),(3,2,1),(3,2,2),(3,3,2),(2,2,2,2), chains to 120",
}
PROCS = 8
Q = [(0,), (1,), (2,), (3,), (4,), (0, 1), (1, 1), (2, 1), (2, 2), (3, 2), (3, 3),
     (2, 2, 1), (2, 2, 2)]
T = [(4, 2), (3, 2, 1), (3, 2, 2), (3, 3, 2), (2, 2, 2, 2)]
DTYPES = ["float16", "float32", "float64", "complex64", "complex128", "int8",
          "int32", "int64", "uint8", "bool"]


def cases(tier):
  th = tier == "thorough"
  for t in netx.topologies(Q + (T if th else []), ("a",)):
    yield {"top": dict(t, x=sum(t["r"]) % 2 == 1), "copy": False}
  for t in netx.topologies([(2,), (3,), (2, 2), (3, 1), (3, 2), (3, 3)], ("b",)):
    yield {"top": dict(t, copy=[0]), "copy": True}
  for n in list(range(1, 26)) + ([60, 99, 100, 101, 120] if th else []):
    for mode in ("asc", "desc"):
      for ring in (0, 1):
        yield {"chain": n, "mode": mode, "ring": ring}
  for d in DTYPES:
    yield {"dtype": d}
  for b in ("jax", "tensorflow"):
    yield {"backend": b}


def describe(nodes):
  """Everything a reader of the network can see, by position."""
  nid = {id(n): i for i, n in enumerate(nodes)}
  out = []
  for n in nodes:
    t = np.asarray(n.tensor)
    es = []
    for ax, e in enumerate(n.edges):
      ends = sorted((nid.get(id(m), -1), a) for m, a in
                    ((e.node1, e.axis1), (e.node2, e.axis2)) if m is not None)
      es.append((e.name, tuple(ends), e.is_dangling()))
    out.append((type(n).__name__, n.name, tuple(n.axis_names), tuple(n.shape),
                n.backend.name, str(t.dtype), t.tobytes(), tuple(es)))
  return out


FIELDS = ["type", "name", "axis names", "shape", "backend", "dtype", "tensor", "edges"]


def diff(a, b):
  if len(a) != len(b):
    return f"{len(b)} nodes instead of {len(a)}"
  for i, (x, y) in enumerate(zip(a, b)):
    for f, p, q in zip(FIELDS, x, y):
      if p != q:
        return f"{f} of node: node {i} {p!r} became {q!r}"[:300]
  return None


SCHEMES = ["plain", "dup", "odd", "default"]


def rename(nodes, scheme):
  w = netx.World(nodes)
  if scheme == "dup":
    for n in nodes:
      n.set_name("same")
    for e in w.edges():
      e.set_name("same")
  elif scheme == "odd":
    for k, n in enumerate(nodes):
      n.set_name(["node1", "a/b", "", "n\u00e9\u4e2d", "edge0"][k % 5])
      n.add_axis_names([["0", "x/y", "\u00fc", "edge1"][j % 4] + "'" * (j // 4)
                        for j in range(len(n.edges))])
    for k, e in enumerate(w.edges()):
      e.set_name(["edge2", "node0", "", "e/\u03b1", "edge0"][k % 5])


def roundtrip_file(nodes, target, tmp):
  if target == "path":
    path = os.path.join(tmp, "net.h5")
    tn.save_nodes(nodes, path)
    got = tn.load_nodes(path)
    os.remove(path)
    return got
  f = io.BytesIO()
  tn.save_nodes(nodes, f)
  f.seek(0)
  return tn.load_nodes(f)


def check_file(build, order, scheme, mode, target, tmp, rec, where, container=list):
  w = build(mode)
  nodes = [w.nodes[i] for i in order]
  rename(nodes, scheme)
  want = describe(nodes)
  full = netx.full_state(w)
  rec.step()
  rec.outcome(target)
  got = roundtrip_file(container(nodes), target, tmp)
  r = None
  if netx.full_state(w) != full:
    r = "saving changed the live network"
  r = r or diff(want, describe(got)) or netx.well_formed(netx.World(got), queries=False)
  if r:
    rec.fail(f"h5:{r.split(':')[0][:50]}", f"{where} order={order} names={scheme} "
             f"sets={mode} {target}: {r}")
  else:
    rec.validated()


def faults(build, n, tmp, rec, top):
  """Every write of the save fails once: the live network must not notice."""
  import h5py
  real = h5py.Group.create_dataset, h5py.Group.create_group, h5py.File.__init__
  count = [0, None]

  def wrap(f):
    def g(self, *a, **k):
      count[0] += 1
      if count[0] == count[1]:
        raise OSError("injected write failure")
      return f(self, *a, **k)
    return g

  def run(k):
    w = build("asc")
    full = netx.full_state(w)
    count[0], count[1] = 0, k
    h5py.Group.create_dataset = wrap(real[0])
    h5py.Group.create_group = wrap(real[1])
    h5py.File.__init__ = wrap(real[2])
    failed = False
    try:
      tn.save_nodes(list(w.nodes), os.path.join(tmp, "fault.h5"))
    except OSError:
      failed = True
    finally:
      h5py.Group.create_dataset, h5py.Group.create_group, h5py.File.__init__ = real
    rec.step()
    if netx.full_state(w) != full:
      rec.fail("h5:failed save changed the network", f"{top} write {k} fails")
    else:
      rec.validated()
    return failed
  k = 1
  while run(k):
    rec.outcome("fault")
    k += 1


def check_json(build, sub, scheme, mode, rec, where):
  w = build(mode)
  nodes = [w.nodes[i] for i in sub]
  rename(w.nodes, scheme)
  inside = {id(n) for n in nodes}
  # what a reader of the partial network must see
  nid = {id(n): i for i, n in enumerate(nodes)}
  want = []
  edges = []
  for n in nodes:
    t = np.asarray(n.tensor)
    es = []
    for ax, e in enumerate(n.edges):
      if e not in edges:
        edges.append(e)
      ends = sorted((nid[id(m)], a) for m, a in
                    ((e.node1, e.axis1), (e.node2, e.axis2))
                    if m is not None and id(m) in inside)
      es.append((e.name, tuple(ends), len(ends) == 1))
    want.append((type(n).__name__, n.name, tuple(n.axis_names), tuple(n.shape),
                 n.backend.name, str(t.dtype), t.tobytes(), tuple(es)))
  outside = [e for e in w.edges() if e not in edges]
  key = lambda e: frozenset((nid[id(m)], a) for m, a in
                            ((e.node1, e.axis1), (e.node2, e.axis2))
                            if m is not None and id(m) in inside)
  bindings = [None, {}]
  if edges:
    bindings.append({f"b{k}": e for k, e in enumerate(edges)})
    bindings.append({"all": list(edges)[::-1], "one": edges[:1], "tup": tuple(edges[-1:]),
                     "gen": (e for e in edges), "x": edges[-1]})
    bindings.append({"mix": list(edges) + outside, "out": list(outside)})
    if outside:
      bindings.append({"o": outside[0], "e": edges[0]})
  full = netx.full_state(w)
  for bi, b in enumerate(bindings):
    rec.step()
    rec.outcome("json")
    wb = {}
    for k, v in (b or {}).items():
      if k == "gen":
        v = list(edges)
      v = [v] if isinstance(v, tn.Edge) else list(v)
      v = tuple(key(e) for e in v if e in edges)
      if v:
        wb[k] = v
    s = tn.nodes_to_json(nodes, edge_binding=b) if b is not None else tn.nodes_to_json(nodes)
    json.loads(s)
    got, gb = tn.nodes_from_json(s)
    r = None
    if netx.full_state(w) != full:
      r = "serializing changed the live network"
    r = r or diff(want, describe(got)) or netx.well_formed(netx.World(got), queries=False)
    if r is None:
      gid = {id(n): i for i, n in enumerate(got)}
      k2 = lambda e: frozenset((gid[id(m)], a) for m, a in
                               ((e.node1, e.axis1), (e.node2, e.axis2)) if m is not None)
      gg = {k: tuple(k2(e) for e in v) for k, v in gb.items()}
      if gg != wb:
        r = f"edge bindings: {wb} became {gg}"
      elif any(not any(e is f for n in got for f in n.edges) for v in gb.values() for e in v):
        r = "bound edge is not an edge of the loaded network"
    if r:
      rec.fail(f"json:{r.split(':')[0][:50]}",
               f"{where} nodes={sub} names={scheme} sets={mode} binding={bi}: {r}")
    else:
      rec.validated()


def run_case(desc, rec):
  rec.state()
  with tempfile.TemporaryDirectory(prefix="mc_c07_") as tmp:
    _run(desc, rec, tmp)


def _run(desc, rec, tmp):
  if "chain" in desc:
    n = desc["chain"]

    def build(mode):
      hashctl.reset(mode)
      nodes = []
      for i in range(n):
        nodes.append(tn.Node(netx.data((2, 2, 3) if i % 4 == 0 else (2, 2), i), name=f"n{i}"))
      for i in range(n - 1):
        tn.connect(nodes[i][1], nodes[i + 1][0], name=f"bond{i}")
      if desc["ring"]:
        tn.connect(nodes[-1][1], nodes[0][0], name="close")
      return netx.World(nodes)
    for scheme in SCHEMES:
      check_file(build, range(n), scheme, desc["mode"], "stream", tmp, rec, str(desc))
      check_file(build, range(n)[::-1], scheme, desc["mode"], "path", tmp, rec, str(desc))
      check_json(build, list(range(n)), scheme, desc["mode"], rec, str(desc))
      check_json(build, list(range(n))[::2], scheme, desc["mode"], rec, str(desc))
    return
  if "dtype" in desc:
    for shape in [(), (1,), (3,), (2, 3), (2, 1, 2)]:
      def build(mode):
        hashctl.reset(mode)
        x = np.arange(int(np.prod(shape)) or 1).reshape(shape) % 7
        t = x.astype(desc["dtype"])
        if t.dtype.kind == "c":
          t = t * (1 - 2j)
        if t.dtype.kind == "f":
          t = (t - 3) / 3
        u = np.asfortranarray(t) if len(shape) > 1 else t[::-1].copy() if shape else t
        a, b = tn.Node(t.astype(desc["dtype"]), name="a"), tn.Node(
            np.asarray(u).astype(desc["dtype"], order="K"), name="b")
        if shape:
          tn.connect(a[0], b[0], name="e")
        return netx.World([a, b])
      check_file(build, [0, 1], "plain", "asc", "path", tmp, rec, f"{desc} {shape}")
      for sub in ([0, 1], [0], [1]):
        check_json(build, sub, "plain", "asc", rec, f"{desc} {shape}")
    return
  if "backend" in desc:
    for t in netx.topologies([(2,), (2, 2), (3, 1)], ("a",)):
      build = lambda mode: netx.build(t, backend=desc["backend"], mode=mode)
      n = len(t["r"])
      check_file(build, range(n), "plain", "asc", "path", tmp, rec, f"{desc} {t}")
      for k in range(1, n + 1):
        for sub in itertools.combinations(range(n), k):
          try:
            check_json(build, list(sub), "plain", "asc", rec, f"{desc} {t}")
          except NotImplementedError:  # JSON is offered by numpy alone
            rec.outcome("json refused")
    return
  top = desc["top"]
  n = len(top["r"])
  build = lambda mode: netx.build(top, mode=mode)
  for mode in ("asc", "desc"):
    for order in itertools.permutations(range(n)):
      for scheme in SCHEMES:
        for target in ("path", "stream"):
          check_file(build, order, scheme, mode, target, tmp, rec, str(top),
                     container=tuple if target == "stream" else list)
  for cont in (lambda x: (y for y in x), lambda x: {y: 0 for y in x}):
    check_file(build, range(n), "plain", "asc", "path", tmp, rec, str(top), container=cont)
  faults(build, n, tmp, rec, top)
  # a network connected to nodes that are not given is refused, untouched
  for k in range(1, n):
    for sub in itertools.combinations(range(n), k):
      w = build("asc")
      nodes = [w.nodes[i] for i in sub]
      if tn.reachable(nodes) == set(nodes):
        continue
      full = netx.full_state(w)
      rec.step()
      try:
        roundtrip_file(nodes, "stream", tmp)
        rec.fail("h5:partial accepted", f"{top} {sub}")
      except ValueError:
        if netx.full_state(w) != full:
          rec.fail("h5:refusal changed the network", f"{top} {sub}")
  if desc["copy"]:
    return
  for mode in ("asc", "desc"):
    for k in range(1, n + 1):
      for sub in itertools.permutations(range(n), k):
        for scheme in SCHEMES[:3]:
          check_json(build, list(sub), scheme, mode, rec, str(top))

"""C06: copies of networks are faithful, independent and fully mapped."""
import itertools
import numpy as np
import tensornetwork as tn
from mc import netx, hashctl

TITLE = "copies against an isomorphism and independence oracle"
LEVEL = "model_checking"
RULE = ("every multigraph of the listed node ranks (with and without copy "
        "tensors, complex data) x every nonempty subset of nodes x container "
        "kinds x conjugation x set iteration orders; the maps are compared "
        "with an isomorphism computed from the originals; then every legal "
        "graph operation (and rename) is run on the copy and on the original "
        "and the complete public state of the other side must not move")
ASSUMPTIONS = ["tensors are immutable values: copies may share array memory",
               "backend numpy"]
BOUNDS = {
    "quick": "ranks (0),(1),(2),(3),(4),(1,1),(2,1),(2,2),(3,1),(3,2),(3,3),"
             "(2,2,1),(2,2,2),(0,2); copy tensors in position 0 or 1",
    "thorough": "adds (4,2),(4,3),(3,2,1),(3,2,2),(3,3,2),(2,2,2,2) and "
                "histories of two operations before copying",
}
BOUNDS["quick"] += "; wide: the wide networks of C02"
Q = [(0,), (1,), (2,), (3,), (4,), (0, 2), (1, 1), (2, 1), (2, 2), (3, 1), (3, 2),
     (3, 3), (2, 2, 1), (2, 2, 2)]
T = [(4, 2), (4, 3), (3, 2, 1), (3, 2, 2), (3, 3, 2), (2, 2, 2, 2)]


def cases(tier):
  th = tier == "thorough"
  for k, t in enumerate(netx.wide_topologies()):
    yield {"top": dict(t, x=True), "mode": ("desc", "asc")[k % 2], "mutate": th or k % 3 == 0, "wide": 1}
  for t in netx.topologies(Q + (T if th else []), ("a",)):
    for mode in ("asc", "desc"):
      yield {"top": dict(t, x=True), "mode": mode,
             "mutate": mode == "asc" and sum(t["r"]) <= (7 if th else 5)}
  for t in netx.topologies([(2,), (3,), (4,), (2, 2), (3, 2), (3, 3), (2, 3, 1)], ("b",)):
    for dt in ("float32", "complex128", "int64"):
      yield {"top": dict(t, copy=[0]), "lazy": dt}
    for cp in ([0], [1], [0, 1]):
      if max(cp) < len(t["r"]):
        yield {"top": dict(t, copy=cp), "mode": "desc",
               "mutate": sum(t["r"]) <= (6 if th else 4)}


CONTAINERS = [("list", list), ("reversed", lambda x: list(x)[::-1]), ("set", set),
              ("tuple", tuple), ("generator", lambda x: (n for n in x)),
              ("dict", lambda x: {n: 0 for n in x})]


def check_copy(orig, node_dict, edge_dict, conj):
  """orig: list of copied nodes (live)."""
  if set(map(id, node_dict)) != set(map(id, orig)):
    return "node map does not cover exactly the given nodes"
  sub = {id(n) for n in orig}
  edges = []
  for n in orig:
    for e in n.edges:
      if e not in edges:
        edges.append(e)
  if set(map(id, edge_dict)) != set(map(id, edges)):
    return "edge map does not cover exactly the edges of the given nodes"
  copies = [node_dict[n] for n in orig]
  if len({id(c) for c in copies}) != len(orig):
    return "two nodes share one copy"
  if {id(c) for c in copies} & sub:
    return "copy is the original"
  if len({id(edge_dict[e]) for e in edges}) != len(edges):
    return "two edges share one copy"
  for n in orig:
    c = node_dict[n]
    if type(c) is not type(n):
      return f"copy of a {type(n).__name__} is a {type(c).__name__}"
    if c.name != n.name:
      return f"name {c.name!r} for {n.name!r}"
    if list(c.axis_names) != list(n.axis_names):
      return f"axis names {c.axis_names} for {n.axis_names}"
    if n.axis_names and c.axis_names is n.axis_names:
      return "copy shares the axis-name list"
    if c.edges is n.edges:
      return "copy shares the edge list"
    if tuple(c.shape) != tuple(n.shape) or c.backend.name != n.backend.name:
      return "shape or backend"
    a, b = np.asarray(n.tensor), np.asarray(c.tensor)
    if a.dtype != b.dtype or not np.array_equal(a.conj() if conj else a, b):
      return "tensor of the copy"
    if len(c.edges) != len(n.edges):
      return "rank"
    for ax, e in enumerate(n.edges):
      if edge_dict[e] is not c.edges[ax]:
        return f"edge map disagrees with axis {ax} of {n.name}"
  for e in edges:
    f = edge_dict[e]
    if f.name != e.name:
      return f"edge name {f.name!r} for {e.name!r}"
    want = sorted((id(node_dict[n]), a) for n, a in
                  ((e.node1, e.axis1), (e.node2, e.axis2))
                  if n is not None and id(n) in sub)
    got = sorted((id(n), a) for n, a in ((f.node1, f.axis1), (f.node2, f.axis2))
                 if n is not None)
    if want != got:
      return f"endpoints of the copy of edge {e.name}"
  return netx.well_formed(netx.World(copies), queries=True)


def renames(world):
  for i, n in enumerate(world.nodes):
    yield f"set_name {i}", lambda w, i=i: w.nodes[i].set_name("other")
    yield f"set_tensor {i}", lambda w, i=i: setattr(
        w.nodes[i], "tensor", np.asarray(w.nodes[i].tensor) * 2) if not isinstance(
            w.nodes[i], tn.CopyNode) else None
    if n.axis_names:
      yield f"axis_names {i}", lambda w, i=i: w.nodes[i].add_axis_names(
          [f"q{k}" for k in range(len(w.nodes[i].edges))])
      yield f"axis_names inplace {i}", lambda w, i=i: w.nodes[i].axis_names.__setitem__(0, "zz")
    for a in range(len(n.edges)):
      yield f"edge name {i} {a}", lambda w, i=i, a=a: w.nodes[i].edges[a].set_name("other")
      yield f"add_edge {i} {a}", lambda w, i=i, a=a: w.nodes[i].add_edge(
          tn.Edge(w.nodes[i], a), a, override=True)
    yield f"fresh {i}", lambda w, i=i: w.nodes[i].fresh_edges()


def run_case(desc, rec):
  if "lazy" in desc:
    return lazy(desc, rec)
  top, mode = desc["top"], desc["mode"]
  build = lambda: netx.build(top, mode=mode)
  w = build()
  N = len(w.nodes)
  rec.state()

  def bad(kind, text, msg):
    rec.fail(f"{kind}:{text[:40]}", f"{top} {mode} {msg}: {text}")

  for conj in (False, True):
    for k in range(1, N + 1):
      subs = itertools.combinations(range(N), k)
      if desc.get("wide") and N > 5:
        subs = sorted({tuple(sorted((s + i * d) % N for i in range(k))) for s, d in (
            (0, 1), (N - k, 1), (1, 1)) + (((0, 2),) if 2 * k <= N else ())})
      for sub in subs:
        for cname, c in CONTAINERS:
          w = build()
          full = netx.full_state(w)
          arg = c([w.nodes[i] for i in sub])
          rec.step()
          rec.outcome(cname)
          nd, ed = tn.copy(arg, conjugate=conj)
          r = check_copy([w.nodes[i] for i in sub], nd, ed, conj)
          if r is None and netx.full_state(w) != full:
            r = "copying changed the original"
          if r:
            bad(f"copy:{cname}", r, f"copy of {sub} as {cname} conj={conj}")
            continue
          # tn.replicate_nodes
          w = build()
          full = netx.full_state(w)
          org = [w.nodes[i] for i in sub]
          arg = c(org)
          seq = list(arg) if cname != "generator" else org
          got = tn.replicate_nodes(arg, conjugate=conj)
          if len(got) != len(seq):
            bad(f"replicate:{cname}", "length", f"replicate of {sub}")
            continue
          ed = {}
          for n, m in zip(seq, got):
            for e, f in zip(n.edges, m.edges):
              if ed.setdefault(e, f) is not f:
                bad("replicate", "connectivity", f"replicate of {sub} as {cname}")
          r = check_copy(org, dict(zip(seq, got)), ed, conj)
          if r is None and netx.full_state(w) != full:
            r = "replicating changed the original"
          if r:
            bad(f"replicate:{cname}", r, f"replicate of {sub} as {cname} conj={conj}")
          rec.validated()
    for i in range(N):
      w = build()
      full = netx.full_state(w)
      n = w.nodes[i]
      m = n.copy(conj)
      rec.step()
      if netx.full_state(w) != full:
        bad("Node.copy", "changed the original", f"node {i}")
      ed = {}
      r = None
      for e, f in zip(n.edges, m.edges):
        if ed.setdefault(e, f) is not f:
          r = "trace edge copied as two edges"
      r = r or check_copy([n], {n: m}, ed, conj)
      if r:
        bad("Node.copy", r, f"node {i} conj={conj}")
      rec.validated()
  if desc["mutate"]:
    mutate(desc, rec, build, bad)
  density(desc, rec, build, bad)


def lazy(desc, rec):
  """Copy tensors of every number type that were never looked at before."""
  top, dt = desc["top"], np.dtype(desc["lazy"])
  rec.state()

  def build():
    w = netx.build(dict(top, copy=[]))
    c = tn.CopyNode(top["r"][0], w.nodes[0].shape[0], name="N0", axis_names=list(
        w.nodes[0].axis_names), backend="numpy", dtype=dt.type)
    for a, e in enumerate(w.nodes[0].edges):
      e.update_axis(a, w.nodes[0], a, c)
      c.add_edge(e, a, override=True)
    return netx.World([c] + w.nodes[1:])
  if len({s for s in netx.build(dict(top, copy=[])).nodes[0].shape}) != 1:
    return
  ways = {
      "copy": lambda w: (lambda d: [d[n] for n in w.nodes])(tn.copy(w.nodes)[0]),
      "copy set": lambda w: (lambda d: [d[n] for n in w.nodes])(tn.copy(set(w.nodes))[0]),
      "copy conj": lambda w: (lambda d: [d[n] for n in w.nodes])(tn.copy(w.nodes, True)[0]),
      "replicate": lambda w: tn.replicate_nodes(w.nodes),
      "replicate conj": lambda w: tn.replicate_nodes(w.nodes, conjugate=True),
      "Node.copy": lambda w: [w.nodes[0].copy()],
      "Node.copy conj": lambda w: [w.nodes[0].copy(True)],
      "twice": lambda w: tn.replicate_nodes(tn.replicate_nodes(w.nodes)),
  }
  for name, way in ways.items():
    for first in ("copy", "original"):
      w = build()
      c = w.nodes[0]
      want = np.zeros(c.shape, dt)
      for i in range(c.shape[0]):
        want[(i,) * len(c.shape)] = 1
      m = way(w)[0]
      rec.step()
      rec.outcome(name)
      for n in ((m, c) if first == "copy" else (c, m)):
        what = "copy" if n is m else "original"
        got = np.dtype(n.dtype)
        arr = np.asarray(n.tensor)
        if type(n) is not tn.CopyNode or got != dt or arr.dtype != dt or np.dtype(
            n.dtype) != dt or not np.array_equal(arr, want):
          rec.fail(f"lazy copy tensor:{what}", f"{top} {dt} {name}: the {what} has number type "
                   f"{got}, tensor {arr.dtype}\n{arr}")
      rec.validated()


def mutate(desc, rec, build, bad):
  """Independence: run every operation on one side, compare the other."""
  def pair():
    w = build()
    nd, _ = tn.copy(w.nodes)
    return w, netx.World([nd[n] for n in w.nodes])
  w, v = pair()
  ops = netx.enabled_wide(w) if desc.get("wide") else netx.enabled(w, rich=True)
  for side in (0, 1):
    for op in ops:
      p = pair()
      before = netx.full_state(p[1 - side])
      keep = p[1 - side].edges()
      rec.step()
      netx.apply(p[side], op)
      if netx.full_state(p[1 - side]) != before:
        bad("independent", op[0], f"operation {op} on {'copy' if side else 'original'}")
      rec.validated()
    for k, (name, _) in enumerate(list(renames(w))):
      p = pair()
      before = netx.full_state(p[1 - side])
      keep = p[1 - side].edges()
      rec.step()
      list(renames(p[side]))[k][1](p[side])
      if netx.full_state(p[1 - side]) != before:
        bad("independent", name.split()[0], f"{name} on {'copy' if side else 'original'}")
      rec.validated()


def density(desc, rec, build, bad):
  w = build()
  if not w.nodes or len(tn.reachable(w.nodes[0])) != len(w.nodes):
    return
  total = len(netx.Snap(w).dangling())
  if not 1 <= total <= 4:
    return
  for k in range(1, total + 1):
    for sub in itertools.permutations(range(total), k) if k <= 2 else itertools.combinations(
        range(total), k):
      for cname, c in (("list", list), ("set", set), ("generator", lambda x: (y for y in x))):
        w = build()
        pre = netx.Snap(w)
        dang = pre.dangling()
        psi = netx.value(pre.terms, dang)
        byid = {id(e): e for e in pre.keep}
        es = [byid[dang[i]] for i in sub]
        rec.step()
        nd, ed = tn.reduced_density(c(es))
        if set(map(id, nd)) != {id(n) for n in w.nodes}:
          bad("reduced", "node map", f"{sub} {cname}")
          continue
        both = netx.World(w.nodes + [nd[n] for n in w.nodes])
        r = netx.well_formed(both, queries=False)
        if r:
          bad("reduced", r, f"{sub} {cname}")
          continue
        if set(map(id, ed)) != set(map(id, pre.keep)):
          bad("reduced", "edge map does not cover the edges", f"{sub} {cname}")
          continue
        rest = [i for i in range(total) if i not in sub]
        rho = np.einsum(psi, [i for i in range(total)], psi.conj(),
                        [i if i in sub else i + total for i in range(total)],
                        rest + [i + total for i in rest])
        post = netx.Snap(both)
        out = [dang[i] for i in rest] + [id(ed[byid[dang[i]]]) for i in rest]
        if set(post.dangling()) != set(out):
          bad("reduced", "dangling edges of the result", f"{sub} {cname}")
          continue
        for i in sub:
          f = ed[byid[dang[i]]]
          if f.is_dangling() or {id(f.node1), id(f.node2)} & {
              id(n) for n in w.nodes} == set():
            bad("reduced", "edge map of a traced edge", f"{sub} {cname}")
        if not netx.same(rho, netx.value(post.terms, out)):
          bad("reduced", "value", f"{sub} {cname}")
        rec.validated()

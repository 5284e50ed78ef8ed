"""C21: a refused operation leaves the network exactly as it was."""
import itertools
import numpy as np
import tensornetwork as tn
from tensornetwork import network_components as nc
from mc import netx
from mc.checks import c02

TITLE = "failure atomicity of graph operations"
LEVEL = "model_checking"
RULE = ("in every state reached by the histories of C01/C02 every illegal call "
        "of the alphabet is attempted; it must raise and the complete public "
        "state (object identities, names, axes, endpoints, tensor bytes) must "
        "be unchanged; afterwards the network is contracted and compared")
ASSUMPTIONS = ["an illegal call is one the documentation says is refused or "
               "that has no meaning (foreign edges, incomplete orders)"]
BOUNDS = {
    "quick": "states at depth <= 1 for ranks (2),(3),(4),(2,2),(3,2),(2,1,1),(3,1),"
             "(4,1),(2,2,1),(1,1,1); depth 0 for (3,3),(2,2,2),(4,2),(3,2,1),(5),(5,1),"
             "(4,3),(3,3,1)",
    "thorough": "depth <= 2 on (2),(3),(2,2),(2,1,1); depth <= 1 on (3,2),(3,3),(2,2,2),(4,2)",
}
BOUNDS["quick"] += "; every illegal ordering (missing, repeated or foreign edge) of up to 4 edges"


def plan(tier):
  if tier == "quick":
    yield from ((t, 1) for t in netx.topologies([(2,), (3,), (2, 2), (3, 1), (2, 1, 1), (3, 2),
                                                 (4,), (1, 1, 1), (2, 2, 1), (4, 1)], ("a",)))
    yield from ((t, 0) for t in netx.topologies([(3, 3), (2, 2, 2), (4, 2), (3, 2, 1), (5,), (5, 1),
                                                 (4, 3), (3, 3, 1)], ("a", "b")))
    for t in netx.topologies([(2, 2), (3, 1)], ("b",)):
      t["copy"] = [0]
      yield t, 1
  else:
    yield from ((t, 2) for t in netx.topologies([(2,), (3,), (2, 2), (2, 1, 1)], ("a",)))
    yield from ((t, 1) for t in netx.topologies([(3, 2), (3, 3), (2, 2, 2), (4, 2)], ("a", "b")))
    for t in netx.topologies([(2, 2), (3, 1), (3, 2), (2, 2, 1)], ("b",)):
      t["copy"] = [0]
      yield t, 2 if sum(t["r"]) < 5 else 1


def cases(tier):
  for t, d in plan(tier):
    yield {"top": t, "depth": d}


def illegal(w, foreign):
  """Yields (name, thunk) of every illegal call in this state."""
  ns = w.nodes
  edges = w.edges()
  dang = [e for e in edges if e.is_dangling()]
  nond = [e for e in edges if not e.is_dangling()]
  fe = foreign.edges[0]
  retired = nc.Edge(foreign, 0, "old")
  retired.disable()
  L = lambda *a: a
  for e in nond:
    for f in edges:
      yield "connect-nondangling", lambda e=e, f=f: tn.connect(e, f)
      if f is not e:
        yield "connect-nondangling2", lambda e=e, f=f: tn.connect(f, e)
  for e in dang:
    yield "connect-self", lambda e=e: tn.connect(e, e)
    yield "connect-self-xor", lambda e=e: e ^ e
    yield "connect-retired", lambda e=e: tn.connect(e, retired)
    yield "connect-retired2", lambda e=e: tn.connect(retired, e)
    yield "connect-badname", lambda e=e: tn.connect(e, fe2(e, foreign), name=5)
    for f in dang:
      if f.dimension != e.dimension:
        yield "connect-dim", lambda e=e, f=f: tn.connect(e, f)
        yield "connect-dim-xor", lambda e=e, f=f: e ^ f
    yield "disconnect-dangling", lambda e=e: tn.disconnect(e)
    yield "contract-dangling", lambda e=e: tn.contract(e)
    yield "contract_parallel-dangling", lambda e=e: tn.contract_parallel(e)
  for e in nond:
    for f in edges:
      if f is not e:
        yield "break-unconnected", lambda e=e, f=f: e | f
    yield "disconnect-badname", lambda e=e: tn.disconnect(e, "x", 7)
    yield "disconnect-badname1", lambda e=e: tn.disconnect(e, 7, "x")
    yield "contract-badname", lambda e=e: tn.contract(e, name=7)
    if e.node1 is not e.node2:
      yield "contract-axisnames", lambda e=e: tn.contract(
          e, axis_names=["q"] * (e.node1.get_rank() + e.node2.get_rank() + 1))
    yield "reduced_density-nondangling", lambda e=e: tn.reduced_density(
        [x for x in dang[:1]] + [e])
  for i, a in enumerate(ns):
    for j, b in enumerate(ns):
      sh = [e for e in a.edges if not e.is_dangling() and
            {id(x) for x in e.get_nodes()} == {id(a), id(b)}]
      if not sh:
        yield "between-unshared", lambda a=a, b=b: tn.contract_between(a, b)
        yield "matmul-unshared", lambda a=a, b=b: a @ b
      if a is b:
        if a.get_rank() == 0:
          continue
        yield "outer-self", lambda a=a: tn.outer_product(a, a)
        continue
      shid = {id(e) for e in sh}
      free = []
      for e in list(a.edges) + list(b.edges):
        if id(e) not in shid and e not in free:
          free.append(e)
      B = lambda a=a, b=b, **k: tn.contract_between(
          a, b, allow_outer_product=True, **k)
      yield "between-badname", lambda B=B: B(name=5)
      rank = len([e for e in list(a.edges) + list(b.edges) if id(e) not in shid])
      yield "between-axisnames-long", lambda B=B, rank=rank: B(axis_names=[f"z{k}" for k in range(rank + 1)])
      if rank >= 2:
        yield "between-axisnames-dup", lambda B=B, rank=rank: B(axis_names=["z"] * rank)
        yield "outer-axisnames-dup", lambda a=a, b=b: tn.outer_product(
            a, b, axis_names=["z"] * (a.get_rank() + b.get_rank()))
      if rank >= 1:
        yield "between-axisnames-type", lambda B=B, rank=rank: B(axis_names=list(range(rank)))
      yield "outer-badname", lambda a=a, b=b: tn.outer_product(a, b, name=3)
      for k in range(len(free)):
        less = free[:k] + free[k + 1:]
        if less:
          yield "between-order-missing", lambda B=B, less=less: B(output_edge_order=less)
        yield "between-order-dup", lambda B=B, k=k, free=free: B(
            output_edge_order=free + [free[k]])
        yield "between-order-replace", lambda B=B, k=k, free=free: B(
            output_edge_order=free[:k] + [fe] + free[k + 1:])
      for e in sh:
        yield "between-order-shared", lambda B=B, e=e, free=free: B(output_edge_order=free + [e])
      yield "between-order-foreign", lambda B=B, free=free: B(output_edge_order=free + [fe])
      yield "outer_final-order", lambda: nc.outer_product_final_nodes(ns, dang + [fe])
      if len(dang) > 1:
        yield "outer_final-missing", lambda: nc.outer_product_final_nodes(ns, dang[1:])
  if nond:
    yield "outer_final-nondangling", lambda: nc.outer_product_final_nodes(ns, dang)
    yield "outer_final-nondangling2", lambda: nc.outer_product_final_nodes(ns[::-1], dang)
  yield "flatten-empty", lambda: tn.flatten_edges([])
  for e, f in itertools.permutations(edges, 2):
    if {id(x) for x in e.get_nodes()} != {id(x) for x in f.get_nodes()}:
      yield "flatten-mixed", lambda e=e, f=f: tn.flatten_edges([e, f])
  for e in edges:
    yield "flatten-dup", lambda e=e: tn.flatten_edges([e, e])
    yield "flatten-foreign", lambda e=e: tn.flatten_edges([e, fe])
    yield "flatten-retired", lambda e=e: tn.flatten_edges([e, retired])
    d = e.dimension
    for sh in [(d + 1,), (d, 2), (2, d), (d, 0), (1, d + 1), (-1, d), (d, -1), (-1, -d)]:
      if int(np.prod(sh)) == d and min(sh) > 0:
        continue
      yield f"split_edge-shape", lambda e=e, sh=sh: tn.split_edge(e, sh)
    if not any(isinstance(n, tn.CopyNode) for n in e.get_nodes()):
      yield "split_edge-names", lambda e=e, d=d: tn.split_edge(e, (1, d), new_edge_names=["only"])
      yield "split_edge-nametype", lambda e=e, d=d: tn.split_edge(e, (1, d), new_edge_names=[1, 2])
    for s, l in [(0, 0), (0, -1), (0, d + 1), (1, d), (d, 1), (-1, 2), (-1, d + 1),
                 (-1, 1), (-2, 1), (-d - 1, 1), (-d, d)]:
      if s + l > d or l <= 0 or -l < s < 0:
        yield "slice-range", lambda e=e, s=s, l=l: tn.slice_edge(e, s, l)
    yield "edge-name", lambda e=e: e.set_name(5)
    yield "edge-name2", lambda e=e: setattr(e, "name", None)
  for i, n in enumerate(ns):
    r = len(n.edges)
    es = list(n.edges)
    uniq = [e for k, e in enumerate(es) if e not in es[:k]]
    tr = len(uniq) != len(es)
    if tr:
      yield "reorder_edges-trace", lambda n=n, es=es: n.reorder_edges(es)
      yield "reorder_edges-trace2", lambda n=n, u=uniq: n.reorder_edges(u[::-1])
    else:
      for k in range(r):
        yield "reorder_edges-missing", lambda n=n, o=es[:k] + es[k + 1:]: n.reorder_edges(o)
        yield "reorder_edges-dup", lambda n=n, o=es[::-1] + [es[k]]: n.reorder_edges(o)
        yield "reorder_edges-dup2", lambda n=n, o=[es[k]] + es[::-1]: n.reorder_edges(o)
        if r > 1:
          yield "reorder_edges-replace", lambda n=n, o=es[:k] + [es[(k + 1) % r]] + es[k + 1:]: n.reorder_edges(o)
    # every sequence of edges that is not one complete order
    if tr:
      for q in itertools.islice(itertools.permutations(uniq), 24):
        q = list(q)
        yield "reorder_edges-trace3", lambda n=n, q=q: n.reorder_edges(q)
        yield "reorder_edges-trace4", lambda n=n, q=q: n.reorder_edges(
            q + [e for e in uniq if es.count(e) == 2])
        yield "reorder_edges-trace5", lambda n=n, q=q: n.reorder_edges(q[1:])
    elif r <= 3:
      for m in range(r + 2):
        for q in itertools.product(es + [fe], repeat=m):
          if len({id(e) for e in q} - {id(fe)}) == r == m:
            continue
          yield "reorder_edges-any", lambda n=n, q=list(q): n.reorder_edges(q)
    if r <= 3:
      for m in range(r + 2):
        for q in itertools.product(range(r + 1), repeat=m):
          if sorted(q) != list(range(r)):
            yield "reorder_axes-any", lambda n=n, q=list(q): n.reorder_axes(q)
    yield "reorder_edges-foreign", lambda n=n, es=es: n.reorder_edges(es + [fe])
    for p in [list(range(r + 1)), list(range(r)) + [0] if r else [0], list(range(r - 1)) if r > 1 else [1],
              [0] * r if r > 1 else [2], list(range(1, r + 1)), [-x - 2 for x in range(r)] or [3]]:
      if sorted(p) == list(range(r)):
        continue
      yield "reorder_axes-bad", lambda n=n, p=p: n.reorder_axes(p)
    yield "axis-name", lambda n=n: n["no such axis"]
    yield "axis-number", lambda n=n: n.get_axis_number("no such axis")
    yield "get_dimension", lambda n=n, r=r: n.get_dimension(r)
    yield "add_axis_names-len", lambda n=n, r=r: n.add_axis_names([f"w{k}" for k in range(r + 1)])
    if r > 1:
      yield "add_axis_names-dup", lambda n=n, r=r: n.add_axis_names(["w"] * r)
    if r:
      yield "add_axis_names-type", lambda n=n, r=r: n.add_axis_names(list(range(r)))
      yield "axis_names-type", lambda n=n, r=r: setattr(n, "axis_names", list(range(r)))
    yield "axis_names-len", lambda n=n, r=r: setattr(n, "axis_names", ["w"] * (r + 1))
    yield "set_name", lambda n=n: n.set_name(5)
    yield "set_name2", lambda n=n: setattr(n, "name", None)
    yield "add_edge-range", lambda n=n, r=r: n.add_edge(retired, r)
    yield "add_edge-range2", lambda n=n: n.add_edge(retired, -1)
    for a, e in enumerate(es):
      if not e.is_dangling():
        yield "add_edge-occupied", lambda n=n, a=a: n.add_edge(fe, a)
    yield "redirect-foreign", lambda n=n: tn.redirect_edge(fe, n, n)
    for e in nond:
      if n not in e.get_nodes():
        yield "redirect-wrong", lambda n=n, e=e: tn.redirect_edge(e, foreign, n)
    if r >= 1 and not tr:
      for kind, f in (("svd", tn.split_node), ("qr", tn.split_node_qr),
                      ("rq", tn.split_node_rq), ("full", tn.split_node_full_svd)):
        if r >= 2:
          yield f"split_{kind}-missing", lambda n=n, es=es, f=f: f(n, es[:1], es[2:])
          yield f"split_{kind}-dup", lambda n=n, es=es, f=f: f(n, es[:1], es)
          yield f"split_{kind}-foreign", lambda n=n, es=es, f=f: f(n, es[:1], es[1:-1] + [fe])
          yield f"split_{kind}-leftname", lambda n=n, es=es, f=f: f(n, es[:1], es[1:], left_name=3)
          yield f"split_{kind}-rightname", lambda n=n, es=es, f=f: f(n, es[:1], es[1:], right_name=3)
          if kind != "full":
            yield f"split_{kind}-edgename", lambda n=n, es=es, f=f: f(n, es[:1], es[1:], edge_name=3)
            yield f"split_{kind}-edgeclash", lambda n=n, es=es, f=f: f(n, es[:1], es[1:], edge_name=n.axis_names[-1])
            yield f"split_{kind}-edgeclash2", lambda n=n, es=es, f=f: f(n, es[:1], es[1:], edge_name=n.axis_names[0])
          else:
            yield f"split_{kind}-midname", lambda n=n, es=es, f=f: f(n, es[:1], es[1:], middle_name=3)
            yield f"split_{kind}-lename", lambda n=n, es=es, f=f: f(n, es[:1], es[1:], left_edge_name=3)
            yield f"split_{kind}-rename", lambda n=n, es=es, f=f: f(n, es[:1], es[1:], right_edge_name=3)
            yield f"split_{kind}-reclash", lambda n=n, es=es, f=f: f(
                n, es[:1], es[1:], left_edge_name="u1", right_edge_name=n.axis_names[-1])
    if isinstance(n, tn.CopyNode) and n.has_dangling_edge():
      yield "copynode-dangling", lambda n=n: tn.contract_copy_node(n)
      yield "copynode-partners", lambda n=n: n.get_partners()
    if isinstance(n, tn.Node):
      yield "matmul-type", lambda n=n: n @ 3
    yield "switch-symmetric", lambda n=n: tn.switch_backend([n], "symmetric")
    if all(m.backend.name == "numpy" for m in ns):
      alien = tn.Node(np.ones(2), backend="jax")
      yield "switch-mixed", lambda k=i, a=alien: tn.switch_backend(ns[:k + 1] + [a] + ns[k + 1:], "tensorflow")
    yield "switch-unknown", lambda n=n: tn.switch_backend([n], "nope")
  if edges:
    yield "json-binding", lambda: tn.nodes_to_json(ns, edge_binding={"a": 5})
    yield "json-binding2", lambda: tn.nodes_to_json(ns, edge_binding={3: edges[:1] or [fe]})
  for nm in ("greedy", "optimal", "branch", "auto"):
    c = getattr(tn.contractors, nm)
    bad = dang[1:] if dang else [fe]
    if bad:
      yield f"{nm}-order-missing", lambda c=c, bad=bad: c(ns, output_edge_order=bad)
    yield f"{nm}-order-foreign", lambda c=c: c(ns, output_edge_order=dang + [fe])
    if len(dang) > 1:
      yield f"{nm}-no-order", lambda c=c: c(ns)
    yield f"{nm}-dup", lambda c=c: c(ns, output_edge_order=dang + dang[:1]) if dang else c(ns, output_edge_order=[fe])
    if nm == "auto":
      continue
  w1 = ns[0]
  out1 = [e for e in w1.edges if w1.edges.count(e) == 1]
  if out1:
    yield "greedy-single-missing", lambda: tn.contractors.greedy([w1], output_edge_order=out1[1:] or [fe])
    yield "greedy-single-foreign", lambda: tn.contractors.greedy([w1], output_edge_order=out1 + [fe])


def fe2(e, foreign):
  return tn.Node(np.ones((e.dimension,))).edges[0]


def run_case(desc, rec):
  top = desc["top"]

  def on_state(w, hist):
    hist = list(hist)

    def make():
      x = netx.build(top)
      for op in hist:
        x = netx.apply(x, op).world
      return x
    w = make()
    foreign = tn.Node(np.ones((2, 3)), name="foreign")
    before = netx.full_state(w)
    fbefore = netx.full_state(netx.World([foreign]))
    pre = netx.Snap(w)
    dang = pre.dangling()
    val = netx.value(pre.terms, dang)
    todo = list(illegal(w, foreign))
    k = 0
    while k < len(todo):
      name, thunk = todo[k]
      rec.step()
      rec.outcome(name)
      refused = False
      try:
        thunk()
      except Exception:
        refused = True
      ok = False
      try:
        ok = (netx.full_state(w) == before and
              netx.full_state(netx.World([foreign])) == fbefore)
      except Exception:
        ok = False
      if not refused:
        rec.fail(f"accepted:{name}", f"{top} {hist}: illegal call #{k} {name} did not raise")
      elif not ok:
        rec.fail(f"mutated:{name}", f"{top} {hist}: refused call #{k} {name} changed the network")
      k += 1
      if not refused or not ok:  # start over on fresh objects
        w = make()
        foreign = tn.Node(np.ones((2, 3)), name="foreign")
        before = netx.full_state(w)
        fbefore = netx.full_state(netx.World([foreign]))
        todo = list(illegal(w, foreign))
        pre = netx.Snap(w)
        dang = pre.dangling()
        val = netx.value(pre.terms, dang)
    # as if never attempted: the network still contracts to its value
    byid = {id(e): e for e in pre.keep}
    r = tn.contractors.greedy(w.nodes, output_edge_order=[byid[x] for x in dang])
    if not netx.same(val, np.asarray(r.tensor)):
      rec.fail("value-after-refusals", f"{top} {hist}")
    rec.validated()
    return None

  netx.explore(top, desc["depth"], rec, lambda *a: None, on_state=on_state,
               rich=(False, False))

"""C22: copy tensors behave exactly as the diagonal tensor they stand for."""
import itertools
import numpy as np
import tensornetwork as tn
from tensornetwork import network_components as nc
from mc import netx, hashctl

TITLE = "copy tensors against the explicit diagonal array"
LEVEL = "model_checking"
RULE = ("every multigraph with one or two copy tensors of the listed ranks and "
        "up to three partner nodes (all leg matchings), every dimension 1..3; "
        "every way of contracting a copy tensor, every bucket order, followed "
        "by contraction of the rest, is compared with one einsum in which the "
        "copy tensor is the explicit array")
ASSUMPTIONS = ["a copy tensor that an earlier bucket step consumed may be refused"]
BOUNDS = {
    "quick": "copy rank <=4, <=8 legs in total; backend numpy plus jax/tensorflow on <=5 legs",
    "thorough": "<=9 legs in total, three partners, two copy tensors of rank 4",
}
BOUNDS["quick"] += "; copy tensors of rank up to 8 with up to 7 partners"
netx.DIMS.setdefault("e", [3] * 10)
netx.DIMS.setdefault("f", [1] * 10)

ONE = [(1,), (2,), (3,), (4,), (1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 2), (4, 3),
       (2, 1, 1), (3, 2, 1), (2, 2, 2), (3, 1, 1, 1), (2, 0, 1)]
TWO = [(1, 1), (1, 1, 1, 1), (2, 1, 1, 1), (2, 2, 1, 1), (2, 1), (2, 2), (3, 1), (3, 3), (3, 2), (4, 2), (2, 2, 1), (2, 2, 2), (3, 2, 2)]
T1 = [(3, 2, 2), (4, 4), (3, 3, 2), (4, 2, 1), (3, 2, 1, 1), (4, 3, 1)]
T2 = [(4, 4), (3, 3, 2), (4, 3, 1), (2, 2, 2, 2), (3, 2, 2, 1)]


def plan(tier):
  th = tier == "thorough"
  for ranks, copies in ([(r, [0]) for r in ONE + (T1 if th else [])] +
                        [(r, [0, 1]) for r in TWO + (T2 if th else [])]):
    for d in ("b", "e", "f"):
      if d != "b" and sum(ranks) > 7:
        continue
      for t in netx.topologies([ranks], (d,)):
        yield dict(t, copy=copies, x=True)


def wide(tier):
  """Copy tensors of high rank; more legs around them than the alphabet has letters."""
  N = netx._net  # pylint: disable=protected-access
  yield N([11] + [1] * 11, [((0, i), ((i * 7 + 3) % 11 + 1, 0)) for i in range(11)], copy=[0])
  yield N([12, 6, 7], [((0, 2 * i), (1, 5 - i)) for i in range(6)] + [((0, 2 * i + 1), (2, (3 * i + 1) % 7)) for i in range(6)],
          copy=[0])
  yield N([14, 6, 5, 6], [((0, i), (1 + i % 3, (4 * (i // 3) + i) % 5)) for i in range(14)], copy=[0])
  yield N([30, 10, 10, 10, 3], [((0, i), (1 + i // 10, (7 * i) % 10)) for i in range(30)], copy=[0], d="w1")
  yield N([9, 8, 3, 5], [((0, i), (1, (3 * i + 2) % 8)) for i in range(4)] + [((0, i + 4), (2, 2 - i)) for i in range(3)] +
          [((0, 7), (3, 4)), ((0, 8), (3, 0)), ((1, 4), (3, 2))], copy=[0])
  yield N([8, 7, 6, 5], [((0, 0), (1, 6)), ((0, 5), (1, 2)), ((0, 7), (1, 0))] + [((0, 1 + i), (2, 3 - i)) for i in range(2)] +
          [((0, 3), (3, 1)), ((0, 4), (3, 3)), ((0, 6), (3, 0)), ((1, 1), (2, 0)), ((1, 3), (3, 4)), ((1, 5), (3, 2))],
          copy=[0, 1])
  yield N([6, 6, 3, 3, 2], [((0, i), (2 + i % 2, i // 2)) for i in range(4)] + [((1, 5 - i), (2 + i % 2, 2)) for i in range(2)] +
          [((0, 4), (1, 0)), ((0, 5), (1, 2)), ((1, 1), (4, 1)), ((1, 3), (4, 0))], copy=[0, 1])


netx.DIMS["w1"] = [1] * 100


def cases(tier):
  for t in wide(tier):
    for d in dict.fromkeys((t["d"], "w1")):
      yield {"top": dict(t, x=True, d=d), "mode": "asc", "backend": "numpy"}
  for t in plan(tier):
    yield {"top": t, "mode": "asc", "backend": "numpy"}
    if sum(t["r"]) <= 5:
      yield {"top": t, "mode": "desc", "backend": "numpy"}
  for b in ("jax", "tensorflow"):
    for t in plan("quick"):
      if sum(t["r"]) <= 5 and t["d"] != "f":
        # tensorflow does not mix dtypes, and the copy tensors are real
        yield {"top": dict(t, x=b != "tensorflow"), "mode": "asc", "backend": b}


def explicit(rank, dim):
  a = np.zeros((dim,) * rank)
  for i in range(dim):
    a[(i,) * rank] = 1
  return a


def run_case(desc, rec):
  top, mode, backend = desc["top"], desc["mode"], desc["backend"]
  build = lambda: netx.build(top, backend=backend, mode=mode)
  copies = top["copy"]
  rec.state()
  rec.outcome(backend)

  def reference(w):
    pre = netx.Snap(w)
    for i in copies:
      pre.terms[i] = (explicit(top["r"][i], w.nodes[i].dimension), pre.terms[i][1])
    out = pre.dangling()
    return netx.value(pre.terms, out), out, pre

  def verify(kind, nodes, ref, out, msg):
    post = netx.Snap(netx.World(nodes))
    bad = None
    if set(post.dangling()) != set(out):
      bad = "dangling edges changed"
    elif not netx.same(ref, netx.value(post.terms, out)):
      bad = f"value: expected\n{ref}\ngot\n{netx.value(post.terms, out)}"
    bad = bad or netx.well_formed(netx.World(nodes), queries=False)
    if bad:
      rec.fail(f"{kind}:{bad[:25]}", f"{desc} {msg}: {bad}")
    else:
      rec.validated()

  w = build()
  for i in copies:
    c = w.nodes[i]
    for dt in (np.float64, np.float32, np.complex128):
      m = tn.CopyNode(rank=c.rank, dimension=c.dimension, dtype=dt, backend=backend)
      a = np.asarray(m.tensor)
      rec.step()
      if a.dtype != dt or not np.array_equal(a, explicit(c.rank, c.dimension)) or m.dtype != dt:
        rec.fail("tensor", f"{desc} copy tensor of rank {c.rank} dtype {dt}: {a}")
      if tuple(m.shape) != (c.dimension,) * c.rank:
        rec.fail("shape", f"{desc} {m.shape}")
    if not np.array_equal(np.asarray(c.tensor), explicit(c.rank, c.dimension)):
      rec.fail("tensor", f"{desc} node {i}")
    # partners
    want = {}
    for ax, e in enumerate(c.edges):
      for m, a in ((e.node1, e.axis1), (e.node2, e.axis2)):
        if m is not None and m is not c:
          want.setdefault(id(m), set()).add(a)
    if any(e.is_dangling() for e in c.edges):
      for f in (c.get_partners, c.compute_contracted_tensor,
                lambda: nc.contract_copy_node(c)):
        full = netx.full_state(w)
        try:
          f()
          rec.fail("dangling accepted", f"{desc} copy node {i}")
        except ValueError:
          if netx.full_state(w) != full:
            rec.fail("refusal changed the network", f"{desc} copy node {i}")
      continue
    got = {id(k): set(v) for k, v in c.get_partners().items()}
    if got != want:
      rec.fail("partners", f"{desc} copy node {i}")
    rec.step()
    # direct contraction
    v = build()
    ref, out, keep = reference(v)
    c = v.nodes[i]
    partners = list(c.get_partners())
    r = nc.contract_copy_node(c, name="res")
    rest = [n for n in v.nodes if n is not c and n not in partners] + [r]
    if r.name != "res":
      rec.fail("name", f"{desc}")
    for n in [c] + partners:
      if len(n.edges) != len(n.shape) or any(
          e.is_disabled or not e.is_dangling() or e.node1 is not n or e.axis1 != a
          for a, e in enumerate(n.edges)) or len(set(map(id, n.edges))) != len(n.edges):
        rec.fail("consumed node", f"{desc}: after contract_copy_node({i}) the consumed node "
                 f"{n.name} does not have one fresh dangling edge per axis")
    verify("contract_copy_node", rest, ref, out, f"contract_copy_node({i})")
    # the intermediate tensor on its own
    v = build()
    c = v.nodes[i]
    t = np.asarray(c.compute_contracted_tensor())
    if t.shape != tuple(np.asarray(r.tensor).shape) or not netx.same(np.asarray(r.tensor), t):
      rec.fail("compute_contracted_tensor", f"{desc} copy node {i}")
  # pairwise contraction with each partner through every form
  w = build()
  edges = [e for i in copies for e in w.nodes[i].edges if not e.is_dangling()]
  for k in range(len(edges)):
    for form in ("contract", "parallel", "between", "between_r"):
      v = build()
      ref, out, keep = reference(v)
      e = [e for i in copies for e in v.nodes[i].edges if not e.is_dangling()][k]
      n1, n2 = e.node1, e.node2
      rec.step()
      rec.outcome(form)
      if form == "contract":
        r = tn.contract(e)
      elif form == "parallel":
        r = tn.contract_parallel(e)
      elif form == "between":
        r = tn.contract_between(n1, n2)
      else:
        r = tn.contract_between(n2, n1)
      verify(form, [n for n in v.nodes if n is not n1 and n is not n2] + [r], ref, out,
             f"{form} over edge {k}")
  # bucket elimination in every order, then the rest
  free = [i for i in copies if not build().nodes[i].has_dangling_edge()]
  for k in range(len(free) + 1):
    for order in itertools.permutations(free, k):
      for container in (list, set):
        v = build()
        ref, out, keep = reference(v)
        byid = {id(e): e for e in keep.keep}
        rec.step()
        rec.outcome("bucket")
        joined = len(order) == 2 and any(
            {id(n) for n in e.get_nodes()} == {id(v.nodes[i]) for i in order}
            for e in v.nodes[order[0]].edges)
        try:
          res = tn.contractors.bucket(container(v.nodes), [v.nodes[i] for i in order])
        except ValueError:
          if not joined:
            rec.fail("bucket refused", f"{desc} {order}")
          continue
        res = list(res)
        verify("bucket", res, ref, out, f"bucket order {order}")
        rec.step()
        if len(res) > 1 or any(e.is_trace() for n in res for e in n.edges):
          fin = tn.contractors.greedy(res, output_edge_order=[byid[x] for x in out])
          verify("bucket+greedy", [fin], ref, out, f"bucket order {order} then greedy")
  # contractors on the network as it is
  for alg in ("greedy", "optimal", "auto"):
    v = build()
    ref, out, keep = reference(v)
    byid = {id(e): e for e in keep.keep}
    rec.step()
    fin = getattr(tn.contractors, alg)(v.nodes, output_edge_order=[byid[x] for x in out])
    verify(alg, [fin], ref, out, alg)

"""C02: rewrites never change the denoted tensor."""
from mc import netx

TITLE = "value invariance over operation histories"
LEVEL = "model_checking"
RULE = ("every multigraph of the listed node ranks (all partial matchings of "
        "the legs) x every history of legal graph operations up to the depth; "
        "the einsum of the live network is compared before/after each "
        "transition through the identity of the edge objects")
ASSUMPTIONS = ["numpy.einsum is the meaning of a labelled network",
               "backend numpy; other backends are compared in C12",
               "set iteration order fixed by the harness (ascending/descending)"]
BOUNDS = {
    "quick": "depth 2: ranks (2),(3),(2,2),(3,2),(2,1,1),(2,2,2); depth 1: "
             "(3,3),(3,2,2)(4),(4,2); dims 2/3, dims incl. 1, composite dims",
    "thorough": "depth 3 on ranks (2),(3),(2,2),(2,1,1); depth 2 on all of the above and "
                "(3,3),(4),(3,2,1),(4,2); depth 1 on (3,2,2),(3,3,2),(4,3)",
}
BOUNDS["quick"] += "; wide: 19 fixed networks of 5-8 nodes, ranks up to 9 and up to 6 parallel edges, depth 1"

D2 = [(2,), (3,), (2, 2), (3, 2), (2, 1, 1)]


def copy_plan(tier):
  """Networks with one copy tensor (node 0)."""
  deep = [(2, 1), (2, 2), (3, 1)]
  wide = [(3, 2), (3, 2, 1), (3, 3), (4, 2)]
  for ranks, depth in ([(r, 2) for r in deep] + [(r, 1) for r in wide]
                       if tier == "quick" else
                       [(r, 2) for r in deep + wide]):
    for t in netx.topologies([ranks], ("b",)):
      t["copy"] = [0]
      yield t, depth, "asc"


def plan(tier):
  yield from copy_plan(tier)
  if tier == "quick":
    yield from ((t, 2, "asc") for t in netx.topologies(D2, ("a",)))
    yield from ((t, 2, "desc") for t in netx.topologies([(2, 2)], ("c", "d")))
    yield from ((t, 2, "desc") for t in netx.topologies([(3,)], ("c", "d")))
    yield from ((t, 1, "asc") for t in netx.topologies([(2, 2, 2), (3, 3), (4,), (4, 2)], ("a",)))
    yield from ((t, 1, "desc") for t in netx.topologies([(3, 2, 2), (4, 2), (3,3)], ("b",)))
  else:
    yield from ((t, 3, "asc") for t in netx.topologies([(2,), (3,), (2, 2), (2, 1, 1)], ("a",)))
    yield from ((t, 2, m) for m in ("asc", "desc") for t in netx.topologies(
        D2 + [(3, 3), (4,), (2, 2, 2), (3, 2, 1), (4, 2)], ("a", "c", "d")))
    yield from ((t, 1, m) for m in ("asc", "desc") for t in netx.topologies(
        [(3, 2, 2), (3, 3, 2), (4, 3)], ("a", "b")))


def cases(tier):
  for k, t in enumerate(netx.wide_topologies()):
    yield {"top": t, "depth": 1 if tier == "quick" else 2, "mode": ("asc", "desc")[k % 2], "wide": 1}
  for k, (t, d, m) in enumerate(plan(tier)):
    t = dict(t)
    t["x"] = k % 3 == 0
    yield {"top": t, "depth": d, "mode": m}


def run_case(desc, rec):
  def on_step(st, op, hist):
    rec.outcome(op[0])
    return netx.verify_value(st)
  wide = desc.get("wide")
  netx.explore(desc["top"], desc["depth"], rec, on_step, mode=desc["mode"],
               max_edges=40 if wide else 9,
               alphabet=netx.enabled_wide if wide else None)

"""C01: graphs stay well-formed under every operation history."""
import tensornetwork as tn
from mc import netx
from mc.checks import c02

TITLE = "graph well-formedness over operation histories"
LEVEL = "model_checking"
RULE = ("every multigraph of the listed node ranks x every history of legal "
        "graph operations up to the depth; after each transition the endpoint "
        "relation, axis names, dimensions, retirement and all query functions "
        "are recomputed from scratch and compared")
ASSUMPTIONS = ["set iteration order fixed by the harness (ascending/descending)",
               "backend numpy"]
BOUNDS = c02.BOUNDS

RETIRED = ("contract", "contract_parallel", "between", "matmul", "outer",
           "split_node", "trace_all", "outer_final", "greedy", "copynode")


def cases(tier):
  for k, t in enumerate(netx.wide_topologies()):
    yield {"top": t, "depth": 1 if tier == "quick" else 2, "mode": ("asc", "desc")[k % 2], "wide": 1}
  for k, (t, d, m) in enumerate(c02.plan(tier)):
    t = dict(t)
    t["names"] = k % 2 == 0
    yield {"top": t, "depth": d, "mode": m}


def run_case(desc, rec):
  memo = {}

  def on_step(st, op, hist):
    rec.outcome(op[0])
    key = netx.structure(st.world)
    bad = netx.well_formed(st.world, queries=key not in memo)
    memo[key] = True
    if bad:
      return bad
    if op[0] in ("copy", "copy_sub"):  # the original must be intact too
      return netx.well_formed(netx.World(st.old), queries=False)
    if op[0] in RETIRED and st.split is not None:
      live = {id(n) for n in st.world.nodes}
      for n in st.old:
        if id(n) in live:
          continue
        if n.is_disabled:
          continue
        if any(e.is_disabled or not e.is_dangling() or e.node1 is not n
               for e in n.edges):
          return "consumed node is not detached from the live network"
        # flattening leaves a (materialized) copy tensor with fewer edges than
        # its shape property says; only the copy contraction itself is judged
        if isinstance(n, tn.CopyNode) and op[0] != "copynode":
          continue
        if len(n.edges) != len(n.shape) or any(
            e.axis1 != a for a, e in enumerate(n.edges)) or len({
                id(e) for e in n.edges}) != len(n.edges):
          return "consumed node does not have one fresh edge per axis"
    return None

  wide = desc.get("wide")
  netx.explore(desc["top"], desc["depth"], rec, on_step, mode=desc["mode"],
               max_edges=40 if wide else 9,
               alphabet=netx.enabled_wide if wide else None)

"""C03: every contractor returns the network's tensor."""
import functools
import itertools
import numpy as np
import opt_einsum
import tensornetwork as tn
from mc import netx, hashctl

TITLE = "contraction strategies against the direct sum over all indices"
LEVEL = "model_checking"
RULE = ("every multigraph of the listed node ranks x every strategy x output "
        "orders x container kinds x set iteration orders (all permutations of "
        "the nodes' hash ranks for <= 3 nodes, ascending/descending beyond), "
        "each compared with one einsum over the whole network; chains and "
        "rings of 1..16 nodes for the size-dependent automatic strategy; bucket "
        "elimination: one to three copy tensors, every order of every subset")
ASSUMPTIONS = ["numpy.einsum is the meaning of a network"]
BOUNDS = {
    "quick": "ranks (0),(1),(2),(3),(4),(0,0),(1,1),(1,1,0),(2,2),(3,2),(2,2,2),"
             "(2,1,1),(3,2,1),(2,2,1,1),(3,3); n<=16 chains/rings",
    "thorough": "adds (4,2),(3,3,2),(2,2,2,2),(3,2,2,1),(4,3) and all output orders",
}
Q = [(0,), (1,), (2,), (3,), (4,), (0, 0), (1, 1), (1, 1, 0), (2, 2), (3, 2),
     (2, 2, 2), (2, 1, 1), (3, 2, 1), (2, 2, 1, 1), (3, 3)]
T = [(4, 2), (3, 3, 2), (2, 2, 2, 2), (3, 2, 2, 1), (4, 3)]


def cases(tier):
  for t in netx.topologies(Q + (T if tier == "thorough" else []), ("a",)):
    yield {"top": t, "full": tier == "thorough"}
  for t in netx.topologies([(2, 2), (3, 1), (2, 2, 2)], ("c",)):
    yield {"top": t, "full": tier == "thorough"}
  for t in netx.topologies([(2, 2), (3, 1), (3, 3), (2, 2, 2)], ("b",)):
    t["copy"] = [0]
    yield {"top": t, "full": tier == "thorough"}
  for t in bucket_tops(tier):
    yield {"bucket": t}
  for n in range(1, 17):
    for ring in (0, 1):
      for hang in (0, 1, 2):
        for mode in ("asc", "desc"):
          yield {"n": n, "ring": ring, "hang": hang, "mode": mode}


def bucket_tops(tier):
  one = [(1,), (2,), (1, 1), (2, 1), (2, 1, 1), (3, 2, 1), (3, 1, 1, 1), (2, 1, 1, 0)]
  two = [(1, 1, 1, 1), (2, 1, 1, 1), (2, 2, 1, 1), (1, 1, 2), (1, 1, 2, 0), (2, 2, 2)]
  if tier == "thorough":
    one += [(3, 2, 2), (4, 2, 2), (3, 2, 1, 1)]
    two += [(2, 2, 2, 1), (2, 2, 2, 2), (3, 2, 2, 1)]
  three = [(1, 1, 1, 1, 1, 1), (1, 1, 1, 2, 1), (2, 1, 1, 2, 1)]
  for ranks, copies in ([(r, [0]) for r in one] + [(r, [0, 1]) for r in two] +
                        [(r, [0, 1, 2]) for r in three]):
    for t in netx.topologies([ranks], ("b",)):
      yield dict(t, copy=copies)


def bucket_case(top, rec):
  """Bucket elimination in every order of every subset of the copy tensors without
  dangling legs (the rest by greedy), for all containers and set orders."""
  rec.state()
  n, copies = len(top["r"]), top["copy"]
  free = [i for i in copies if not netx.build(top).nodes[i].has_dangling_edge()]
  for k in range(len(free) + 1):
    for order in itertools.permutations(free, k):
      for cname, container in CONTAINERS:
        for mode in ("asc", "desc"):
          w = netx.build(top, mode=mode)
          pre = netx.Snap(w)
          dang = pre.dangling()
          byid = {id(e): e for e in pre.keep}
          want = VAL(pre, dang[::-1])
          where = f"{top} bucket {order} container {cname} {mode}"
          joined = any(
              {id(m) for m in e.get_nodes()} == {id(w.nodes[i]), id(w.nodes[j])}
              for i in order for j in order if i < j for e in w.nodes[i].edges)
          rec.step()
          rec.outcome("bucket")
          try:
            res = list(tn.contractors.bucket(container(w.nodes),
                                             [w.nodes[i] for i in order]))
          except ValueError as ex:
            if not joined:  # an order naming a consumed copy tensor may be refused
              rec.fail("exception:bucket", f"{where}: {ex}")
            continue
          post = netx.Snap(netx.World(res))
          if sorted(post.dangling()) != sorted(dang):
            rec.fail("edges:bucket", f"{where}: dangling edges changed")
            continue
          if not netx.same(want, VAL(post, dang[::-1])):
            rec.fail("value:bucket", f"{where}: the remaining network has another value")
            continue
          bad = netx.well_formed(netx.World(res), queries=False)
          if bad:
            rec.fail("wf:bucket", f"{where}: {bad}")
            continue
          r = tn.contractors.greedy(res, output_edge_order=[byid[x] for x in dang[::-1]])
          if not netx.same(want, np.asarray(r.tensor)):
            rec.fail("value:bucket+greedy", where)
          rec.validated()


def strategies():
  c = tn.contractors
  yield "greedy", c.greedy
  yield "optimal", c.optimal
  yield "branch", c.branch
  yield "auto", c.auto
  yield "branch1", lambda ns, **k: c.branch(ns, nbranch=1, **k)
  yield "branch2", lambda ns, **k: c.branch(ns, nbranch=2, **k)
  yield "greedy-mem", lambda ns, **k: c.greedy(ns, memory_limit=10**8, **k)
  yield "optimal-mem", lambda ns, **k: c.optimal(ns, memory_limit=10**8, **k)
  yield "auto-mem", lambda ns, **k: c.auto(ns, memory_limit=10**8, **k)
  yield "custom", lambda ns, **k: c.custom(ns, opt_einsum.paths.greedy, **k)
  yield "custom-dp", lambda ns, **k: c.custom(
      ns, opt_einsum.paths.dynamic_programming, memory_limit=10**8, **k)


def path_strategies():
  for alg in ("optimal", "branch", "greedy", "auto"):
    def run(ns, output_edge_order, alg=alg):
      path = tn.contractors.path_solver(alg, ns)
      again = tn.contractors.path_solver(alg, (n for n in ns))
      if list(again) != list(path):
        raise ValueError(f"path {path}, for a generator of the same nodes {again}")
      return tn.contractors.contract_path(path, ns, output_edge_order)
    yield "path-" + alg, run
  def naive(ns, output_edge_order):
    return tn.contractors.contract_path([(0, 1)] * (len(ns) - 1), ns, output_edge_order)
  def last(ns, output_edge_order):
    n = len(ns)
    return tn.contractors.contract_path([(k - 2, k - 1) for k in range(n, 1, -1)], ns,
                                        output_edge_order)
  yield "path-explicit-first", naive
  yield "path-explicit-last", last


def chain(n, ring, hang):
  """A chain/ring of n rank<=3 nodes; every `hang`-th node has a dangling leg."""
  nodes = []
  for i in range(n):
    shape = [2, 2] + ([3 if i % 3 == 0 else 2] if hang and i % (4 // hang) == 0 else [])
    nodes.append(tn.Node(netx.data(shape, i), name=f"N{i}"))
  for i in range(n - 1):
    nodes[i][1] ^ nodes[i + 1][0]
  if ring:
    nodes[-1][1] ^ nodes[0][0]
  return netx.World(nodes)


CONTAINERS = [("list", list), ("set", set), ("tuple", tuple),
              ("generator", lambda x: (n for n in x)),
              ("reversed", lambda x: list(x)[::-1]),
              ("dict", lambda x: {n: 0 for n in x})]


def one(build, name, f, container, order, rec, where, **kw):
  w = build()
  pre = netx.Snap(w)
  dang = pre.dangling()
  byid = {id(e): e for e in pre.keep}
  want = [dang[i] for i in order] if order is not None else None
  rec.step()
  rec.outcome(name)
  arg = container(w.nodes)
  aslist = list(w.nodes) if isinstance(arg, list) else None
  try:
    if want is None:
      r = f(arg, **kw)
    else:
      r = f(arg, output_edge_order=[byid[x] for x in want], **kw)
  except Exception as ex:
    rec.fail(f"exception:{name}:{type(ex).__name__}", f"{where}: {type(ex).__name__}: {ex}")
    return
  got = [id(e) for e in r.edges]
  if want is not None and got != want:
    rec.fail(f"order:{name}", f"{where}: edges of the result are not in the requested order")
    return
  if sorted(got) != sorted(dang):
    rec.fail(f"edges:{name}", f"{where}: result edges are not the dangling edges")
    return
  expect = VAL(pre, got)
  if not netx.same(expect, np.asarray(r.tensor)):
    rec.fail(f"value:{name}", f"{where}: expected\n{expect}\ngot\n{r.tensor}")
    return
  bad = netx.well_formed(netx.World([r]), queries=False)
  if bad:
    rec.fail(f"wf:{name}", f"{where}: {bad}")
  if aslist is not None and not (len(arg) == len(aslist) and set(map(id, arg)) == set(
      map(id, aslist))):
    rec.fail(f"container:{name}", f"{where}: the caller's list of nodes was changed")
  rec.validated()


def VAL(pre, out):
  if len(pre.terms) <= 4:
    return netx.value(pre.terms, out)
  ids = {}
  args = []
  for arr, labels in pre.terms:
    args += [arr, [ids.setdefault(x, len(ids)) for x in labels]]
  return np.einsum(*args, [ids[x] for x in out], optimize="greedy")


def run_case(desc, rec):
  if "bucket" in desc:
    bucket_case(desc["bucket"], rec)
    return
  if "n" in desc:
    hashctl.reset(desc["mode"])

    def build():
      hashctl.reset(desc["mode"])
      return chain(desc["n"], desc["ring"], desc["hang"])
    total = len(netx.Snap(build()).dangling())
    rec.state()
    for name, f in strategies():
      if name.startswith("optimal") and desc["n"] > 8:
        continue
      if (name.startswith("branch") or name == "custom-dp") and desc["n"] > 6:
        continue
      one(build, name, f, list, list(range(total))[::-1], rec, f"{desc} {name}")
    one(build, "auto", tn.contractors.auto, list, None, rec, f"{desc} auto noorder",
        ignore_edge_order=True)
    for name, f in path_strategies():
      if name in ("path-optimal", "path-branch") and desc["n"] > 6:
        continue
      one(build, name, f, list, list(range(total)), rec, f"{desc} {name}")
    return
  top = desc["top"]
  n = len(top["r"])
  pre = netx.Snap(netx.build(top))
  total = len(pre.dangling())
  rec.state()
  if desc["full"] and total <= 4:
    orders = list(itertools.permutations(range(total)))
  else:
    orders = netx._perms(total, 3)
  perms = (list(itertools.permutations(range(n))) if n <= 3 else
           [tuple(range(n)), tuple(range(n))[::-1], (1, 3, 0, 2)])

  def builder(mode, perm):
    def build():
      w = netx.build(top, mode=mode)
      # choose which node every set of nodes yields first
      hashctl.pin(w.nodes, [perm[k] for k in range(n)])
      return w
    return build

  plain = builder("asc", tuple(range(n)))
  for name, f in strategies():
    for o in orders:
      one(plain, name, f, list, o, rec, f"{top} {name} order {o}")
    for mode in ("asc", "desc"):
      for p in perms:
        one(builder(mode, p), name, f, set, orders[-1], rec,
            f"{top} {name} set order {mode} {p}")
    one(plain, name, f, list, None, rec, f"{top} {name} ignore", ignore_edge_order=True)
    if total <= 1:
      one(plain, name, f, list, None, rec, f"{top} {name} no order")
  for cname, c in CONTAINERS:
    for name, f in strategies():
      if name in ("greedy", "optimal", "auto", "branch"):
        one(plain, name, f, c, orders[0], rec, f"{top} {name} container {cname}")
        if total <= 1:
          one(plain, name, f, c, None, rec, f"{top} {name} container {cname} no order")
        one(plain, name, f, c, None, rec, f"{top} {name} container {cname} ignore",
            ignore_edge_order=True)
  for name, f in path_strategies():
    for o in orders:
      one(plain, name, f, list, o, rec, f"{top} {name} order {o}")
    for p in perms:
      one(builder("desc", p), name, f, list, orders[-1], rec, f"{top} {name} perm {p}")

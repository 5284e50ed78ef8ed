"""Explicit exploration of graph-operation histories on real node networks.

Alphabet : all multigraphs given by node ranks and a partial matching of the
           legs, and every graph operation of the library with every argument
           that is legal (or, for C21, deliberately illegal) in the state.
Execution: stateless - each history is re-executed on fresh real objects.
Model    : a network is a list of (array, labels); its meaning is one einsum.
"""
import itertools
import re
import string
import numpy as np
import tensornetwork as tn
from mc import hashctl

hashctl.install()

DIMS = {
    "a": [2, 3, 2, 3, 2, 3, 2, 3, 2],
    "b": [2] * 9,
    "c": [1, 2, 1, 3, 1, 2, 1, 2, 1],
    "d": [4, 6, 2, 4, 2, 2, 2, 2, 2],
    "w2": [2] * 40,
    "wf": [1, 2, 2, 3, 1, 2, 1, 2, 2, 1] * 4,
}


# ---------------------------------------------------------------- topologies
def matchings(n):
  """All partial matchings of range(n), fewest pairs first."""
  def rec(free):
    if not free:
      yield ()
      return
    i, rest = free[0], free[1:]
    for m in rec(rest):
      yield m
    for k, j in enumerate(rest):
      for m in rec(rest[:k] + rest[k + 1:]):
        yield ((i, j),) + m
  return sorted(rec(tuple(range(n))), key=lambda m: (len(m), m))


def topologies(ranks_list, dims=("a",)):
  for ranks in ranks_list:
    for m in matchings(sum(ranks)):
      for d in dims:
        yield {"r": list(ranks), "m": [list(p) for p in m], "d": d}


_DATA = {}


def data(shape, k, cplx=False):
  key = (tuple(shape), k, cplx)
  if key not in _DATA:
    r = np.random.RandomState(1000 + 17 * k + len(shape))
    x = r.randint(1, 5, size=shape) * r.choice([-1, 1], size=shape)
    x = x.astype(np.float64)
    if cplx:
      x = x + 1j * r.randint(-3, 4, size=shape)
    _DATA[key] = x
  return _DATA[key].copy()


class World:
  """Live nodes of one execution, in a deterministic order."""

  def __init__(self, nodes):
    self.nodes = list(nodes)

  def edges(self):
    seen, out = set(), []
    for n in self.nodes:
      for e in n.edges:
        if id(e) not in seen:
          seen.add(id(e))
          out.append(e)
    return out


def build(desc, backend="numpy", mode="asc"):
  hashctl.reset(mode)
  ranks, match = desc["r"], desc["m"]
  cplx = desc.get("x", False)
  legs = [(n, a) for n, r in enumerate(ranks) for a in range(r)]
  dims = DIMS[desc["d"]]
  dim = {}
  k = 0
  for i, j in match:
    dim[i] = dim[j] = dims[k]
    k += 1
  for i in range(len(legs)):
    if i not in dim:
      dim[i] = dims[k]
      k += 1
  copies = desc.get("copy", [])
  nodes = []
  pos = 0
  for n, r in enumerate(ranks):
    shape = tuple(dim[pos + a] for a in range(r))
    pos += r
    names = [f"n{n}{c}" for c in string.ascii_letters[:r]] if desc.get("names", True) else None
    if n in copies:
      nodes.append(tn.CopyNode(rank=r, dimension=shape[0], name=f"N{n}",
                               axis_names=names, backend=backend))
    else:
      t = data(shape, n, cplx)
      nodes.append(tn.Node(t, name=f"N{n}", axis_names=names,
                           backend=backend))
  for k, (i, j) in enumerate(match):
    a, b = legs[i], legs[j]
    if k % 2:  # exercise both orientations of the edge object
      a, b = b, a
    tn.connect(nodes[a[0]].edges[a[1]], nodes[b[0]].edges[b[1]],
               name=f"E{k}")
  return World(nodes)


# ------------------------------------------------------------------ snapshots
class Snap:
  """The meaning of a network: arrays and the edge objects labelling them."""

  def __init__(self, world):
    self.terms = [(np.array(n.tensor), [id(e) for e in n.edges])
                  for n in world.nodes]
    self.keep = [e for n in world.nodes for e in n.edges]

  def dangling(self):
    cnt = {}
    order = []
    for _, l in self.terms:
      for x in l:
        if x not in cnt:
          order.append(x)
        cnt[x] = cnt.get(x, 0) + 1
    return [x for x in order if cnt[x] == 1]


def value(terms, out):
  """Total tensor of [(array, labels)] with the given output label order."""
  ids = {}
  args = []
  for arr, labels in terms:
    args.append(arr)
    args.append([ids.setdefault(x, len(ids)) for x in labels])
  if not args:
    return np.array(1.0)
  return np.einsum(*args, [ids[x] for x in out], optimize="greedy" if len(terms) > 6 else False)


def same(a, b):
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape:
    return False
  if a.size == 0:
    return True
  scale = max(1.0, float(np.max(np.abs(a))))
  return bool(np.max(np.abs(a - b)) <= 1e-9 * scale)


def signature(world):
  """Everything that decides the future of this state."""
  nid = {id(n): i for i, n in enumerate(world.nodes)}
  es = world.edges()
  eid = {id(e): i for i, e in enumerate(es)}
  ns = tuple((type(n).__name__, n.name, tuple(n.axis_names), n.shape,
              np.round(np.asarray(n.tensor), 7).tobytes(),
              tuple(eid[id(e)] for e in n.edges)) for n in world.nodes)
  ed = tuple((e.name, nid.get(id(e.node1)), e.axis1,
              None if e.node2 is None else nid.get(id(e.node2)), e.axis2)
             for e in es)
  return ns, ed


def structure(world):
  """Graph structure only (order of nodes, axes, edge orientation)."""
  nid = {id(n): i for i, n in enumerate(world.nodes)}
  es = world.edges()
  eid = {id(e): i for i, e in enumerate(es)}
  return (tuple(tuple(eid[id(e)] for e in n.edges) for n in world.nodes),
          tuple((nid.get(id(e.node1)), e.axis1,
                 None if e.node2 is None else nid.get(id(e.node2)), e.axis2)
                if not e.is_disabled else None for e in es))


def full_state(world):
  """Complete public state, with object identities (for C21/C06)."""
  ns = tuple((id(n), n.name, tuple(n.axis_names), tuple(n.shape),
              n.is_disabled, np.asarray(n.tensor).tobytes(),
              tuple(id(e) for e in n.edges)) for n in world.nodes)
  ed = []
  for e in world.edges():
    if e.is_disabled:
      ed.append((id(e), "disabled"))
    else:
      ed.append((id(e), e.name, id(e.node1), e.axis1,
                 None if e.node2 is None else id(e.node2), e.axis2,
                 e.is_dangling()))
  return ns, tuple(ed)


# -------------------------------------------------------------- well-formedness
def well_formed(world, queries=True):
  """Returns None or a description of what is wrong."""
  live = {id(n) for n in world.nodes}
  comp = {id(n): {id(n)} for n in world.nodes}
  shared = {}
  for n in world.nodes:
    if n.is_disabled:
      return f"live node {n.name} is disabled"
    sh = tuple(n.tensor.shape)
    if tuple(n.shape) != sh:
      return f"node.shape {n.shape} is not tensor shape {sh}"
    if len(n.edges) != len(sh):
      return f"node {n.name}: {len(n.edges)} edges on rank {len(sh)}"
    if n.axis_names is None or len(n.axis_names) != len(sh):
      return f"node {n.name}: axis names {n.axis_names} on rank {len(sh)}"
    if n.get_rank() != len(sh):
      return "get_rank"
    if tuple(int(x) for x in n.sparse_shape) != sh:
      return "sparse_shape"
    if [id(e) for e in n[:]] != [id(e) for e in n.edges] or [
        id(e) for e in n[1:]] != [id(e) for e in n.edges[1:]] or [
            id(e) for e in n.get_all_edges()] != [id(e) for e in n.edges]:
      return "node[slice]"
    if str(n) != n.name:
      return "str of a node"
    for ax, nm in enumerate(n.axis_names):
      if n.axis_names.index(nm) == ax and (n[nm] is not n.edges[ax] or n.get_axis_number(nm) != ax or
                                           n.get_edge(nm) is not n.edges[ax]):
        return f"axis {nm} by name"
    for ax, e in enumerate(n.edges):
      if e.is_disabled:
        return f"node {n.name} axis {ax} carries a retired edge"
      ends = [(e.node1, e.axis1)]
      if e.node2 is not None:
        ends.append((e.node2, e.axis2))
      if e.is_dangling() != (e.node2 is None):
        return "is_dangling disagrees with node2"
      if not any(m is n and a == ax for m, a in ends):
        return (f"node {n.name} axis {ax}: edge {e.name} claims "
                f"{[(m.name, a) for m, a in ends]}")
      if len(ends) == 2 and ends[0][0] is ends[1][0]:
        if ends[0][1] == ends[1][1]:
          return f"trace edge {e.name} uses one axis twice"
        if not e.is_trace():
          return "is_trace is False on a trace edge"
      elif e.is_trace():
        return "is_trace is True on a non-trace edge"
      for m, a in ends:
        if id(m) not in live:
          return f"edge {e.name} of {n.name} leads to a retired node {m.name}"
        if not 0 <= a < len(m.edges) or m.edges[a] is not e:
          return f"edge {e.name}: endpoint {m.name}[{a}] holds another edge"
        if m.tensor.shape[a] != e.dimension:
          return f"edge {e.name}: dimension {e.dimension} vs {m.tensor.shape[a]}"
      if not e.is_being_used():
        return "is_being_used is False on a used edge"
      if n[ax] is not e:
        return "node[axis]"
      if n.get_dimension(ax) != sh[ax]:
        return "get_dimension"
      if len(ends) == 2 and ends[0][0] is not ends[1][0]:
        i, j = id(ends[0][0]), id(ends[1][0])
        shared.setdefault(frozenset((i, j)), set()).add(id(e))
        u = comp[i] | comp[j]
        for x in u:
          comp[x] = u
      elif len(ends) == 2:
        shared.setdefault(frozenset((id(n),)), set()).add(id(e))
  if not queries or not world.nodes:
    return None
  byid = {id(n): n for n in world.nodes}
  ids = lambda xs: {id(x) for x in xs}
  alledges = world.edges()
  if ids(tn.get_all_edges(world.nodes)) != ids(alledges):
    return "get_all_edges"
  if ids(tn.get_all_nodes(alledges)) != {
      id(n) for n in world.nodes if len(n.edges)}:
    return "get_all_nodes"
  nond = [e for e in alledges if not e.is_dangling()]
  if ids(tn.network_components.get_all_nondangling(world.nodes)) != ids(nond):
    return "get_all_nondangling"
  dang = [e for n in world.nodes for e in n.edges if e.is_dangling()]
  if [id(e) for e in tn.network_components.get_all_dangling(world.nodes)] != [
      id(e) for e in dang]:
    return "get_all_dangling"
  for n in world.nodes:
    if [id(e) for e in n.get_all_dangling()] != [
        id(e) for e in n.edges if e.is_dangling()]:
      return "node.get_all_dangling"
    if ids(n.get_all_nondangling()) != {
        id(e) for e in n.edges if not e.is_dangling()}:
      return "node.get_all_nondangling"
    if n.has_dangling_edge() != any(e.is_dangling() for e in n.edges):
      return "has_dangling_edge"
    if n.has_nondangling_edge() != any(not e.is_dangling() for e in n.edges):
      return "has_nondangling_edge"
    nb = [id(m) for m in tn.get_neighbors(n)]
    want = []
    for e in n.edges:
      for m in e.get_nodes():
        if m is not None and m is not n and id(m) not in want:
          want.append(id(m))
    if sorted(nb) != sorted(want):
      return "get_neighbors"
    if ids(tn.reachable(n)) != comp[id(n)]:
      return "reachable"
    for e in n.edges:
      if ids(tn.reachable(e)) != comp[id(e.node1)]:
        return "reachable from an edge"
    if n.edges:
      m = world.nodes[0]
      want = comp[id(n)] | comp[id(m)]
      for arg in ([n.edges[-1], m], (m, n), {n, m}, iter([m, n.edges[0]])):
        if ids(tn.reachable(arg)) != want:
          return "reachable from a collection"
    for m in world.nodes:
      if ids(tn.network_components.get_shared_edges(n, m)) != shared.get(
          frozenset((id(n), id(m))), set()):
        return "get_shared_edges"
  for e in nond:
    if ids(tn.network_components.get_parallel_edges(e)) != shared[frozenset(
        (id(e.node1), id(e.node2)))]:
      return "get_parallel_edges"
  N = len(world.nodes)
  for k in range(1, N + 1) if N < 7 else (1, 2, N - 1, N):
    for sub in itertools.combinations(world.nodes, k):
      s = ids(sub)
      want = set()
      for n in sub:
        for e in n.edges:
          if not all(m is not None and id(m) in s for m in e.get_nodes()):
            want.add(id(e))
      if ids(tn.get_subgraph_dangling(set(sub))) != want:
        return "get_subgraph_dangling"
      connected = s <= comp[next(iter(s))]
      try:
        tn.check_connected(set(sub))
        ok = True
      except ValueError:
        ok = False
      if ok != connected:
        return "check_connected"
  for n, m in itertools.combinations(world.nodes, 2):
    if (n < m) == (m < n) or n < n:
      return "nodes are not totally ordered"
  try:
    tn.check_correct(set(world.nodes))
    ok = True
  except ValueError:
    ok = False
  if ok != (len(comp[id(world.nodes[0])]) == len(world.nodes)):
    return "check_correct with connections"
  try:
    tn.check_correct(set(world.nodes), check_connections=False)
  except ValueError as e:
    return f"check_correct rejects a well-formed network: {e}"
  return None


# ------------------------------------------------------------------ operations
class Step:
  """Outcome of a valid operation: expected meaning vs. observed."""
  __slots__ = ("world", "expect", "out", "order", "extra", "split", "old")

  def __init__(self, world, expect=None, out=None, order=None, extra=None):
    self.world = world      # live nodes afterwards
    self.expect = expect    # expected array or None (= unchanged)
    self.out = out          # edge ids giving the axes of `expect`
    self.order = order      # list of (node, expected edge ids) ordering claims
    self.extra = extra      # description of another defect, if any
    self.split = None       # keeps the objects of the state before alive
    self.old = []           # nodes of the state before


def _groups(world):
  """Edges grouped by their endpoint set."""
  g = {}
  for e in world.edges():
    key = frozenset(id(n) for n in e.get_nodes() if n is not None)
    g.setdefault((key, e.is_dangling()), []).append(e)
  return g


def factor_shapes(d):
  out = [(1, d), (d, 1)]
  for p in range(2, d):
    if d % p == 0:
      out.append((p, d // p))
  return out


def _ax(world, e):
  """An address (node index, axis) of an edge."""
  for i, n in enumerate(world.nodes):
    for a, f in enumerate(n.edges):
      if f is e:
        return i, a
  raise KeyError


def _perms(n, limit):
  """All permutations, or a fixed family of shifts and reversals."""
  if n <= limit:
    return list(itertools.permutations(range(n)))
  base = list(range(n))
  out = []
  for k in range(n):
    out.append(tuple(base[k:] + base[:k]))
  out += [tuple(reversed(p)) for p in out]
  for k in range(n - 1):
    p = base[:]
    p[k], p[k + 1] = p[k + 1], p[k]
    out.append(tuple(p))
  return sorted(set(out))


RESHAPES = ("flatten", "flatten_between", "flatten_all", "split_edge", "slice")


def enabled(world, rich=True):
  """Every legal operation of the alphabet in this state.

  Copy tensors have a fixed form, so nothing that reshapes them is legal."""
  ops = _enabled(world, rich)
  cop = [i for i, n in enumerate(world.nodes) if isinstance(n, tn.CopyNode)]
  if not cop:
    return ops
  out = []
  for op in ops:
    if op[0] == "flatten_all":
      continue
    if op[0] in RESHAPES:
      if op[0] == "flatten_between":
        if op[1] in cop or op[2] in cop:
          continue
      else:
        ads = op[1] if op[0] == "flatten" else [op[1]]
        es = [world.nodes[i].edges[a] for i, a in ads]
        if any(isinstance(n, tn.CopyNode) for e in es for n in e.get_nodes()):
          continue
    out.append(op)
  return out


def _enabled(world, rich=True):
  N = len(world.nodes)
  edges = world.edges()
  addr = {id(e): _ax(world, e) for e in edges}
  ops = []
  dang = [e for e in edges if e.is_dangling()]
  nond = [e for e in edges if not e.is_dangling()]
  total = len(dang)
  for i, e in enumerate(dang):
    for j, f in enumerate(dang):
      if i != j and (rich or i < j) and e.dimension == f.dimension:
        ops.append(("connect", addr[id(e)], addr[id(f)]))
  seenpar = set()
  for e in nond:
    ops.append(("disconnect", addr[id(e)]))
    ops.append(("contract", addr[id(e)]))
    key = frozenset(id(n) for n in e.get_nodes())
    if key not in seenpar:
      seenpar.add(key)
      ops.append(("contract_parallel", addr[id(e)]))
  for i in range(N):
    for j in range(N):
      a, b = world.nodes[i], world.nodes[j]
      sh = [e for e in a.edges if b in e.get_nodes() and not e.is_dangling()
            and (a is not b or e.is_trace())]
      if i == j:
        if sh:
          ops.append(("between", i, j, None))
          ops.append(("matmul", i, j))
          ops.append(("flatten_between", i, j))
        continue
      shid = {id(e) for e in sh}
      free = [e for e in list(a.edges) + list(b.edges) if id(e) not in shid]
      uniq = []
      for e in free:
        if e not in uniq:
          uniq.append(e)
      ops.append(("outer", i, j))
      ops.append(("between", i, j, None))
      if sh:
        ops.append(("matmul", i, j))
        ops.append(("flatten_between", i, j))
      traced = any(e.is_trace() for e in free) or any(
          (x.node1 in (a, b) and x.node2 in (a, b)) for x in free if x.node2 is not None)
      if not traced and len(uniq) >= 2 and (rich or i < j):
        for p in _perms(len(uniq), 3 if not rich else 4):
          ops.append(("between", i, j, list(p)))
  for (key, dg), es in _groups(world).items():
    if len(es) >= 2:
      for k in (2, 3):
        if k == 3 and not rich:
          continue
        for sub in itertools.permutations(es, k):
          ops.append(("flatten", [addr[id(e)] for e in sub]))
  if nond:
    ops.append(("flatten_all",))
  for e in edges:
    for sh in factor_shapes(e.dimension)[:None if rich else 3]:
      ops.append(("split_edge", addr[id(e)], sh, False))
    if rich:
      ops.append(("split_edge", addr[id(e)], factor_shapes(e.dimension)[-1], True))
    d = e.dimension
    sl = {(0, d), (0, 1), (d - 1, 1)}
    if d > 1:
      sl |= {(1, d - 1), (0, d - 1)}
    for s, l in sorted(sl):
      ops.append(("slice", addr[id(e)], s, l))
  for i, n in enumerate(world.nodes):
    r = len(n.edges)
    tr = any(e.is_trace() for e in n.edges)
    if r >= 2:
      for p in _perms(r, 3 if not rich else 4):
        if p == tuple(range(r)):
          continue
        ops.append(("reorder_axes", i, list(p)))
        if not tr:
          ops.append(("reorder_edges", i, list(p)))
    ops.append(("trace_all", i))
    if N > 1:
      ops.append(("remove", i))
    if r >= 2 and not tr:
      for k in range(1, 2**r - 1):
        L = [a for a in range(r) if k >> a & 1]
        R = [a for a in range(r) if not k >> a & 1]
        ops.append(("split_node", i, L, R, "svd"))
        if rich:
          ops.append(("split_node", i, L[::-1], R[::-1], "svd"))
          ops.append(("split_node", i, L[::-1], R, "qr"))
          ops.append(("split_node", i, L, R[::-1], "rq"))
          ops.append(("split_node", i, L, R[::-1], "full"))
  ops.append(("copy", False))
  for i, n in enumerate(world.nodes):
    if isinstance(n, tn.CopyNode) and not n.has_dangling_edge():
      ops.append(("copynode", i))
  if rich:
    ops.append(("copy", True))
    for k in range(1, N):
      for sub in itertools.combinations(range(N), k):
        ops.append(("copy_sub", list(sub), k % 2 == 1))
    if N >= 1 and total <= 4:
      for k in range(0, total + 1):
        for sub in itertools.combinations(range(total), k):
          if k:
            ops.append(("reduced", list(sub)))
    if nond or N > 1:
      ops.append(("greedy", list(range(total))[::-1]))
    for e in edges:
      if e.is_trace():
        old, axes = e.node1, (e.axis1, e.axis2)
        for i, n in enumerate(world.nodes):
          if n is not old and max(axes) < len(n.edges) and all(
              n.edges[a].is_dangling() and n.shape[a] == e.dimension for a in axes):
            ops.append(("redirect", addr[id(e)], i, world.nodes.index(old)))
        continue
      for i, n in enumerate(world.nodes):
        for old in [m for m in e.get_nodes() if m is not None]:
          if n is old:
            continue
          ax = e.axis1 if e.node1 is old else e.axis2
          if ax < len(n.edges) and n.edges[ax].is_dangling() and n.shape[
              ax] == e.dimension and (old.edges[ax] is e):
            ops.append(("redirect", addr[id(e)], i, world.nodes.index(old)))
    if nond == [] and N >= 1 and total >= 1:
      for p in _perms(total, 3):
        ops.append(("outer_final", list(p)))
  return ops


def apply(world, op):
  """Runs one valid operation on the real objects.

  Returns Step(new world, expected value, its output labels, order claims)."""
  ns = world.nodes
  pre = Snap(world)
  dang = pre.dangling()
  k = op[0]
  E = lambda ad: ns[ad[0]].edges[ad[1]]
  without = lambda gone, new: World([n for n in ns if all(n is not g for g in gone)] + list(new))
  val = lambda terms, out: value(terms, out)
  if k == "connect":
    e, f = E(op[1]), E(op[2])
    terms = [(a, [id(e) if x == id(f) else x for x in l]) for a, l in pre.terms]
    out = [x for x in dang if x not in (id(e), id(f))]
    name = "conn"
    g = tn.connect(e, f, name=name)
    return Step(world, val(terms, out), out,
                extra=None if g.name == name and not g.is_dangling() else "connect returned wrong edge")
  if k == "disconnect":
    e = E(op[1])
    n1, a1, n2, a2 = e.node1, e.axis1, e.node2, e.axis2
    if len(ns) % 2 and len(n1.edges) % 2:  # the other spelling, with default names
      f1, f2 = e | e
      f1.set_name("d1")
      f2.set_name("d2")
    else:
      f1, f2 = tn.disconnect(e, "d1", "d2")
    terms = []
    for n, (a, l) in zip(ns, pre.terms):
      l = list(l)
      for ax in range(len(l)):
        if n is n1 and ax == a1:
          l[ax] = id(f1)
        elif n is n2 and ax == a2:
          l[ax] = id(f2)
      terms.append((a, l))
    out = dang + [id(f1), id(f2)]
    bad = None
    if not (f1.node1 is n1 and f1.axis1 == a1 and f2.node1 is n2 and
            f2.axis1 == a2 and f1.name == "d1" and f2.name == "d2"):
      bad = "disconnect: returned edges are not (edge at node1, edge at node2)"
    st = Step(world, val(terms, out), out, extra=bad)
    st.order = []
    pre.keep += [f1, f2]
    st.split = pre
    return st
  if k in ("contract", "contract_parallel"):
    e = E(op[1])
    n1, n2 = e.node1, e.node2
    r = tn.contract(e, name="R") if k == "contract" else tn.contract_parallel(e)
    w = without([n1, n2], [r])
    order = None
    if n1 is n2 and k == "contract":
      order = [(r, [x for x in pre.terms[ns.index(n1)][1] if x != id(e)])]
    st = Step(w, val(pre.terms, dang), dang, order)
    st.split = pre
    if k == "contract" and r.name != "R":
      st.extra = "contract: name of the new node"
    return st
  if k in ("between", "matmul"):
    a, b = ns[op[1]], ns[op[2]]
    la, lb = pre.terms[op[1]][1], pre.terms[op[2]][1]
    if a is b:
      fr = [x for x in la if la.count(x) == 1]
    else:
      sh = set(la) & set(lb)
      fr = [x for x in la if x not in sh] + [x for x in lb if x not in sh]
    if k == "matmul":
      r = a @ b
    elif op[3] is None:
      kw = {}
      if a is b or not (set(la) & set(lb)):
        kw = {"allow_outer_product": True}
      r = tn.contract_between(a, b, name="R", **kw)
    else:
      byid = {id(e): e for e in pre.keep}
      fr = [fr[i] for i in op[3]]
      r = tn.contract_between(a, b, name="R", allow_outer_product=True,
                              output_edge_order=[byid[x] for x in fr],
                              axis_names=[f"o{i}" for i in range(len(fr))])
      if list(r.axis_names) != [f"o{i}" for i in range(len(fr))]:
        return Step(without([a, b], [r]), val(pre.terms, dang), dang,
                    extra="contract_between: axis_names not applied")
    st = Step(without([a, b], [r]), val(pre.terms, dang), dang, [(r, fr)])
    st.split = pre
    return st
  if k == "outer":
    a, b = ns[op[1]], ns[op[2]]
    la, lb = pre.terms[op[1]][1], pre.terms[op[2]][1]
    r = tn.outer_product(a, b, name="R")
    st = Step(without([a, b], [r]), val(pre.terms, dang), dang, [(r, la + lb)])
    st.split = pre
    return st
  if k == "outer_final":
    byid = {id(e): e for e in pre.keep}
    order = [dang[i] for i in op[1]]
    r = tn.network_components.outer_product_final_nodes(ns, [byid[x] for x in order])
    st = Step(World([r]), val(pre.terms, dang), dang, [(r, order)])
    st.split = pre
    return st
  if k == "flatten":
    es = [E(ad) for ad in op[1]]
    isd = es[0].is_dangling()
    dims = [e.dimension for e in es]
    ids = [id(e) for e in es]
    f = tn.flatten_edges(es, new_edge_name="flat")
    if isd:
      rest = [x for x in dang if x not in ids]
      v = val(pre.terms, rest + ids)
      v = v.reshape(v.shape[:len(rest)] + (int(np.prod(dims)),))
      st = Step(world, v, rest + [id(f)])
    else:
      st = Step(world, val(pre.terms, dang), dang)
    if f.name != "flat" or f.dimension != int(np.prod(dims)):
      st.extra = "flatten_edges: returned edge has wrong name or dimension"
    if not all(e.is_disabled for e in es):
      st.extra = "flatten_edges: consumed edges are not retired"
    st.split = pre
    return st
  if k == "flatten_between":
    a, b = ns[op[1]], ns[op[2]]
    f = tn.flatten_edges_between(a, b)
    st = Step(world, val(pre.terms, dang), dang)
    if f is None or {id(x) for x in f.get_nodes()} != {id(a), id(b)} or len(
        tn.network_components.get_shared_edges(a, b)) != 1:
      st.extra = "flatten_edges_between: not a single edge between the nodes"
    st.split = pre
    return st
  if k == "flatten_all":
    es = tn.flatten_all_edges(set(ns))
    st = Step(world, val(pre.terms, dang), dang)
    left = [e for e in world.edges() if not e.is_dangling()]
    keys = [frozenset(id(x) for x in e.get_nodes()) for e in left]
    if len(set(keys)) != len(keys) or {id(e) for e in es} != {id(e) for e in left}:
      st.extra = "flatten_all_edges: parallel edges remain or wrong list returned"
    st.split = pre
    return st
  if k == "split_edge":
    e = E(op[1])
    isd = e.is_dangling()
    shape = tuple(op[2])
    names = [f"s{i}" for i in range(len(shape))] if op[3] else None
    old = id(e)
    fs = tn.split_edge(e, shape, new_edge_names=names)
    if isd:
      rest = [x for x in dang if x != old]
      v = val(pre.terms, rest + [old])
      v = v.reshape(v.shape[:len(rest)] + shape)
      st = Step(world, v, rest + [id(f) for f in fs])
    else:
      st = Step(world, val(pre.terms, dang), dang)
    if tuple(f.dimension for f in fs) != shape:
      st.extra = "split_edge: dimensions of the returned edges"
    if names and [f.name for f in fs] != names:
      st.extra = "split_edge: names of the returned edges"
    pre.keep += fs
    st.split = pre
    return st
  if k == "slice":
    e = E(op[1])
    s, l = op[2], op[3]
    ide = id(e)
    terms = []
    for a, lab in pre.terms:
      ix = tuple(slice(s, s + l) if x == ide else slice(None) for x in lab)
      terms.append((a[ix], lab))
    f = tn.slice_edge(e, s, l)
    return Step(world, val(terms, dang), dang,
                extra=None if f is e and e.dimension == l else "slice_edge: returned edge")
  if k in ("reorder_axes", "reorder_edges"):
    n = ns[op[1]]
    lab = pre.terms[op[1]][1]
    order = [lab[i] for i in op[2]]
    nm = [n.axis_names[i] for i in op[2]]
    shp = tuple(n.shape[i] for i in op[2])
    before = np.array(n.tensor)
    byid = {id(e): e for e in pre.keep}
    if k == "reorder_axes":
      r = n.reorder_axes(list(op[2]))
    else:
      r = n.reorder_edges([byid[x] for x in order])
    bad = None
    if r is not n:
      bad = "reorder: does not return the node"
    elif list(n.axis_names) != nm:
      bad = f"reorder: axis names {n.axis_names} expected {nm}"
    elif not same(before.transpose(op[2]), n.tensor) or tuple(n.shape) != shp:
      bad = "reorder: tensor not transposed accordingly"
    return Step(world, val(pre.terms, dang), dang, [(n, order)], bad)
  if k == "trace_all":
    n = ns[op[1]]
    lab = pre.terms[op[1]][1]
    keep = [x for x in lab if lab.count(x) == 1]
    r = tn.contract_trace_edges(n)
    w = World([r if m is n else m for m in ns])
    st = Step(w, val(pre.terms, dang), dang, [(r, keep)])
    st.split = pre
    return st
  if k == "remove":
    n = ns[op[1]]
    others = [m for m in ns if m is not n]
    lab = pre.terms[op[1]][1]
    names = list(n.axis_names)
    bn, ba = tn.remove_node(n)
    w = World(others)
    # neighbours keep their arrays; every cut leg dangles now
    terms = []
    for m, (a, l) in zip(ns, pre.terms):
      if m is not n:
        terms.append((a, [id(e) for e in m.edges]))
    bad = None
    want = {}
    for m, (a, l) in zip(ns, pre.terms):
      if m is n:
        continue
      for ax, x in enumerate(l):
        if x in lab:
          if not m.edges[ax].is_dangling():
            bad = "remove_node: neighbour leg still connected"
          want[lab.index(x)] = id(m.edges[ax])
        elif id(m.edges[ax]) != x:
          bad = "remove_node: unrelated edge changed"
    if {i: id(e) for i, e in ba.items()} != want:
      bad = "remove_node: edges by axis"
    if {i: id(e) for i, e in bn.items()} != {names[i]: v for i, v in want.items()}:
      bad = "remove_node: edges by name"
    if any(not e.is_dangling() and not e.is_trace() for e in n.edges):
      bad = "remove_node: the node is still connected"
    outs = Snap(w).dangling()
    st = Step(w, val(terms, outs), outs, extra=bad)
    st.split = pre
    return st
  if k == "split_node":
    n = ns[op[1]]
    edges = list(n.edges)
    L, R = [edges[a] for a in op[2]], [edges[a] for a in op[3]]
    lid, rid = [id(e) for e in L], [id(e) for e in R]
    kind = op[4]
    cut = f"cut{len(pre.keep)}_{sum("cut" in e.name for e in pre.keep)}"
    if kind == "svd":
      l, r, tr = tn.split_node(n, L, R, left_name="L", right_name="R", edge_name=cut)
      new = [l, r]
    elif kind == "qr":
      l, r = tn.split_node_qr(n, L, R, left_name="L", right_name="R", edge_name=cut)
      new = [l, r]
    elif kind == "rq":
      l, r = tn.split_node_rq(n, L, R, left_name="L", right_name="R", edge_name=cut)
      new = [l, r]
    else:
      l, s, r, tr = tn.split_node_full_svd(n, L, R, left_name="L", middle_name="S",
                                           right_name="R", left_edge_name=cut + "l",
                                           right_edge_name=cut + "r")
      new = [l, s, r]
    st = Step(without([n], new), val(pre.terms, dang), dang)
    st.split = pre
    if [id(e) for e in l.edges[:-1]] != lid or [id(e) for e in r.edges[1:]] != rid:
      st.extra = "split_node: edge order of the factors"
    elif l.name != "L" or r.name != "R":
      st.extra = "split_node: names of the factors"
    elif kind != "full" and (l.edges[-1] is not r.edges[0] or l.edges[-1].name != cut):
      st.extra = "split_node: new edge"
    elif kind == "full" and (l.edges[-1] is not s.edges[0] or s.edges[1] is not r.edges[0]
                             or l.edges[-1].name != cut + "l" or r.edges[0].name != cut + "r"):
      st.extra = "split_node_full_svd: new edges"
    return st
  if k == "copy":
    nd, ed = tn.copy(ns, conjugate=op[1])
    w = World([nd[n] for n in ns])
    v = val(pre.terms, dang)
    if op[1]:
      v = np.conj(v)
    byid = {id(e): e for e in pre.keep}
    st = Step(w, v, [id(ed[byid[x]]) for x in dang])
    st.split = (pre, w)
    for n in ns:
      m = nd[n]
      if m.name != n.name or list(m.axis_names) != list(n.axis_names) or [
          id(ed[e]) for e in n.edges] != [id(e) for e in m.edges] or [
              e.name for e in n.edges] != [e.name for e in m.edges]:
        st.extra = "copy: names or edges differ"
    return st
  if k == "copy_sub":
    sub = [ns[i] for i in op[1]]
    nd, ed = tn.copy(sub, conjugate=op[2])
    w = World([nd[n] for n in sub])
    byid = {id(e): e for e in pre.keep}
    terms = [(np.conj(a) if op[2] else a, [id(ed[byid[x]]) for x in l])
             for i, (a, l) in enumerate(pre.terms) if i in op[1]]
    flat = [x for _, l in terms for x in l]
    out = [x for x in dict.fromkeys(flat) if flat.count(x) == 1]
    st = Step(w, val(terms, out), out)
    st.split = (pre, w, nd, ed)
    if set(nd) != set(sub) or {id(e) for e in ed} != {
        x for i in op[1] for x in pre.terms[i][1]}:
      st.extra = "copy: maps do not cover exactly the copied nodes and edges"
    return st
  if k == "copynode":
    n = ns[op[1]]
    partners = n.get_partners()
    r = tn.contract_copy_node(n, name="R")
    w = without([n] + list(partners), [r])
    st = Step(w, val(pre.terms, dang), dang)
    st.split = pre
    return st
  if k == "reduced":
    byid = {id(e): e for e in pre.keep}
    traced = [dang[i] for i in op[1]]
    comp = set()
    todo = [byid[x].node1 for x in traced]
    while todo:
      n = todo.pop()
      if id(n) in comp:
        continue
      comp.add(id(n))
      for e in n.edges:
        todo += [m for m in e.get_nodes() if m is not None]
    cn = [n for n in ns if id(n) in comp]
    nd, ed = tn.reduced_density([byid[x] for x in traced])
    w = World(ns + [nd[n] for n in cn])
    terms = list(pre.terms)
    for n, (a, l) in zip(ns, pre.terms):
      if id(n) in comp:
        terms.append((np.conj(a), [x if x in traced else ("c", x) for x in l]))
    labs = [x for n, (a, l) in zip(ns, pre.terms) if id(n) in comp for x in l]
    cout = [x for x in dang if x in labs and x not in traced]
    out0 = [x for x in dang if x not in traced]
    st = Step(w, val(terms, out0 + [("c", x) for x in cout]),
              out0 + [id(ed[byid[x]]) for x in cout])
    st.split = (pre, w, nd, ed)
    return st
  if k == "greedy":
    byid = {id(e): e for e in pre.keep}
    order = [dang[i] for i in op[1]]
    r = tn.contractors.greedy(ns, output_edge_order=[byid[x] for x in order])
    st = Step(World([r]), val(pre.terms, dang), dang, [(r, order)])
    st.split = pre
    return st
  if k == "redirect":
    e = E(op[1])
    new, old = ns[op[2]], ns[op[3]]
    if e.is_trace():
      axes = (e.axis1, e.axis2)
      ide, gone = id(e), [id(new.edges[a]) for a in axes]
      tn.redirect_edge(e, new, old)
      fresh = [old.edges[a] for a in axes]
      terms = []
      for m, (a, l) in zip(ns, pre.terms):
        l = list(l)
        for n, x in enumerate(axes):
          if m is new:
            l[x] = ide
          if m is old:
            l[x] = id(fresh[n])
        terms.append((a, l))
      out = [x for x in dang if x not in gone]
      for f in fresh:
        if f.is_dangling():
          out.append(id(f))
      st = Step(world, val(terms, out), out)
      st.split = pre
      if not fresh[0].is_trace() or fresh[0] is not fresh[1]:
        st.extra = "the old node of a redirected trace edge is left without a trace edge"
      return st
    ax = e.axis1 if e.node1 is old else e.axis2
    ide, gone = id(e), id(new.edges[ax])
    tn.redirect_edge(e, new, old)
    fresh = old.edges[ax]
    terms = []
    for m, (a, l) in zip(ns, pre.terms):
      l = list(l)
      if m is new:
        l[ax] = ide
      if m is old:
        l[ax] = id(fresh)
      terms.append((a, l))
    out = [x for x in dang if x not in (gone,)]
    if id(fresh) not in out:
      out.append(id(fresh))
    st = Step(world, val(terms, out), out)
    st.split = pre
    return st
  raise AssertionError(k)


def verify_value(step):
  """Compares the observed meaning with the expected one."""
  if step.extra:
    return step.extra
  post = Snap(step.world)
  if set(post.dangling()) != set(step.out):
    return ("dangling edges of the result are not the expected edge objects: "
            f"{len(post.dangling())} vs {len(step.out)}")
  got = value(post.terms, step.out)
  if not same(step.expect, got):
    return f"network value changed:\nexpected\n{step.expect}\ngot\n{got}"
  for node, order in step.order or []:
    if [id(e) for e in node.edges] != list(order):
      return f"edge order of the result: {[e.name for e in node.edges]}"
  return None


# ------------------------------------------------- a few large hand-made graphs
def _net(ranks, pairs, **kw):
  """Topology from pairs of (node, axis)."""
  off = [sum(ranks[:i]) for i in range(len(ranks))]
  m = [[off[a] + x, off[b] + y] for (a, x), (b, y) in pairs]
  return dict({"r": list(ranks), "m": [sorted(p) for p in m], "d": "w2"}, **kw)


def wide_topologies():
  # two nodes joined by eleven crossed edges, and by fewer of them next to others
  for mul, add in ((4, 3), (10, 10), (1, 0)):
    yield _net([11, 11], [((0, i), (1, (mul * i + add) % 11)) for i in range(11)])
  yield _net([11, 11], [((0, (3 * i) % 11), (1, (5 * i + 1) % 11)) for i in range(9)], d="wf")
  yield _net([12, 8], [((0, 2), (0, 7)), ((0, 11), (0, 1)), ((1, 7), (1, 0)), ((0, 9), (1, 2)), ((0, 0), (1, 5)),
                       ((0, 5), (1, 1)), ((0, 10), (1, 6)), ((0, 3), (1, 3))])
  # one node with crossing, nested and neighbouring traces
  yield _net([12], [((0, i), (0, i + 6)) for i in range(6)])
  yield _net([12], [((0, i), (0, 11 - i)) for i in range(6)])
  yield _net([12], [((0, 2 * i), (0, 2 * i + 1)) for i in range(6)], d="wf")
  yield _net([13], [((0, 11), (0, 2)), ((0, 1), (0, 10)), ((0, 4), (0, 9)), ((0, 12), (0, 0)), ((0, 6), (0, 7))])
  # stars with leaves in another order, with and without free legs, also around a copy tensor
  leaf = [(i * 7 + 3) % 11 for i in range(11)]
  yield _net([11] + [1] * 11, [((0, i), (l + 1, 0)) for i, l in enumerate(leaf)])
  yield _net([9] + [2] * 7, [((0, i + 1), (l + 1, l % 2)) for i, l in enumerate([3, 6, 0, 5, 2, 1, 4])])
  yield _net([11] + [1] * 11, [((0, i), (l + 1, 0)) for i, l in enumerate(leaf)], copy=[0])
  yield _net([12, 4, 7], [((0, 2 * i), (1, 3 - i)) for i in range(4)] + [((0, 2 * i + 1), (2, (3 * i + 1) % 7)) for i in range(5)],
             copy=[0])
  # chains, rings, a grid, a complete graph, many pieces
  yield _net([1] + [2] * 9 + [1], [((i, min(i, 1)), (i + 1, 0)) for i in range(10)], d="wf")
  yield _net([2] * 12, [((i, 1), ((i + 1) % 12, 0)) for i in range(12)])
  yield _net([3] * 10, [((i, (i + 1) % 3), ((i + 1) % 10, (i + 3) % 3)) for i in range(10)])
  grid = [(r, c) for r in range(3) for c in range(3)]
  prs = []
  for r, c in grid:
    if c < 2:
      prs.append(((r * 3 + c, 1), (r * 3 + c + 1, 3)))
    if r < 2:
      prs.append(((r * 3 + c, 2), (r * 3 + c + 3, 0)))
  yield _net([4] * 9, prs)
  yield _net([4] * 5, [((a, b - 1), (b, a)) for a in range(5) for b in range(a + 1, 5)], d="wf")
  yield _net([2, 2, 1, 1, 0, 3, 2, 0, 1, 1, 2], [((0, 0), (1, 1)), ((0, 1), (1, 0)), ((2, 0), (8, 0)), ((5, 2), (5, 0)),
                                                 ((6, 0), (9, 0)), ((10, 0), (10, 1))])


def _some_perms(n):
  base = list(range(n))
  out = [base[::-1], base[1:] + base[:1], base[-1:] + base[:-1], base[::2] + base[1::2]]
  if n > 3:
    out.append(base[:n // 2][::-1] + base[n // 2:])
  return [p for k, p in enumerate(out) if p not in out[:k]]


def enabled_wide(world, rich=True):
  """A small, regular part of the alphabet for graphs with many legs."""
  del rich
  N, ops = len(world.nodes), []
  edges = world.edges()
  addr = {id(e): _ax(world, e) for e in edges}
  dang = [e for e in edges if e.is_dangling()]
  nond = [e for e in edges if not e.is_dangling()]
  some = lambda xs, k=3: list(xs) if len(xs) <= k else [xs[i * (len(xs) - 1) // (k - 1)] for i in range(k)]
  cop = [n for n in world.nodes if isinstance(n, tn.CopyNode)]
  free = lambda e: not any(n is c for n in e.get_nodes() for c in cop)
  for e in nond:
    ops.append(("contract", addr[id(e)]))
  for e in some(nond, 4):
    ops.append(("contract_parallel", addr[id(e)]))
    ops.append(("disconnect", addr[id(e)]))
  for e, f in zip(some(dang), some(dang)[1:]):
    if e.dimension == f.dimension:
      ops += [("connect", addr[id(e)], addr[id(f)]), ("connect", addr[id(f)], addr[id(e)])]
  pairs = [(a, b) for a in range(N) for b in range(N) if a != b and any(
      world.nodes[b] in e.get_nodes() for e in world.nodes[a].edges)]
  for a, b in some(pairs, 6) + [(0, N - 1)] * (N > 1):
    na, nb = world.nodes[a], world.nodes[b]
    uniq = []
    for e in list(na.edges) + list(nb.edges):
      if not (na in e.get_nodes() and nb in e.get_nodes()) and e not in uniq:
        uniq.append(e)
    ops.append(("between", a, b, None))
    ops.append(("outer", a, b))
    if any(nb in e.get_nodes() for e in na.edges):
      ops.append(("matmul", a, b))
      if na not in cop and nb not in cop:
        ops.append(("flatten_between", a, b))
    if len(uniq) >= 2 and not any(e.is_trace() for e in uniq):
      for p in _some_perms(len(uniq)):
        ops.append(("between", a, b, p))
  for (key, dg), es in _groups(world).items():
    if len(es) >= 2 and all(free(e) for e in es):
      for p in _some_perms(len(es)):
        ops.append(("flatten", [addr[id(es[i])] for i in p]))
      if len(es) > 2:
        ops.append(("flatten", [addr[id(e)] for e in es[1:3][::-1]]))
  if nond and not cop:
    ops.append(("flatten_all",))
  for e in some([e for e in edges if free(e)], 4):
    d = e.dimension
    ops.append(("split_edge", addr[id(e)], (d, 1), False))
    ops.append(("slice", addr[id(e)], 0, max(1, d - 1)))
    ops.append(("slice", addr[id(e)], d - 1, 1))
  for i in some(range(N), 4):
    n = world.nodes[i]
    r = len(n.edges)
    tr = any(e.is_trace() for e in n.edges)
    if r >= 2:
      for p in _some_perms(r):
        ops.append(("reorder_axes", i, p))
        if not tr:
          ops.append(("reorder_edges", i, p))
    ops.append(("trace_all", i))
    if N > 1:
      ops.append(("remove", i))
    if r >= 2 and not tr and n not in cop:
      for p, how in zip(_some_perms(r), ("svd", "qr", "rq", "full", "svd")):
        k = max(1, r // 2)
        ops.append(("split_node", i, p[:k], p[k:], how))
        ops.append(("split_node", i, p[:1], p[1:], how))
  for i, n in enumerate(world.nodes):
    if n in cop and not n.has_dangling_edge() and not any(e.is_trace() for e in n.edges):
      ops.append(("copynode", i))
  ops += [("copy", False), ("copy", True)]
  if N > 1:
    ops.append(("copy_sub", list(range(N // 2)), True))
    ops.append(("copy_sub", list(range(1, N)), False))
  total = len(dang)
  if total and total <= 6:
    ops.append(("reduced", list(range((total + 1) // 2))))
  if nond or N > 1:
    ops.append(("greedy", list(range(total))[::-1]))
  if not nond and total:
    for p in _some_perms(total):
      ops.append(("outer_final", p))
  return ops


# ---------------------------------------------------------------- exploration
def explore(desc, depth, rec, on_step, on_state=None, rich=(True, False),
            mode="asc", max_edges=9, alphabet=None):
  """Stateless depth-first exploration of all histories up to `depth`.

  on_step(step, op, history) -> None or defect text, for every transition.
  Histories that reach a state already expanded are cut (same signature =
  same future)."""
  seen = set()

  def fresh(hist):
    w = build(desc, mode=mode)
    for op in hist:
      w = apply(w, op).world
    return w

  def visit(hist):
    d = len(hist)
    w = fresh(hist)
    sig = signature(w)
    if (sig, d) in seen:
      return
    seen.add((sig, d))
    rec.state()
    if on_state is not None:
      bad = on_state(w, hist)
      if bad:
        return
      w = fresh(hist)
    if d == depth or len(w.edges()) > max_edges:
      return
    ops = (alphabet or enabled)(w, rich=rich[min(d, len(rich) - 1)])
    for op in ops:
      w = fresh(hist)
      rec.step()
      old = list(w.nodes)
      try:
        st = apply(w, op)
        st.old = old
      except Exception as ex:  # a legal operation was refused
        rec.fail(f"exception:{op[0]}:{type(ex).__name__}",
                 f"{desc} {hist + [op]}: {type(ex).__name__}: {ex}",
                 [list(o) for o in hist + [op]])
        continue
      bad = on_step(st, op, hist)
      if bad:
        rec.fail(f"{op[0]}:" + re.sub(r"[0-9]+", "#", bad.splitlines()[0][:60]),
                 f"{desc} {hist + [op]}: {bad}",
                 [list(o) for o in hist + [op]])
        continue
      if d + 1 < depth or on_state is not None:
        visit(hist + [op])
      else:
        rec.validated()

  visit([])

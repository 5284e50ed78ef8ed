"""C23: custom path solvers against exhaustive enumeration of all orders."""
import functools
import itertools
import math
import numpy as np
import tensornetwork as tn
from tensornetwork.contractors.custom_path_solvers import (
    greedy_cost_solve, greedy_size_solve, full_solve_complete, ncon_solver,
    ncon_to_adj, ord_to_ncon, ncon_cost_check)
from mc import netx
from mc.core import Violation

TITLE = "path solvers against all pairwise contraction orders"
LEVEL = "model_checking"
RULE = ("every bond-dimension assignment (1 included) of the complete graph on N "
        "tensors x external legs x branch limits: returned order replayed for "
        "validity and cost, cost compared with the minimum over ALL orders "
        "(dynamic programming over all partitions, validated against plain "
        "enumeration of every sequence); ncon front ends on every labelled "
        "topology of the listed ranks: every pairwise sequence converted to "
        "labels, costed and contracted")
ASSUMPTIONS = [
    "orders considered by the full search: outer products only when no pair of "
    "the remaining tensors shares a non-trivial bond (as its docstring says)",
    "numpy.einsum is the meaning of a network"]
BOUNDS = {
    "quick": "N<=3 dims {1,2,3,7}, N=4 dims {1,2,5}, N=5 dims {1,3}; ncon ranks up to 4 tensors",
    "thorough": "N=4 dims {1,2,3,7}, N=5 dims {1,2,5} for all graphs, N=6 dims {1,3}",
}
BOUNDS["quick"] += "; fixed shapes (chain, ring, star, tree, grid, ladder, clique, pairs, MPS) of 6-20 tensors"
TOL = 1e-8


def blocks(it, n):
  it = list(it)
  return [it[k::n] for k in range(n)]


def cases(tier):
  th = tier == "thorough"
  yield {"k": "adj", "N": 1, "dims": [1, 2, 3, 7], "ext": [1, 2, 6], "part": [0, 1]}
  for N, dims, ext, parts in [
      (2, [1, 2, 3, 7], [1, 2, 6], 1), (3, [1, 2, 3, 7], [1, 2, 6], 16),
      (4, [1, 2, 5], [1, 4], 48), (5, [1, 3], [1], 16), (5, [1, 2, 9], None, 24)] + ([
          (4, [1, 2, 3, 7], [1, 5], 200), (5, [1, 2, 5], [1], 400),
          (6, [1, 3], [1], 400)] if th else []):
    for p in range(parts):
      yield {"k": "adj", "N": N, "dims": dims, "ext": ext, "part": [p, parts]}
  for shape in ("chain", "ring", "star", "tree", "grid", "ladder", "complete", "pairs", "mps"):
    for N in (6, 7, 8, 12) + ((20,) if shape not in ("star", "complete", "mps") else ()):
      yield {"k": "big", "shape": shape, "N": N, "th": th}
  for t in netx.topologies(
      [(0,), (1,), (2,), (3,), (4,), (0, 0), (1, 0), (1, 1), (2, 2), (3, 3), (4, 2),
       (1, 1, 1), (2, 2, 2), (3, 2, 1), (2, 2, 1, 1), (2, 2, 2, 2)] +
      ([(3, 3, 2), (3, 2, 2, 1), (3, 3, 2, 2)] if th else []), ("a", "c")):
    yield {"k": "ncon", "top": t}


# ------------------------------------------------------------------ reference
def merged_cost(groups, i, j, L):
  """log10 cost of contracting two groups: product of all involved dimensions."""
  def dims(g):
    tot = 0.0
    for a in g:
      for b in range(L.shape[0]):
        if a == b or b not in g:
          tot += L[a, b]
    return tot
  shared = sum(L[a, b] for a in groups[i] for b in groups[j])
  return dims(groups[i]) + dims(groups[j]) - shared, shared


def replay(order, L):
  """Validity and log10 cost of a pairwise order."""
  N = L.shape[0]
  order = np.asarray(order)
  if order.shape != (2, N - 1):
    raise Violation("order:shape", f"{order.shape} for {N} tensors")
  groups = [(k,) for k in range(N)]
  tot = 0.0
  for a, b in order.T:
    if not (0 <= a < len(groups) and 0 <= b < len(groups)) or a == b:
      raise Violation("order:invalid", f"step {a},{b} with {len(groups)} tensors: {order.tolist()} {L.tolist()}")
    c, _ = merged_cost(groups, a, b, L)
    tot += 10**c
    groups[a] = tuple(sorted(groups[a] + groups[b]))
    del groups[b]
  if len(groups) != 1:
    raise Violation("order:incomplete", str(order))
  return math.log10(tot) if tot else float("-inf")


def minimum(L, outer):
  """Cheapest total cost; outer=False delays outer products as long as possible."""
  @functools.lru_cache(None)
  def best(part):
    if len(part) == 1:
      return 0.0
    opts = []
    for i, j in itertools.combinations(range(len(part)), 2):
      c, s = merged_cost(part, i, j, L)
      rest = tuple(sorted([g for k, g in enumerate(part) if k not in (i, j)] +
                          [tuple(sorted(part[i] + part[j]))]))
      opts.append((s > 0, c, rest))
    if not outer and any(o[0] for o in opts):
      opts = [o for o in opts if o[0]]
    return min(10**c + best(r) for _, c, r in opts)
  v = best(tuple((k,) for k in range(L.shape[0])))
  return math.log10(v) if v else float("-inf")


def brute(L, outer):
  """The same by plain enumeration of all sequences (validates `minimum`)."""
  n = 0
  bestv = math.inf
  def rec(groups, tot):
    nonlocal n, bestv
    if len(groups) == 1:
      n += 1
      bestv = min(bestv, tot)
      return
    prs = [(i, j) + merged_cost(groups, i, j, L)
           for i, j in itertools.combinations(range(len(groups)), 2)]
    if not outer and any(p[3] > 0 for p in prs):
      prs = [p for p in prs if p[3] > 0]
    for i, j, c, _ in prs:
      g = list(groups)
      g[i] = tuple(sorted(g[i] + g[j]))
      del g[j]
      rec(g, tot + 10**c)
  rec([(k,) for k in range(L.shape[0])], 0.0)
  return math.log10(bestv) if bestv else float("-inf"), n


def same(a, b):
  return a == b or abs(a - b) < TOL


def solve_all(L, rec, what):
  N = L.shape[0]
  key = L.tobytes()
  lo, mid = minimum(L, True), minimum(L, False)
  greedy = []
  for f in (greedy_size_solve, greedy_cost_solve):
    o, c = f(L)
    rec.step()
    if L.tobytes() != key:
      raise Violation("input-modified", f.__name__)
    t = replay(o, L)
    if not same(t, c):
      raise Violation(f"{f.__name__}:cost", f"reported {c}, order costs {t}: {o.tolist()} {L.tolist()}")
    greedy.append(t)
  for kw in ({}, {"max_branch": None}, {"max_branch": 1}, {"max_branch": 2},
             {"max_branch": 7}, {"cost_bound": 100}, {"cost_bound": 2, "max_branch": 40}):
    o, c, opt = full_solve_complete(L, **kw)
    rec.step()
    if L.tobytes() != key:
      raise Violation("input-modified", "full_solve_complete")
    t = replay(o, L)
    w = f"{kw} {o.tolist()} dims {np.round(10**L).tolist()}"
    if not same(t, c):
      raise Violation("full:cost", f"reported {c}, order costs {t}: {w}")
    if c < lo - TOL:
      raise Violation("full:impossible", f"{c} below the minimum {lo}: {w}")
    if c > min(greedy) + TOL:
      raise Violation("full:worse-than-greedy", f"{c} {greedy} {w}")
    if opt and N > 1 and not same(c, min(mid, c)):
      raise Violation("full:optimal-flag", f"claims {c}, cheapest {mid}: {w}")
    if kw.get("max_branch") is None and c > mid + TOL:
      raise Violation("full:not-minimal", f"returned {c}, cheapest order costs {mid}: {w}")
    if kw.get("max_branch") is None and not opt and min(greedy) > mid - TOL and N > 1:
      raise Violation("full:flag", f"full search within bound not flagged optimal: {w}")
    rec.outcome(("optimal" if opt else "not-guaranteed") + (":outer" if lo < mid - TOL else ""))
  rec.state((N, key))


def adj(desc, rec):
  N = desc["N"]
  pairs = list(itertools.combinations(range(N), 2))
  dims = desc["dims"]
  if desc["ext"] is None:  # trees and rings with all dims, no external legs
    graphs = []
    for es in itertools.combinations(pairs, N - 1):
      seen = {0}
      for _ in range(N):
        for a, b in es:
          if a in seen or b in seen:
            seen |= {a, b}
      if len(seen) == N:
        graphs.append(es)
    space = [(es, ds) for es in graphs for ds in itertools.product(dims[1:], repeat=N - 1)]
    space = [(dict(zip(es, ds)), (1,) * N) for es, ds in space]
    exts = None
  else:
    if N == 4:
      exts = [(1, 1, 1, 1), (4, 1, 1, 1), (1, 1, 4, 4)]
    elif N < 4:
      exts = list(itertools.product(desc["ext"], repeat=N))
    else:
      exts = [(1,) * N, (3,) + (1,) * (N - 2) + (3,)]
    space = [(dict(zip(pairs, ds)), e)
             for ds in itertools.product(dims, repeat=len(pairs)) for e in exts]
  p, parts = desc["part"]
  for n, (d, e) in enumerate(space[p::parts]):
    L = np.zeros((N, N))
    for (a, b), v in d.items():
      L[a, b] = L[b, a] = np.log10(v)
    for a in range(N):
      L[a, a] = np.log10(e[a])
    if n % 20 == 0 and N <= 4:
      for outer in (True, False):
        v, cnt = brute(L, outer)
        if not same(v, minimum(L, outer)):
          raise Violation("harness:minimum", "reference disagrees with enumeration")
        rec.validated(cnt)
    solve_all(L, rec, d)


# ----------------------------------------------------------------------- ncon
def sequences(n):
  if n == 1:
    yield ()
    return
  for i, j in itertools.combinations(range(n), 2):
    for a, b in ((i, j), (j, i)):
      for s in sequences(n - 1):
        yield ((a, b),) + s


def ref_cost(shapes, labels, order):
  """Cost of contracting label by label (all shared labels of a pair at once),
  remaining outer products smallest first; partial traces are free."""
  ts = []
  for sh, la in zip(shapes, labels):
    ts.append({l: d for l, d in zip(la, sh) if la.count(l) == 1})
  tot = 0
  for l in order:
    hit = [t for t in ts if l in t]
    if not hit:
      continue
    if len(hit) != 2:
      raise Violation("harness:ref", "")
    a, b = hit
    allv = dict(a)
    allv.update(b)
    tot += math.prod(allv.values())
    new = {k: v for k, v in allv.items() if not (k in a and k in b)}
    ts = [t for t in ts if t is not a and t is not b] + [new]
  sizes = tuple(sorted(math.prod(t.values()) for t in ts))
  lo, hi = outer_range(sizes)
  log = lambda x: math.log10(x) if x else float("-inf")
  return log(tot + lo), log(tot + hi), len(sizes)


@functools.lru_cache(None)
def outer_range(sizes):
  """Cheapest and dearest order of the remaining outer products."""
  if len(sizes) < 2:
    return 0, 0
  r = []
  for i, j in itertools.combinations(range(len(sizes)), 2):
    x = sizes[i] * sizes[j]
    rest = tuple(sorted([s for k, s in enumerate(sizes) if k not in (i, j)] + [x]))
    r.append((x + outer_range(rest)[0], x + outer_range(rest)[1]))
  return min(a for a, _ in r), max(b for _, b in r)


def check_cost(c, shapes, labels, order, what):
  lo, hi, n = ref_cost(shapes, labels, order)
  if not (same(c, lo) or same(c, hi) or lo < c < hi):
    raise Violation(what, f"{c} not in [{lo},{hi}]: {labels} {shapes} {order}")
  return n


def ncon_case(desc, rec):
  top = desc["top"]
  ranks, match = top["r"], [tuple(m) for m in top["m"]]
  dims = netx.DIMS[top["d"]]
  legs = sum(ranks)
  N = len(ranks)
  dim, flat = {}, {}
  for k, (i, j) in enumerate(match):
    dim[i] = dim[j] = dims[k]
    # labels deliberately neither contiguous nor in leg order
    flat[i] = flat[j] = (7 * (k + 3)) % 11 + 1
  k = len(match)
  op = 0
  for i in range(legs):
    if i not in dim:
      dim[i] = dims[k]
      k += 1
      op += 1
      flat[i] = -op
  labels, shapes, pos = [], [], 0
  for r in ranks:
    labels.append([flat[pos + a] for a in range(r)])
    shapes.append(tuple(dim[pos + a] for a in range(r)))
    pos += r
  tensors = [netx.data(s, n) for n, s in enumerate(shapes)]
  keep = [t.copy() for t in tensors]
  pos_labels = sorted({l for la in labels for l in la if l > 0})
  # reference tensor
  sym = {l: n for n, l in enumerate(sorted({x for la in labels for x in la}))}
  args = []
  for t, la in zip(tensors, labels):
    args += [t, [sym[l] for l in la]]
  args.append([sym[l] for l in sorted((l for l in sym if l < 0), reverse=True)])
  ref = np.einsum(*args)

  L = ncon_to_adj(tensors, labels)
  exp = np.zeros((N, N))
  for a in range(N):
    for b in range(N):
      if a != b:
        exp[a, b] = sum(math.log10(dim_of(l, labels, shapes)) for l in set(labels[a]) & set(labels[b]))
      else:
        exp[a, a] = sum(math.log10(d) for l, d in zip(labels[a], shapes[a]) if l < 0)
  if L.shape != (N, N) or np.abs(L - exp).max() > TOL:
    raise Violation("adjacency", f"{labels} {shapes}: {L.tolist()}")
  rec.step()

  def contract(order):
    out = tn.ncon(tensors, labels, con_order=[int(x) for x in order] if len(order) else None)
    if np.shape(out) != ref.shape or np.abs(np.asarray(out) - ref).max() > 1e-9:
      raise Violation("contract", f"order {order} gives another tensor: {labels}")
    rec.validated()

  for mb in (None, 1, 3):
    order, cost, opt = ncon_solver(tensors, labels, **({} if mb is None else {"max_branch": mb}))
    rec.step()
    if sorted(float(x) for x in order) != [float(x) for x in pos_labels]:
      raise Violation("solver:labels", f"{list(order)} for {labels}")
    lo, mid = minimum(L, True), minimum(L, False)
    if cost < lo - TOL or (mb is None and cost > mid + TOL):
      raise Violation("solver:cost", f"{cost} not in [{lo},{mid}] {labels} {shapes}")
    contract(order)
    chk = ncon_cost_check(tensors, labels, list(order) if len(order) else None)
    parts = check_cost(chk, shapes, labels, order, "cost-check")
    # one pair at a time with non-trivial bonds only: all costs are the same number
    triv = any(dim_of(l, labels, shapes) == 1 for l in pos_labels)
    if mb is None and not triv and parts <= 2 and lo > mid - TOL and not same(chk, cost) and N > 1:
      raise Violation("solver:cost-check", f"solver {cost}, check {chk} {labels} {shapes} {order}")
    if any((a != b).any() for a, b in zip(keep, tensors)):
      raise Violation("input-modified", "ncon_solver")
    rec.outcome("solver:" + ("optimal" if opt else "bounded"))
  if ncon_cost_check(tensors, labels) is None:
    raise Violation("cost-check:default", "")
  d = ncon_cost_check(tensors, [tuple(l) for l in labels])
  check_cost(d, shapes, labels, pos_labels, "cost-check:default")
  orders = list(itertools.permutations(pos_labels))
  for o in orders[:120]:
    c = ncon_cost_check(tensors, labels, list(o))
    rec.step()
    check_cost(c, shapes, labels, o, "cost-check")
  if N:
    for s in sequences(N):
      o = ord_to_ncon(labels, np.array(s, dtype=int).reshape(-1, 2).T)
      rec.step()
      if sorted(float(x) for x in o) != [float(x) for x in pos_labels]:
        raise Violation("convert:labels", f"{s} -> {list(o)} for {labels}")
      # the labels come in the order in which the pairs share them
      groups = [set(l for l in la if la.count(l) == 1) for la in labels]
      exp_blocks = [set(l for la in labels for l in la if la.count(l) == 2)]
      for a, b in s:
        exp_blocks.append(groups[a] & groups[b])
        groups[a] = groups[a] ^ groups[b]
        del groups[b]
      rest = [int(x) for x in o]
      for blk in exp_blocks:
        if set(rest[:len(blk)]) != blk:
          raise Violation("convert:order", f"{s} -> {list(o)} for {labels}")
        rest = rest[len(blk):]
      rec.state((str(labels), s))
    contract(o)


def dim_of(l, labels, shapes):
  for la, sh in zip(labels, shapes):
    if l in la:
      return sh[la.index(l)]


def big_edges(shape, N):
  if shape == "chain":
    return [(i, i + 1) for i in range(N - 1)]
  if shape == "ring":
    return [(i, (i + 1) % N) for i in range(N)]
  if shape == "star":
    return [((i * 3 + 1) % N, 0) if (i * 3 + 1) % N else (1, 2) for i in range(N)]
  if shape == "tree":
    return [((i - 1) // 2, i) for i in range(1, N)]
  if shape == "grid":
    w = 3 if N < 12 else 4
    return [(i, i + 1) for i in range(N - 1) if (i + 1) % w] + [(i, i + w) for i in range(N - w)]
  if shape == "ladder":
    return [(i, i + 2) for i in range(N - 2)] + [(i, i + 1) for i in range(0, N - 1, 2)]
  if shape == "complete":
    return list(itertools.combinations(range(min(N, 6)), 2))
  if shape == "pairs":
    return [(i, N - 1 - i) for i in range(N // 2)]
  return [(i, i + 1) for i in range(N // 2 - 1)] + [(N // 2 + i, N // 2 + i + 1) for i in range(N - N // 2 - 1)] + [
      (i, i + N // 2) for i in range(N // 2)]


def big(desc, rec):
  """Larger networks: validity and cost of the greedy orders, the full search on up
  to eight tensors, and the ncon front end with the tensors it is meant for."""
  N, shape = desc["N"], desc["shape"]
  edges = sorted({tuple(sorted(e)) for e in big_edges(shape, N)})
  for pat, (ds, ext) in enumerate((((2,), (1,)), ((2, 3, 5, 2, 7), (1, 2)), ((1, 4, 2), (3, 1, 1)), ((10, 2, 2, 3), (2, 1, 5, 1)))):
    L = np.zeros((N, N))
    for k, (a, b) in enumerate(edges):
      L[a, b] = L[b, a] = math.log10(ds[(k * 3 + pat) % len(ds)])
    for a in range(N):
      L[a, a] = math.log10(ext[(a * 2 + pat) % len(ext)])
    for f in (greedy_size_solve, greedy_cost_solve):
      before = L.copy()
      o, c = f(L)
      rec.step()
      t = replay(o, L)
      if not same(t, c) or (before != L).any():
        raise Violation(f"{f.__name__}:cost", f"{desc} pattern {pat}: reported {c}, order costs {t}: {np.asarray(o).tolist()}")
      rec.validated()
    if N <= 7:
      lo = minimum(L, True)
      mid = minimum(L, False)
      for kw in ({"max_branch": 1}, {"max_branch": 3}, {"max_branch": 50}, {"max_branch": 200, "cost_bound": 1e4}) + (
          ({"max_branch": None},) if N == 6 else ()):
        o, c, opt = full_solve_complete(L, **kw)
        rec.step()
        t = replay(o, L)
        w = f"{desc} pattern {pat} {kw}: {np.asarray(o).tolist()}"
        if not same(t, c):
          raise Violation("full:cost", f"reported {c}, order costs {t}: {w}")
        if c < lo - TOL:
          raise Violation("full:impossible", f"{c} below the minimum {lo}: {w}")
        g = min(replay(f(L)[0], L) for f in (greedy_size_solve, greedy_cost_solve))
        if c > g + TOL:
          raise Violation("full:worse-than-greedy", f"{c} {g}: {w}")
        if mid is not None and (opt or kw["max_branch"] is None) and c > mid + TOL:
          raise Violation("full:not-minimal", f"returned {c}, cheapest order costs {mid}: {w}")
        rec.validated()
    rec.state((shape, N, pat))
    # the same network as tensors
    labels, shapes = [[] for _ in range(N)], [[] for _ in range(N)]
    for k, (a, b) in enumerate(edges):
      d = min(3, ds[(k * 3 + pat) % len(ds)]) if N > 8 else ds[(k * 3 + pat) % len(ds)]
      d = d if shape != "complete" else min(2, d)
      for x in ((a, b), (b, a))[k % 2]:
        at = (k * 5 + x) % (len(labels[x]) + 1)
        labels[x].insert(at, (k * 7) % 101 + 1)
        shapes[x].insert(at, d)
    for n, x in enumerate((0, N // 2, N - 1)):
      labels[x].append(-n - 1)
      shapes[x].append(2)
    tensors = [netx.data(tuple(s), n) / 2 for n, s in enumerate(shapes)]
    sym = {l: n for n, l in enumerate(sorted({x for la in labels for x in la}))}
    args = []
    for t, la in zip(tensors, labels):
      args += [t, [sym[l] for l in la]]
    ref = np.einsum(*args, [sym[-1], sym[-2], sym[-3]], optimize="greedy")
    pos = sorted(l for l in sym if l > 0)
    for kw in ({"max_branch": 1}, {"max_branch": 20}):
      order, cost, _ = ncon_solver(tensors, labels, **kw)
      rec.step()
      w = f"{desc} pattern {pat} {kw}: {list(order)}"
      if sorted(float(x) for x in order) != [float(x) for x in pos]:
        raise Violation("solver:labels", w)
      out = np.asarray(tn.ncon(tensors, labels, con_order=[int(x) for x in order]))
      if out.shape != ref.shape or np.abs(out - ref).max() > 1e-9 * max(1, np.abs(ref).max()):
        raise Violation("contract", f"{w} gives another tensor")
      chk = ncon_cost_check(tensors, labels, list(order))
      if shape == "pairs" or shape == "complete" and N > 6:
        continue
      n = check_cost(chk, [tuple(s) for s in shapes], labels, order, "cost-check")
      if n == 1 and not any(dim_of(l, labels, shapes) == 1 for l in pos) and not same(chk, cost):
        raise Violation("solver:cost-check", f"solver {cost}, check {chk}: {w}")
      rec.validated()


def run_case(desc, rec):
  if desc["k"] == "big":
    big(desc, rec)
    return
  if desc["k"] == "adj":
    adj(desc, rec)
  else:
    ncon_case(desc, rec)

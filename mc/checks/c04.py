"""C04: ncon computes the labelled sum for every valid labelling and order."""
import copy
import itertools
import numpy as np
import tensornetwork as tn
from mc import netx

TITLE = "ncon against the direct labelled sum"
LEVEL = "model_checking"
RULE = ("every assignment of labels to the legs of the listed tensor ranks (set "
        "partitions of the legs x open/closed per block: contracted, traced, "
        "repeated, batch, diagonal, summed, outer-product and scalar cases) x "
        "spellings (integers, renumbered, strings, mixed) x contraction orders "
        "x output orders x containers x backends; each result is compared with "
        "one einsum; every single-rule corruption of a labelling must raise "
        "ValueError and leave the inputs alone")
ASSUMPTIONS = ["numpy.einsum is the meaning of a labelling"]
BOUNDS = {
    "quick": "41 networks of up to 27 tensors, 38 labels, 13 legs; all labellings of <=3 tensors, <=6 legs (numpy), <=4 legs (jax, tensorflow), all "
             "contraction orders of <=3 labels, all output orders of <=3 labels",
    "thorough": "<=4 tensors, <=7 legs (numpy), <=5 legs (jax, tensorflow)",
}

RANKS = {
    "quick": [(0,), (1,), (2,), (3,), (4,), (5,), (0, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2),
              (3, 1), (3, 2), (2, 3), (3, 3), (4, 1), (4, 2), (1, 1, 1), (2, 1, 1), (1, 2, 1),
              (2, 2, 1), (2, 2, 2), (3, 2, 1), (1, 0, 1), (1, 1, 1, 1), (2, 2, 1, 1)],
    "thorough": [(6,), (4, 3), (5, 2), (3, 3, 1), (3, 2, 2), (1, 3, 2), (2, 2, 2, 1),
                 (3, 1, 1, 1), (1, 1, 1, 1, 1), (2, 1, 1, 1, 1), (1, 2, 2, 2)],
}
DIMS = [2, 3, 2, 1, 3, 2, 2]


def wide_nets():
  """Labellings with more than ten labels, tensors or axes (name, ids, open blocks)."""
  for n in (2, 5, 10, 11, 12, 27):
    for ring in (0, 1):
      for hang in (0, 1):
        # bond i joins tensor i and i+1; open leg of every tensor up to the tenth
        ids, opened, nxt = [], [], n
        for i in range(n):
          l = []
          if i or ring:
            l.append((i - 1) % n)
          if hang and i < 11:
            l.insert(i % 2, nxt)
            opened.append(nxt)
            nxt += 1
          if i < n - 1 or ring:
            l.append(i)
          ids.append(l)
        yield f"chain{n}{ring}{hang}", ids, opened
  for n in (10, 11, 12):
    yield f"star{n}", [list(range(n))] + [[i] for i in range(n)][::-1], []
    yield f"openstar{n}", [list(range(n))] + [[i, n + i] for i in range(n)], list(
        range(n, 2 * n))
    p = [(5 * i + 3) % 11 for i in range(n - 1)] if n == 12 else list(range(n - 1))[::-1]
    yield f"parallel{n}", [[11] + list(range(len(p))), p + [12]], [11, 12]
    yield f"batch{n}", [[0, i + 1] for i in range(n)], list(range(n + 1))
    yield f"closedbatch{n}", [[0, i + 1] for i in range(n)], list(range(1, n + 1))
    yield f"outer{n}", [[i] for i in range(n)], list(range(n))[::-1]
    yield f"transpose{n}", [list(range(n))], [(7 * i + 2) % n for i in range(n)]
  yield "traces", [[0, 1, 2, 3, 4, 5, 0, 1, 6, 2, 3, 5, 4]], [6]
  yield "traces2", [[0, 1, 2, 0, 7, 3], [4, 1, 5, 4, 2, 6, 5]], [7, 3, 6]
  yield "tree", [[0, 1], [0, 2, 3], [1, 4, 5], [2, 6, 7], [3, 8, 9], [4, 10, 11],
                 [5, 12, 13]], list(range(6, 14))
  yield "grid", [[0, 3], [0, 1, 4], [1, 5], [3, 6, 8], [4, 6, 7, 9], [5, 7, 10],
                 [8, 11], [9, 11, 12], [10, 12]], []
  yield "parts", [[0, 1], [1, 0], [2, 3], [3, 4], [5], [6, 6], [], [7, 8, 9], [9, 8]], [2, 4, 5, 7]


def wide(name, backend, rec):
  for nm, ids, opened in wide_nets():
    if nm != name:
      continue
    rec.state()
    k = max(max(l) for l in ids if l) + 1
    dims = [(2, 2, 3, 1, 2, 2, 2, 1)[b % 8] for b in range(k)]
    if name.startswith(("open", "parallel", "outer", "transpose", "batch", "star")):
      dims = [1 if d == 3 else d for d in dims]
    arrays = [netx.data(tuple(dims[b] for b in l), n, n % 3 == 0 and backend != "tensorflow")
              for n, l in enumerate(ids)]
    arrays = [a / max(1., np.linalg.norm(a)) for a in arrays]
    signs = [-1 if b in opened else 1 for b in range(k)]
    used = {b for l in ids for b in l}
    closed = [b for b in range(k) if b not in opened and b in used]
    for which in ("int", "rint", "str", "mix"):
      if which in ("str", "mix"):
        names = ["ba9Z1Ac2B8"[b % 10] + "x10a"[b % 4] + str(b * 7 % 10) + str(b) for b in range(k)]
        lab = [("-" if s < 0 else "") + names[b] if which == "str" or b % 2 else s * (b * 3 + 1)
               for b, s in enumerate(signs)]
      else:
        lab = spellings(k, signs, which)
      ns = [[lab[b] for b in l] for l in ids]
      inv = {lab[b]: b for b in used}
      dout = [inv[l] for l in default_order([lab[b] for b in opened])]
      runs = [(None, None), (closed, None), (closed[::-1], None),
              (closed[1::2] + closed[::2], opened[1::2] + opened[::2]), (None, opened[::-1]),
              (None, sorted(opened))]
      for co, oo in runs[:2] if backend != "numpy" else runs:
        kw = {}
        if co is not None and closed:
          kw["con_order"] = [lab[b] for b in co]
        if oo is not None and opened:
          kw["out_order"] = [lab[b] for b in oo]
        out = dout if oo is None else list(oo)
        args = []
        for a, l in zip(arrays, ids):
          args += [a, l]
        ref = np.einsum(*args, out, optimize="greedy")
        check(arrays, ns, kw, backend, ref, rec, "wide")
    if backend == "numpy":
      lab = spellings(k, signs, "int")
      ns = [[lab[b] for b in l] for l in ids]
      args = []
      for a, l in zip(arrays, ids):
        args += [a, l]
      builder(arrays, ns, np.einsum(*args, sorted(opened), optimize="greedy"), rec)


def partitions(n):
  def rec(i, blocks):
    if i == n:
      yield tuple(blocks)
      return
    for b in range((max(blocks) + 1 if blocks else 0) + 1):
      yield from rec(i + 1, blocks + [b])
  yield from rec(0, [])


def structures(ranks):
  n = sum(ranks)
  for p in partitions(n):
    k = max(p) + 1 if p else 0
    for signs in itertools.product((1, -1), repeat=k):
      yield p, signs


def cases(tier):
  rl = RANKS["quick"] + (RANKS["thorough"] if tier == "thorough" else [])
  for ranks in rl:
    n = sum(ranks)
    chunks = 1 if n < 5 else 12 if n == 5 else 48 if n == 6 else 200
    for c in range(chunks):
      yield {"ranks": ranks, "chunk": [c, chunks], "backend": "numpy"}
  for nm, ids, _ in wide_nets():
    yield {"wide": nm, "backend": "numpy"}
    if nm[-2:] in ("10", "27", "ts", "ee", "id") or tier == "thorough":
      for b in ("jax", "tensorflow"):
        if b == "numpy" or max(len(l) for l in ids) < 8:
          yield {"wide": nm, "backend": b}
  lim = 5 if tier == "thorough" else 4
  for b in ("jax", "tensorflow"):
    for ranks in RANKS["quick"]:
      if sum(ranks) <= lim:
        chunks = 1 if sum(ranks) < 3 else 8
        for c in range(chunks):
          yield {"ranks": ranks, "chunk": [c, chunks], "backend": b}


def split(seq, ranks):
  out, pos = [], 0
  for r in ranks:
    out.append(list(seq[pos:pos + r]))
    pos += r
  return out


def spellings(k, signs, which):
  """label value of every block."""
  if which == "int":
    return [s * (i + 1) for i, s in enumerate(signs)]
  if which == "rint":
    return [s * (7 * (k - i) + 3) for i, s in enumerate(signs)]
  if which == "str":
    names = ["b", "A", "10", "9", "a2", "Z", "c"]
    return [("-" if s < 0 else "") + names[i] for i, s in enumerate(signs)]
  if which == "mix":
    names = ["b", "1", "A", "2", "a", "3", "c"]
    return [(("-" if s < 0 else "") + names[i]) if i % 2 == 0 else s * (4 - i if i < 4 else i + 9)
            for i, s in enumerate(signs)]
  if which == "npint":
    return [np.int64(s * (i + 1)) for i, s in enumerate(signs)]
  raise AssertionError


def default_order(labels):
  """documented default: integers first (descending for open labels, ascending
  for closed ones), then strings in ASCII order."""
  ints = [l for l in labels if not isinstance(l, str)]
  strs = [l for l in labels if isinstance(l, str)]
  return sorted(ints, key=abs) + sorted(strs)


def reference(arrays, ids, out):
  args = []
  for a, l in zip(arrays, ids):
    args += [a, l]
  return np.einsum(*args, out)


def run_case(desc, rec):
  if "wide" in desc:
    wide(desc["wide"], desc["backend"], rec)
    return
  ranks = tuple(desc["ranks"])
  backend = desc["backend"]
  c, chunks = desc["chunk"]
  for i, (p, signs) in enumerate(structures(ranks)):
    if i % chunks != c:
      continue
    one(ranks, p, signs, backend, rec)
  if c == 0:
    invalid(ranks, backend, rec)


def arrays_for(ranks, p, backend, cplx=False):
  dims = split([DIMS[b] for b in p], ranks)
  return [netx.data(tuple(d), n, cplx) for n, d in enumerate(dims)]


def one(ranks, p, signs, backend, rec):
  k = len(signs)
  ids = split(p, ranks)
  arrays = arrays_for(ranks, p, backend, cplx=(sum(p) % 3 == 0))
  rec.state()
  closed = [b for b in range(k) if signs[b] > 0]
  opened = [b for b in range(k) if signs[b] < 0]
  diag = any(len(set(l)) < len(l) for l in ids)
  small = backend == "numpy"
  for which in ("int", "rint", "str", "mix", "npint") if small else ("mix",):
    lab = spellings(k, signs, which)
    ns = [[lab[b] for b in l] for l in ids]
    inv = {lab[b]: b for b in range(k)}
    dout = [inv[l] for l in default_order([lab[b] for b in opened])]
    runs = [(None, None)]
    if which in ("int", "mix"):
      if small:
        cons = (list(itertools.permutations(closed)) if len(closed) <= 3 else
                [tuple(closed), tuple(closed[::-1]), tuple(closed[1:] + closed[:1])])
        outs = (list(itertools.permutations(opened)) if len(opened) <= 3 else
                [tuple(opened[::-1]), tuple(opened[1:] + opened[:1])])
      else:
        cons, outs = [tuple(closed[::-1])], [tuple(opened[::-1])]
      for co in cons:
        runs.append((co, None))
      for oo in outs:
        runs.append((None, oo))
      if cons and outs:
        runs.append((cons[-1], outs[-1]))
    for co, oo in runs:
      kw = {}
      if co is not None:
        kw["con_order"] = [lab[b] for b in co]
      if oo is not None:
        kw["out_order"] = [lab[b] for b in oo]
      out = dout if oo is None else list(oo)
      ref = reference(arrays, ids, out)
      check(arrays, ns, kw, backend, ref, rec, which)
  if small:
    lab = spellings(k, signs, "int")
    ns = [[lab[b] for b in l] for l in ids]
    ref = reference(arrays, ids, sorted(opened))
    for cont in ("tuple", "tensor", "mixed", "nocheck"):
      check(arrays, ns, {}, backend, ref, rec, cont, cont)
    if all(len(l) for l in ids) or True:
      builder(arrays, ns, ref, rec)


def builder(arrays, ns, ref, rec):
  b = None
  for a, l in zip(arrays, ns):
    t = tn.Tensor(a, backend="numpy")
    nb = t(*l)
    b = nb if b is None else b @ nb
  rec.step()
  r = tn.finalize(b)
  if not isinstance(r, tn.Tensor) or not netx.same(ref, np.asarray(r.array)):
    rec.fail("builder", f"{[a.shape for a in arrays]} {ns}")


def check(arrays, ns, kw, backend, ref, rec, tag, container="list"):
  rec.step()
  rec.outcome(tag)
  ts = [a.copy() for a in arrays]
  keep = list(ts)
  arg, nsa = list(ts), copy.deepcopy(ns)
  if container == "tuple":
    arg, nsa = tuple(arg), tuple(tuple(l) for l in nsa)
    kw = {x: tuple(y) for x, y in kw.items()}
  elif container == "tensor":
    arg = [tn.Tensor(a, backend=backend) for a in arg]
  elif container == "mixed":
    arg = [tn.Tensor(a, backend=backend) if i % 2 else a for i, a in enumerate(arg)]
  elif container == "nocheck":
    kw = dict(kw, check_network=False)
  before = (copy.deepcopy(nsa), copy.deepcopy(kw), list(arg))
  where = f"ncon shapes={[a.shape for a in arrays]} {ns} {kw} backend={backend} {container}"
  kind = classify(ns)
  try:
    r = tn.ncon(arg, nsa, backend=backend, **kw)
  except Exception as ex:
    rec.fail(f"exception:{kind}:{type(ex).__name__}", f"{where}: {type(ex).__name__}: {str(ex)[:600]}")
    return
  if container == "tensor":
    if not isinstance(r, tn.Tensor):
      rec.fail("type", f"{where}: result is {type(r)}")
      return
    r = r.array
  elif isinstance(r, tn.Tensor):
    rec.fail("type", f"{where}: result is a Tensor")
    return
  if not netx.same(ref, np.asarray(r)):
    rec.fail(f"value:{kind}", f"{where}: expected\n{ref}\ngot\n{np.asarray(r)}")
    return
  if (before[0], before[1]) != (nsa, kw) or len(arg) != len(before[2]) or any(
      x is not y for x, y in zip(arg, before[2])) or any(
          not np.array_equal(x, y) for x, y in zip(keep, arrays)):
    rec.fail("inputs changed", where)
    return
  rec.validated()


def classify(ns):
  flat = [l for s in ns for l in s]
  neg = lambda l: l[0] == "-" if isinstance(l, str) else l < 0
  if any(len(set(s)) < len(s) and any(
      s.count(l) > 1 and (neg(l) or flat.count(l) > 2) for l in s) for s in ns):
    return "diagonal"
  if any(neg(l) and flat.count(l) > 1 for l in flat):
    return "openbatch"
  if any(flat.count(l) > 2 for l in flat):
    return "closedbatch"
  if any((not neg(l)) and flat.count(l) == 1 for l in flat):
    return "single"
  return "plain"


def invalid(ranks, backend, rec):
  """Every single-rule corruption of a valid labelling."""
  n = sum(ranks)
  if n == 0 or n > 4:
    return
  for p, signs in structures(ranks):
    ids = split(p, ranks)
    lab = spellings(len(signs), signs, "int")
    ns = [[lab[b] for b in l] for l in ids]
    arrays = arrays_for(ranks, p, backend)
    closed = [lab[b] for b in range(len(signs)) if signs[b] > 0]
    opened = [lab[b] for b in range(len(signs)) if signs[b] < 0]
    bad = []
    bad.append(("too few lists", arrays, ns[:-1], {}))
    bad.append(("too many lists", arrays, ns + [[1]], {}))
    for i, l in enumerate(ns):
      if l:
        bad.append(("short list", arrays, ns[:i] + [l[:-1]] + ns[i + 1:], {}))
        bad.append(("zero label", arrays, ns[:i] + [[0] + l[1:]] + ns[i + 1:], {}))
        for s in ("a b", "a_", "-", "--a", "-a!", "a-"):
          bad.append(("not alphanumeric", arrays, ns[:i] + [[s] + l[1:]] + ns[i + 1:], {}))
      bad.append(("long list", arrays, ns[:i] + [l + [77]] + ns[i + 1:], {}))
    if closed:
      for co in ([-x for x in closed], closed + closed[:1], closed[:-1] + [99], closed + [99],
                 ["-" + str(x) for x in closed], closed[:-1] + opened[:1]) + (
                     (closed[:-1],) if len(closed) > 1 else ()):
        if co:  # the empty list stands for the default
          bad.append(("con_order", arrays, ns, {"con_order": co}))
    if not closed:
      bad.append(("con_order", arrays, ns, {"con_order": [5]}))
    if opened:
      for oo in ([-x for x in opened], opened + opened[:1], opened[:-1] + [-99], opened + [-99],
                 [str(-x) for x in opened], opened[:-1] + closed[:1]) + (
                     (opened[:-1],) if len(opened) > 1 else ()):
        if oo:
          bad.append(("out_order", arrays, ns, {"out_order": oo}))
    else:
      bad.append(("out_order", arrays, ns, {"out_order": [-5]}))
    # one leg of a shared label gets another dimension
    legs = [(t, a) for t, r in enumerate(ranks) for a in range(r)]
    for (t, a), b in zip(legs, p):
      if p.count(b) > 1:
        for d in {1, DIMS[b] + 1} - {DIMS[b]}:
          sh = list(arrays[t].shape)
          sh[a] = d
          arr = list(arrays)
          arr[t] = netx.data(tuple(sh), t)
          bad.append(("dimension " + ("open" if signs[b] < 0 else "closed"), arr, ns, {}))
    for kind, arr, n2, kw in bad:
      before = copy.deepcopy((n2, kw))
      ts = [a.copy() for a in arr]
      rec.step()
      rec.outcome("invalid")
      where = f"{kind}: shapes={[a.shape for a in arr]} {n2} {kw} backend={backend}"
      try:
        r = tn.ncon(ts, n2, backend=backend, **kw)
        rec.fail(f"accepted:{kind}", f"{where} -> {np.asarray(r)}")
        continue
      except ValueError:
        pass
      except Exception as ex:
        rec.fail(f"wrong exception:{kind}:{type(ex).__name__}", f"{where}: {ex}")
        continue
      if before != (n2, kw) or any(not np.array_equal(x, y) for x, y in zip(ts, arr)):
        rec.fail("inputs changed", where)
      else:
        rec.validated()

"""C08: block-sparse operations against the same operations on dense arrays."""
import itertools
import numpy as np
import tensornetwork as tn
from tensornetwork import block_sparse as bs
from tensornetwork.block_sparse.blocksparsetensor import BlockSparseTensor, ChargeArray, compare_shapes
from tensornetwork.block_sparse.index import Index
from mc import bsx

TITLE = "block-sparse tensors against dense twins"
LEVEL = "model_checking"
RULE = ("every tensor of the listed groups, leg charges, flows and layouts; every "
        "history of transposes, regroupings, conjugations, copies, layout changes "
        "and scalings up to the stated depth; every sum, contraction (all ordered "
        "axis choices), outer product, trace and elementwise function of tensors "
        "reached by such histories: charges, flows, grouping, number of stored "
        "elements and every entry equal those of an explicit dense twin, and the "
        "arguments still equal theirs")
ASSUMPTIONS = ["storage layout of an argument may change as long as the tensor it denotes does not",
               "reshaping that needs to cut through an elementary leg is refused (documented)"]
BOUNDS = {
    "quick": "ranks <=4, leg dimensions <=3, histories of depth 2 on rank <=3 and depth 1 on rank 4; contractions of ranks <=3; three tensors above the 20000-element switch",
    "thorough": "histories of depth 3 on rank <=3 and 2 on rank 4; contractions of ranks <=4",
}
BOUNDS["quick"] += "; operands with 9-40 blocks, ranks 5-7, dtype and argument forms"
GROUPS = ["U", "2", "3", "U2", "UU3", "U2U3U"]


def lists(sym, which="main"):
  """A few charge lists that differ in length, repetition, order and content."""
  al = [tuple(bsx.ALPH[s][(k * (i + 1)) % len(bsx.ALPH[s])] for i, s in enumerate(sym))
        for k in range(4)]
  z, a, b, c = al[0], al[1], al[2], al[3]
  res = [[z], [a], [z, a], [a, z], [b, z], [a, a], [z, a, z], [a, b, z]]
  if which == "three":
    return [[a], [z, a], [b, z], [a, b, z]]
  if which == "four":
    return [[z, a], [a], [b, z, a]]
  if which == "two":
    return [[z, a], [b, z, a]]
  return res


def flowsets(r, few=0):
  fs = list(itertools.product((False, True), repeat=r))
  if few:
    fs = [f for f in fs if sum(f) in (r // 2, r - r // 2)]
    fs = fs[::max(1, len(fs) // few)][:few]
  return fs


def cases(tier):
  th = tier == "thorough"
  for sym in GROUPS:
    for r, which, depth, few in ((1, "main", 2, 0), (2, "four", 2, 0), (2, "main", 1, 0),
                                 (3, "two", 2, 4), (3, "three", 1, 2), (4, "two", 1, 2)):
      if not th and sym in ("3", "UU3") and (r, depth) in ((3, 2), (4, 1)):
        continue
      if th:
        which = {"two": "four", "four": "three", "three": "main"}.get(which, which) if r < 4 else "four"
        depth += 1 if r < 3 or which == "four" else 0
        few = 0 if r < 4 else 4
      ls = lists(sym, which)
      for legs in itertools.product(range(len(ls)), repeat=r):
        yield {"kind": "hist", "sym": sym, "r": r, "which": which, "legs": list(legs),
               "depth": depth, "few": few}
    for r in (1, 2, 3):
      which = ("three" if r == 3 else "main") if th else ("two" if r == 3 else "three")
      ls = lists(sym, which)
      for legs in itertools.product(range(len(ls)), repeat=r):
        yield {"kind": "add", "sym": sym, "which": which,
               "legs": list(legs), "th": th}
    top = 4 if th else 3
    for r1 in range(1, top + 1):
      for r2 in range(1, top + 1):
        if r1 + r2 > (7 if th else 6):
          continue
        for k in range(0, min(r1, r2) + 1):
          yield {"kind": "dot", "sym": sym, "r": [r1, r2], "k": k, "th": th}
    for legs in itertools.product(range(3), repeat=2):
      yield {"kind": "trace", "sym": sym, "legs": list(legs), "th": th}
    for r in (1, 2, 3):
      which = "main" if r == 1 else "three" if r == 2 else "four" if th else "two"
      ls = lists(sym, which)
      for legs in itertools.product(range(len(ls)), repeat=r):
        yield {"kind": "misc", "sym": sym, "which": which, "legs": list(legs)}
    yield {"kind": "net", "sym": sym, "th": th}
    yield {"kind": "refuse", "sym": sym}
  for n in range(3 if not th else 6):
    yield {"kind": "big", "n": n}
  for sym in ("U", "UU3", "U2"):
    for n in range(len(MANY)):
      yield {"kind": "many", "sym": sym, "n": n, "th": th}
  for sym in ("U", "2", "U2", "3") if th else ("U", "U2"):
    for r in (5, 6, 7):
      for v in range(6 if th else 4):
        yield {"kind": "rank", "sym": sym, "r": r, "v": v, "th": th}
  for sym in GROUPS:
    yield {"kind": "forms", "sym": sym}


def run_case(desc, rec):
  rec.outcome(desc["kind"])
  rec.outcome("group " + str(desc.get("sym")))
  globals()["k_" + desc["kind"]](desc, desc.get("sym"), rec)


def check(rec, t, m, sig, msg, tol=1e-10):
  rec.step()
  bad = bsx.compare(t, m, tol)
  if bad:
    rec.fail(f"{sig}: {bad.split()[0]}", f"{msg}: {bad}")
    return False
  rec.validated()
  return True


# ---------------------------------------------------------------- histories
def steps(m):
  """All operations applicable to a model: (name, library action, model action)."""
  n = len(m.groups)
  perms = [p for p in itertools.permutations(range(n)) if n > 0]
  for p in perms:
    yield f"T{p}", (lambda t, p=p: t.transpose(p)), (lambda m, p=p: m.transpose(p))
    if n > 1:
      yield f"S{p}", (lambda t, p=p: t.transpose(p, shuffle=True)), (lambda m, p=p: m.transpose(p))
  if n == 2:
    yield "T", (lambda t: t.T), (lambda m: m.transpose([1, 0]))
    yield "H", (lambda t: t.H), None
  total = sum(m.groups)
  dims = [len(q) for q in m.legs]
  for cut in range(2 ** (total - 1) if total > 1 else 0):
    groups, k = [], 1
    for i in range(total - 1):
      if cut >> i & 1:
        groups.append(k)
        k = 1
      else:
        k += 1
    groups.append(k)
    if groups == m.groups:
      continue
    shape, i, amb = [], 0, False
    for g in groups:
      shape.append(int(np.prod(dims[i:i + g])))
      i += g
    # a shape stands for several groupings when a leg has dimension one
    if tuple(shape) == m.shape:
      continue
    yield f"R{tuple(groups)}", (lambda t, s=tuple(shape): t.reshape(s)), \
        (lambda m, g=groups: m.regroup(g))
  yield "conj", (lambda t: t.conj()), (lambda m: m.conj())
  yield "contig", (lambda t: t.contiguous()), (lambda m: m)
  yield "contig!", (lambda t: (t.contiguous(inplace=True), t)[1]), (lambda m: m)
  yield "copy", (lambda t: t.copy()), (lambda m: m)
  yield "neg", (lambda t: -t), (lambda m: m.map(np.negative))
  yield "*2j", (lambda t: t * 2j), (lambda m: m.map(lambda a: a * 2j))
  yield "/4", (lambda t: t / 4), (lambda m: m.map(lambda a: a / 4))


def ambiguous(m):
  return any(len(q) == 1 for q in m.legs)


def regroup_as_read(t, m):
  """With legs of dimension one a shape has several groupings: any is allowed,
  as long as the shape and the charges of every elementary leg are right."""
  g = [len(c) for c in t.charges]
  r = m.regroup(g)
  return r if r.shape == m.shape else m


def k_hist(desc, sym, rec):
  ls = lists(sym, desc["which"])
  legs = [ls[i] for i in desc["legs"]]
  for flows in flowsets(desc["r"], desc["few"]):
    rec.state()
    reps = [["raw", "lab", "lab2"][(i + sum(flows)) % 3] for i in range(len(legs))]
    t0, m0 = bsx.make(sym, legs, flows, k=1, cplx=bool(sum(flows) % 2), rep=reps)
    if not check(rec, t0, m0, "fromdense", f"{sym} {legs} {flows}"):
      continue

    def go(t, m, left, path):
      for name, f, g in list(steps(m)):
        try:
          r = f(t)
        except Exception as ex:  # pylint: disable=broad-except
          if name[0] == "R" and ambiguous(m) and isinstance(ex, ValueError):
            rec.outcome("reshape refused")
            continue
          rec.fail(f"{name[:4]} raised", f"{sym} {legs} {flows} {path + [name]}: {type(ex).__name__}: {ex}")
          continue
        if name == "H":
          x = m.transpose([1, 0]).conj()
        else:
          x = g(m)
        if name[0] == "R" and ambiguous(m):
          x = regroup_as_read(r, x)
        if not check(rec, r, x, name[0] if name[0] in "TSR" else name,
                     f"{sym} {legs} {flows} {path + [name]}"):
          continue
        bad = bsx.compare(t, m)
        if bad:
          rec.fail(f"{name[:4]} changed its argument", f"{sym} {legs} {flows} {path + [name]}: {bad}")
          continue
        if left > 1 and name not in ("neg", "/4", "copy"):
          go(r, x, left - 1, path + [name])

    go(t0, m0, desc["depth"], [])


# ---------------------------------------------------------------- sums
def layout(sym, legs, flows, perm, k, cplx, rep="raw"):
  """The tensor with the given legs, stored in the order perm."""
  inv = np.argsort(perm)
  t, m = bsx.make(sym, [legs[i] for i in perm], [flows[i] for i in perm], k, cplx, rep)
  return t.transpose([int(i) for i in inv]), m.transpose([int(i) for i in inv])


def k_add(desc, sym, rec):
  ls = lists(sym, desc["which"])
  legs = [ls[i] for i in desc["legs"]]
  r = len(legs)
  perms = list(itertools.permutations(range(r)))
  for flows in flowsets(r, 0 if desc["th"] or r < 3 else 3):
    for p in perms:
      for q in perms:
        if p != perms[0] and not desc["th"] and q not in (perms[0], perms[-1]):
          continue
        for cplx in ((0, 0), (1, 0)) if p != q else ((0, 0), (0, 1)):
          rec.state()
          for name in ("+", "-"):
            a, ma = layout(sym, legs, flows, p, 1, cplx[0], "raw")
            b, mb = layout(sym, legs, flows, q, 2, cplx[1], "lab2")
            msg = f"{sym} {legs} {flows} layouts {p} {name} {q}"
            try:
              t = a + b if name == "+" else a - b
            except Exception as ex:  # pylint: disable=broad-except
              rec.fail("sum raised", f"{msg}: {type(ex).__name__}: {ex}")
              continue
            d = ma.dense + mb.dense if name == "+" else ma.dense - mb.dense
            check(rec, t, ma.map(lambda _, d=d: d), "sum", msg)
            check(rec, a, ma, "sum changed its first argument", msg)
            check(rec, b, mb, "sum changed its second argument", msg)
            # fused
            if r > 1 and (name == "+" or desc["th"]):
              a, ma = layout(sym, legs, flows, p, 1, cplx[0])
              b, mb = layout(sym, legs, flows, q, 2, cplx[1])
              if not ambiguous(ma):
                sh = (len(legs[0]), int(np.prod([len(x) for x in legs[1:]])))
                a2, b2 = a.reshape(sh), b.reshape(sh)
                m2 = ma.regroup([1, r - 1])
                t = a2 + b2 if name == "+" else a2 - b2
                check(rec, t, m2.map(lambda _, d=d: d), "fused sum", msg)
                check(rec, b2, mb.regroup([1, r - 1]), "fused sum changed argument", msg)
          # compare_shapes
          a, ma = layout(sym, legs, flows, p, 1, 0)
          b, mb = layout(sym, legs, flows, p, 2, 0, "lab2")
          if not compare_shapes(a, b):
            rec.fail("compare_shapes", f"{sym} {legs} {flows} {p}")
    # what must be refused
    t, _ = bsx.make(sym, legs, flows)
    other = [x for x in lists(sym) if len(x) == len(legs[0]) and x != legs[0]]
    bad = [bsx.make(sym, legs, [not flows[0]] + list(flows[1:]))[0]]
    if other:
      bad.append(bsx.make(sym, [other[0]] + legs[1:], flows)[0])
    bad.append(bsx.make(sym, legs + [legs[0]], list(flows) + [True])[0])
    for b in bad:
      for f in (lambda: t + b, lambda: t - b, lambda: b - t):
        try:
          f()
          rec.fail("mismatched sum accepted", f"{sym} {legs} {flows} with {[bsx.read(c) for c in b.flat_charges]} {b.flat_flows}")
        except ValueError:
          rec.step()


# ---------------------------------------------------------------- contractions
def k_dot(desc, sym, rec):
  r1, r2 = desc["r"]
  k = desc["k"]
  big = r1 + r2 > 5
  ls = lists(sym, "three" if not big else "two")
  n = len(ls)
  cnt = 0
  for ax1 in itertools.permutations(range(r1), k):
    for ax2 in itertools.permutations(range(r2), k):
      if k > 1 and not desc["th"] and list(ax1) != sorted(ax1) and list(ax2) != sorted(ax2):
        continue
      for seed in range(4 if not big else 2):
        cnt += 1
        # a fixed spread of leg charges and flows over the seeds
        legs1 = [ls[(i * (seed + 1) + seed) % n] for i in range(r1)]
        flows1 = [bool((seed + i * (cnt % 2 + 1)) % 2) for i in range(r1)]
        legs2 = [ls[(i * (seed + 2) + 1) % n] for i in range(r2)]
        flows2 = [bool((seed // 2 + i + cnt) % 2) for i in range(r2)]
        for a, b in zip(ax1, ax2):
          legs2[b] = legs1[a]
          flows2[b] = not flows1[a]
        one_dot(desc, sym, rec, legs1, flows1, legs2, flows2, ax1, ax2, seed, cnt)


def one_dot(desc, sym, rec, legs1, flows1, legs2, flows2, ax1, ax2, seed, cnt):
  r1, r2, k = len(legs1), len(legs2), len(ax1)
  rec.state()
  f1 = [i for i in range(r1) if i not in ax1]
  f2 = [i for i in range(r2) if i not in ax2]
  p1s = list(itertools.permutations(range(r1)))
  p2s = list(itertools.permutations(range(r2)))
  if not desc["th"] or r1 + r2 > 6:
    p1s = [p1s[0], p1s[-1], p1s[cnt % len(p1s)]]
    p2s = [p2s[0], p2s[(cnt // 2) % len(p2s)]]
  for p1 in dict.fromkeys(p1s):
    for p2 in dict.fromkeys(p2s):
      cplx = [(0, 0), (1, 0), (0, 1), (1, 1)][(cnt + len(p1)) % 4]
      a, ma = layout(sym, legs1, flows1, p1, 1, cplx[0], ["raw", "lab", "lab2"][cnt % 3])
      b, mb = layout(sym, legs2, flows2, p2, 2, cplx[1], ["lab2", "raw"][cnt % 2])
      msg = f"{sym} {legs1}{flows1}{p1} . {legs2}{flows2}{p2} axes {ax1} {ax2} cplx {cplx}"
      d = np.tensordot(ma.dense, mb.dense, (list(ax1), list(ax2)))
      m = bsx.Model(sym, [legs1[i] for i in f1] + [legs2[i] for i in f2],
                    [flows1[i] for i in f1] + [flows2[i] for i in f2], [1] * (len(f1) + len(f2)), d)
      try:
        t = bs.tensordot(a, b, (list(ax1), list(ax2)))
      except Exception as ex:  # pylint: disable=broad-except
        rec.fail("tensordot raised", f"{msg}: {type(ex).__name__}: {ex}")
        continue
      if m.legs:
        check(rec, t, m, "tensordot", msg)
      elif t.ndim != 0 or not bsx.same(np.asarray(t.item()), d):
        rec.fail("inner product", f"{msg}: {t.item()} expected {d}")
      if np.result_type(a.dtype, b.dtype) != t.dtype:
        rec.fail("tensordot dtype", f"{msg}: {t.dtype}")
      check(rec, a, ma, "tensordot changed its first argument", msg)
      check(rec, b, mb, "tensordot changed its second argument", msg)
      # the other spellings of the axes
      if k and list(ax1) == list(range(r1 - k, r1)) and list(ax2) == list(range(k)):
        check_item(rec, bs.tensordot(a, b, k), m, d, "tensordot int", msg)
        if k == 1 and r1 <= 2 and r2 <= 2:
          check_item(rec, a @ b, m, d, "matmul", msg)
      if k == 0:
        check_item(rec, bs.tensordot(a, b, 0), m, d, "tensordot 0", msg)
        check_item(rec, bs.outerproduct(a, b), m, d, "outerproduct", msg)
      if k == 1 and list(ax1) == list(ax2):
        check_item(rec, bs.tensordot(a, b, list(ax1)), m, d, "tensordot list", msg)
      if k:
        check_item(rec, bs.tensordot(a, b, (np.array(ax1), np.array(ax2))), m, d, "tensordot arrays", msg)
        # negative axes: the dense answer or a refusal, nothing else
        for n1, n2 in (([x - r1 for x in ax1], list(ax2)), (list(ax1), [x - r2 for x in ax2])):
          try:
            t = bs.tensordot(a, b, (n1, n2))
          except Exception:  # pylint: disable=broad-except
            rec.outcome("negative axes refused")
            continue
          check_item(rec, t, m, d, "tensordot negative", msg + f" {n1} {n2}")
      # fused contraction of neighbouring axes
      if k == 2 and ax1[1] == ax1[0] + 1 and ax2[1] == ax2[0] + 1 and not ambiguous(ma) and not ambiguous(mb):
        g1 = [1] * ax1[0] + [2] + [1] * (r1 - ax1[0] - 2)
        g2 = [1] * ax2[0] + [2] + [1] * (r2 - ax2[0] - 2)
        a2, b2 = a.reshape(ma.regroup(g1).shape), b.reshape(mb.regroup(g2).shape)
        check_item(rec, bs.tensordot(a2, b2, ([ax1[0]], [ax2[0]])), m, d, "fused tensordot", msg)
      if len(f1) == 2 and f1[1] == f1[0] + 1 and k and not ambiguous(ma):
        g1 = [1] * f1[0] + [2] + [1] * (r1 - f1[0] - 2)
        a2 = a.reshape(ma.regroup(g1).shape)
        x1 = [x if x < f1[0] else x - 1 for x in ax1]
        check_item(rec, bs.tensordot(a2, b, (x1, list(ax2))), m.regroup([2] + [1] * len(f2)), d,
                   "fused free legs", msg)


def check_item(rec, t, m, d, sig, msg):
  if m.legs:
    check(rec, t, m, sig, msg)
  elif t.ndim != 0 or not bsx.same(np.asarray(t.item()), d):
    rec.fail(sig, f"{msg}: {t.item()} expected {d}")


def k_refuse(desc, sym, rec):
  """Contractions over legs that do not match are refused."""
  ls = lists(sym)
  for q1 in ls:
    for q2 in ls:
      for f1, f2 in itertools.product((False, True), repeat=2):
        a, ma = bsx.make(sym, [q1, ls[2]], [f1, True])
        b, mb = bsx.make(sym, [ls[3], q2], [False, f2])
        ok = q1 == q2 and f1 != f2
        rec.state()
        rec.step()
        for name, f in (("tensordot", lambda: bs.tensordot(a, b, ([0], [1]))),
                        ("ncon", lambda: tn.ncon([a, b], [[1, -1], [-2, 1]], backend="symmetric"))):
          try:
            f()
            if not ok:
              rec.fail(name + " accepted", f"{sym} {q1} {f1} with {q2} {f2}")
          except ValueError:
            if ok:
              rec.fail(name + " refused", f"{sym} {q1} {f1} with {q2} {f2}")
        rec.validated()
  a, _ = bsx.make(sym, [ls[2], ls[2]], [True, False])
  b = a.conj()
  for axes in (([0], [0, 1]), ([0, 1, 0], [0, 1, 0]), ([2], [0]), ([0], [2]), [0, 1],
               ([0, 0], [0, 0]), ([0, 0], [0, 1]), ([-3], [0]), ([0], [-3]), ([0, -2], [0, 0])):
    try:
      bs.tensordot(a, b, axes)
      rec.fail("bad axes accepted", f"{axes}")
    except (ValueError, IndexError):
      rec.step()
  for order in ([0, 0], [0], [0, 1, 1], [0, 2]):
    try:
      a.transpose(order).todense()
      rec.fail("bad order accepted", f"{order}")
    except (ValueError, IndexError):
      rec.step()


# ---------------------------------------------------------------- traces
def k_trace(desc, sym, rec):
  ls = lists(sym, "three")
  q, o = ls[desc["legs"][0]], ls[desc["legs"][1]]
  # one traced pair among up to two further legs, in every position and layout
  for n in (0, 1, 2) if desc["th"] or sym in ("U", "U2", "U2U3U") else (0, 1):
    for i, j in itertools.permutations(range(n + 2), 2):
      for f in (False, True):
        legs, flows = [None] * (n + 2), [None] * (n + 2)
        legs[i], flows[i], legs[j], flows[j] = q, f, q, not f
        rest = [x for x in range(n + 2) if x not in (i, j)]
        for c, x in enumerate(rest):
          legs[x], flows[x] = [o, ls[0]][c], bool(c)
        ps = list(itertools.permutations(range(n + 2)))
        if n == 2 and not desc["th"]:
          ps = ps[(i + j) % 6::6]
        for p in ps:
          rec.state()
          t, m = layout(sym, legs, flows, p, 1, f, "lab2")
          msg = f"{sym} trace {legs} {flows} axes {(i, j)} layout {p}"
          d = np.trace(m.dense, axis1=i, axis2=j)
          mm = bsx.Model(sym, [legs[x] for x in rest], [flows[x] for x in rest], [1] * n, d)
          got = bs.trace(t, (i, j))
          if n:
            check(rec, got, mm, "trace", msg)
          elif not bsx.same(np.asarray(got), d):
            rec.fail("full trace", f"{msg}: {got} expected {d}")
          check(rec, t, m, "trace changed its argument", msg)
          if n == 1:
            check(rec, bs.trace(t, (i - 3, j - 3)), mm, "trace negative", msg)
          if (i, j) == (n, n + 1):
            got = bs.trace(t)
            if n:
              check(rec, got, mm, "default trace", msg)
            elif not bsx.same(np.asarray(got), d):
              rec.fail("default trace", f"{msg}: {got} expected {d}")
  # traces over fused legs
  for f in itertools.product((False, True), repeat=2):
    for extra in (0, 1) if desc["th"] or len(sym) < 3 else (0,):
      for pos in range(extra + 1):
        legs = [q, o, q, o]
        flows = [f[0], f[1], not f[0], not f[1]]
        groups = [2, 2]
        ax = [0, 1]
        if extra:
          legs.insert(2 * pos, ls[1])
          flows.insert(2 * pos, True)
          groups.insert(pos, 1)
          ax = [[1, 2], [0, 2]][pos]
        for p in itertools.permutations(range(len(legs))):
          if not desc["th"] and len(legs) == 5 and (p[0] not in (0, 4) or p[1] > p[2] or p[3] > p[4]):
            continue
          t, m = layout(sym, legs, flows, p, 1, False)
          if ambiguous(m):
            continue
          m = m.regroup(groups)
          t = t.reshape(m.shape)
          msg = f"{sym} fused trace {legs} {flows} {groups} axes {ax} layout {p}"
          rec.state()
          d = np.trace(m.value(), axis1=ax[0], axis2=ax[1])
          got = bs.trace(t, ax)
          if extra:
            check(rec, got, bsx.Model(sym, [ls[1]], [True], [1], d), "fused trace", msg)
          elif not bsx.same(np.asarray(got), d):
            rec.fail("fused trace", f"{msg}: {got} expected {d}")
  # three elementary legs on either side, in every storage order
  if desc["legs"] == [1, 2] or desc["th"]:
    tri = [ls[1], ls[2], ls[1][::-1]]
    if not any(len(x) == 1 for x in tri):
      for n, p in enumerate(itertools.permutations(range(6))):
        if not desc["th"] and n % 3:
          continue
        t, m = layout(sym, tri * 2, [True, False, False, False, True, True], p, 1, False)
        m = m.regroup([3, 3])
        t = t.reshape(m.shape)
        rec.state()
        rec.step()
        got, d = bs.trace(t), np.trace(m.value())
        if not bsx.same(np.asarray(got), d):
          rec.fail("fused trace", f"{sym} {tri} layout {p}: {got} expected {d}")
  # mismatches
  t, m = bsx.make(sym, [q, q], [True, True])
  for bad in (t, bsx.make(sym, [q, lists(sym)[6]], [True, False])[0], bsx.make(sym, [q], [True])[0]):
    if bad is not t and bad.ndim == 2 and q == lists(sym)[6]:
      continue
    try:
      bs.trace(bad)
      rec.fail("bad trace accepted", f"{sym} {q}")
    except ValueError:
      rec.step()


# ---------------------------------------------------------------- the rest
def k_misc(desc, sym, rec):
  ls = lists(sym, desc["which"])
  legs = [ls[i] for i in desc["legs"]]
  r = len(legs)
  for flows in flowsets(r):
    idx = lambda: [bsx.index(sym, q, f) for q, f in zip(legs, flows)]
    mk = bsx.mask(sym, legs, flows)
    rec.state()
    msg = f"{sym} {legs} {flows}"
    base = lambda d: bsx.Model(sym, legs, list(flows), [1] * r, d)
    for dt in (np.float64, np.complex128, np.float32):
      check(rec, bs.ones(idx(), dtype=dt), base(mk.astype(dt)), "ones", msg)
      check(rec, bs.zeros(idx(), dtype=dt), base(np.zeros(mk.shape, dt)), "zeros", msg)
      for f in (bs.randn, bs.random):
        np.random.seed(5)
        t = f(idx(), dtype=dt)
        d = t.todense()
        if t.dtype != dt or d.dtype != dt:
          rec.fail("init dtype", f"{msg} {f.__name__} {dt}")
        check(rec, t, base(np.where(mk, d, 0)), f.__name__, msg)
        if np.any(d[mk] == 0):
          rec.fail("init zeros", f"{msg} {f.__name__}")
        for g, val in ((bs.ones_like, 1), (bs.zeros_like, 0), (bs.randn_like, None),
                       (bs.random_like, None), (bs.empty_like, None)):
          u = g(t.transpose(list(range(r))[::-1]))
          if u.dtype != dt:
            rec.fail("like dtype", f"{msg} {g.__name__}")
          mm = base(mk.astype(dt) * (val or 0)).transpose(list(range(r))[::-1])
          rec.step()
          bad = bsx.compare(u, mm, values=val is not None)
          if bad or u.data.shape != (int(mk.sum()),):
            rec.fail("like", f"{msg} {g.__name__}: {bad}")
    t = bs.random(idx(), (2.0, 3.0))
    if np.any(t.data < 2) or np.any(t.data >= 3):
      rec.fail("random boundaries", msg)
    # only the allowed positions of a dense array are taken over
    full = bsx.fill(mk.shape, 4)
    check(rec, BlockSparseTensor.fromdense(idx(), full), base(np.where(mk, full, 0)), "fromdense masks", msg)
    # elementwise functions
    for cplx in (False, True):
      t, m = bsx.make(sym, legs, flows, 2, cplx)
      t, m = t.transpose(list(range(r))[::-1]), m.transpose(list(range(r))[::-1])
      fs = [("abs", bs.abs, np.abs), ("conj", bs.conj, None), ("neg", lambda x: -x, np.negative),
            ("pow", lambda x: x ** 2, lambda a: a ** 2), ("mul", lambda x: x * 3, lambda a: a * 3),
            ("rmul", lambda x: 3 * x, lambda a: 3 * a), ("div", lambda x: x / 2, lambda a: a / 2),
            ("npmul", lambda x: x * np.float64(3), lambda a: a * 3)]
      if not cplx:
        fs += [("sign", bs.sign, np.sign), ("sqrt", lambda x: bs.sqrt(bs.abs(x)), lambda a: np.sqrt(np.abs(a)))]
      else:
        fs += [("sqrt", bs.sqrt, np.sqrt)]
      for name, f, g in fs:
        u = f(t)
        check(rec, u, m.conj() if g is None else m.map(g), name, msg)
        check(rec, t, m, name + " changed its argument", msg)
      if not bsx.same(np.asarray(bs.norm(t)), np.linalg.norm(m.dense)):
        rec.fail("norm", f"{msg}: {bs.norm(t)} {np.linalg.norm(m.dense)}")
      if t.size != m.dense.size:
        rec.fail("size", msg)
      for bad in (lambda: t * t, lambda: t / t, lambda: t * np.ones(2), lambda: t + 1, lambda: t - 1):
        try:
          bad()
          rec.fail("non-scalar accepted", msg)
        except TypeError:
          pass
      if m.dense.size == 1:
        v = t.item()
        if not bsx.same(np.asarray(v), m.dense.ravel()[0]):
          rec.fail("item", f"{msg}: {v}")
      else:
        try:
          t.item()
          rec.fail("item accepted", msg)
        except ValueError:
          pass
    # ChargeArray: dense storage with the same transformations
    ch = ChargeArray.random(idx())
    d = ch.data.reshape(mk.shape)
    m = bsx.Model(sym, legs, list(flows), [1] * r, d)
    check(rec, ch, m, "ChargeArray", msg)
    for p in itertools.permutations(range(r)):
      check(rec, ch.transpose(p), m.transpose(p), "ChargeArray.T", msg)
      check(rec, ch.transpose(p).contiguous(), m.transpose(p), "ChargeArray.contiguous", msg)
      check(rec, ch.transpose(p, shuffle=True), m.transpose(p), "ChargeArray shuffle", msg)
      if r > 1 and not ambiguous(m):
        g = [2] + [1] * (r - 2)
        mm = m.transpose(p).regroup(g)
        check(rec, ch.transpose(p).reshape(mm.shape), mm, "ChargeArray.reshape", msg)
        check(rec, ch.transpose(p).reshape(mm.shape).contiguous(), mm, "ChargeArray.reshape", msg)
    check(rec, ch.conj(), m.conj(), "ChargeArray.conj", msg)
    # fused indices at construction
    if r > 1:
      i = idx()
      fused = [i[0] * i[1]] + i[2:]
      mm = base(np.where(mk, full, 0)).regroup([2] + [1] * (r - 2))
      check(rec, BlockSparseTensor.fromdense(fused, full.reshape(mm.shape)), mm, "fromdense fused", msg)
      check(rec, bs.ones(fused), mm.map(lambda _: mk * 1.0), "ones fused", msg)


# ---------------------------------------------------------------- networks
NETS = [
    ([[-1, 1], [1, -2]], 2), ([[1, 2], [2, 1]], 2), ([[-1, 1, 2], [2, 1, -2]], 2),
    ([[1, -1, 2], [2, 3], [3, 1, -2]], 3), ([[1, 1]], 1), ([[-2, 1, 1]], 1), ([[-1, -2], [-3]], 2),
    ([[1, 2], [2, 3], [3, 1]], 3), ([[-1, 1, 1], [-3, -2]], 2), ([[1, 2, 3], [3, 2, 1]], 2),
    ([[-2, 1], [1, 2, -1], [2, -3]], 3),
]


def k_net(desc, sym, rec):
  ls = lists(sym, "two")
  for struct, n in NETS:
    for seed in range(6 if desc["th"] else 4):
      rec.state()
      # every label carries a leg; the second occurrence has the opposite flow
      q, fl, seen = {}, {}, set()
      ts, ms = [], []
      for x, labs in enumerate(struct):
        legs, flows = [], []
        for l in labs:
          if l not in q:
            q[l] = ls[(abs(l) + seed) % len(ls)]
            fl[l] = bool((abs(l) * 3 + seed) // 2 % 2)
          legs.append(q[l])
          flows.append((not fl[l]) if l in seen else fl[l])
          seen.add(l)
        p = list(itertools.permutations(range(len(legs))))
        p = p[seed % len(p)]
        t, m = layout(sym, legs, flows, p, x, seed % 2, "lab2" if seed % 3 else "raw")
        ts.append(t)
        ms.append(m)
      msg = f"{sym} {struct} {q} {fl} seed {seed}"
      out = sorted({l for s in struct for l in s if l < 0}, reverse=True)
      let = {l: "abcdefghij"[i] for i, l in enumerate(sorted({l for s in struct for l in s}))}
      d = np.einsum(",".join("".join(let[l] for l in s) for s in struct) + "->" +
                    "".join(let[l] for l in out), *[m.dense for m in ms])
      mm = bsx.Model(sym, [q[l] for l in out], [fl[l] for l in out], [1] * len(out), d)
      con = sorted({l for s in struct for l in s if l > 0})
      for order in itertools.permutations(con):
        res = tn.ncon(ts, struct, con_order=list(order), backend="symmetric")
        check_item(rec, res, mm, d, "ncon", f"{msg} order {order}")
      # the same network through nodes and a contractor
      nodes = [tn.Node(t, backend="symmetric") for t in ts]
      ends = {}
      for node, s in zip(nodes, struct):
        for ax, l in enumerate(s):
          ends.setdefault(l, []).append(node[ax])
      for l, e in ends.items():
        if l > 0:
          tn.connect(*e)
      outs = [ends[l][0] for l in out]
      res = tn.contractors.greedy(nodes, output_edge_order=outs)
      check_item(rec, res.tensor, mm, d, "greedy", msg)
      # pairwise by hand, after flattening parallel edges
      nodes = [tn.Node(t, backend="symmetric") for t in ts]
      ends = {}
      for node, s in zip(nodes, struct):
        for ax, l in enumerate(s):
          ends.setdefault(l, []).append(node[ax])
      for l, e in ends.items():
        if l > 0:
          tn.connect(*e)
      if len(nodes) == 2 and not tn.get_shared_edges(*nodes) == set():
        shared = list(tn.get_shared_edges(*nodes))
        if len(shared) > 1 and all(not x.is_trace() for x in nodes[0].edges + nodes[1].edges):
          e = tn.flatten_edges_between(*nodes)
          res = tn.contract(e)
          res.reorder_edges([ends[l][0] for l in out])
          check_item(rec, res.tensor, mm, d, "flatten+contract", msg)
      for t, m in zip(ts, ms):
        check(rec, t, m, "contraction changed its argument", msg)


# ---------------------------------------------------------------- sizes
BIG = [([150, 150], [True, False]), ([30, 30, 30], [True, False, True]),
       ([12, 13, 13, 12], [True, True, False, False]),
       ([25, 40, 25], [True, True, True]), ([200, 120], [False, False]),
       ([11, 12, 13, 14], [False, True, True, False])]


def k_big(desc, sym, rec):
  dims, flows = BIG[desc["n"]]
  for sym in ("U", "U2", "3"):
    legs = []
    for i, d in enumerate(dims):
      al = lists(sym)[7] + lists(sym)[2]
      legs.append([al[(j * (i + 2) + j // 3) % len(al)] for j in range(d)])
    rec.state()
    t, m = bsx.make(sym, legs, flows, 1)
    msg = f"{sym} dims {dims} {flows}"
    check(rec, t, m, "big", msg)
    p = list(range(len(dims)))[::-1]
    check(rec, t.transpose(p, shuffle=True), m.transpose(p), "big shuffle", msg)
    check(rec, bs.ones([bsx.index(sym, q, f) for q, f in zip(legs, flows)]),
          m.map(lambda a: bsx.mask(sym, legs, flows) * 1.0), "big ones", msg)
    if len(dims) == 2:
      g = bs.tensordot(t, t.conj(), ([1], [1]))
      check(rec, g, bsx.Model(sym, [legs[0], legs[0]], [flows[0], not flows[0]], [1, 1],
                              m.dense @ m.dense.T), "big tensordot", msg, 1e-8)
    else:
      ax = list(range(1, len(dims)))
      g = bs.tensordot(t, t.conj(), (ax, ax))
      check(rec, g, bsx.Model(sym, [legs[0], legs[0]], [flows[0], not flows[0]], [1, 1],
                              np.tensordot(m.dense, m.dense, (ax, ax))), "big tensordot", msg, 1e-8)
      g = bs.tensordot(t, t.conj(), ([0], [0])) if len(dims) == 3 and dims[1] * dims[2] < 1000 else None
      if g is not None:
        k = len(dims) - 1
        check(rec, g, bsx.Model(sym, legs[1:] * 2, list(flows[1:]) + [not f for f in flows[1:]],
                                [1] * 2 * k, np.tensordot(m.dense, m.dense, ([0], [0]))), "big outer", msg, 1e-8)


# dims, flows, and how the charges of a leg repeat
MANY = [([40, 24], [False, True], [2, 1]), ([17, 34], [True, False], [1, 2]),
        ([20, 6, 18], [False, False, True], [1, 1, 1]), ([5, 7, 24], [True, False, False], [1, 1, 2]),
        ([18, 18], [False, False], [1, 1]), ([6, 5, 5, 6], [False, True, False, True], [1, 1, 1, 1])]


def manyleg(sym, d, rep, i):
  """d charges, d // rep of them different, in no particular order."""
  n = d // rep
  step = next(s for s in (7, 5, 11, 3, 13) if np.gcd(s, n) == 1)
  vals = [(step * j + i) % n - n // 2 for j in range(n)] * rep
  vals = vals[::-1] if i % 2 else vals
  vals += vals[:d - len(vals)]
  res = []
  for v in vals:
    res.append(tuple(v if k == 0 and s == "U" else v // 3 if s == "U" else v % bsx.MOD[s]
                     for k, s in enumerate(sym)))
  return res


def k_many(desc, sym, rec):
  """Tensors with dozens of symmetry blocks and unsorted, repeated charges."""
  dims, flows, reps = MANY[desc["n"]]
  r = len(dims)
  legs = [manyleg(sym, d, k, i) for i, (d, k) in enumerate(zip(dims, reps))]
  perms = list(itertools.permutations(range(r)))
  for cplx in (0, 1):
    for n, p in enumerate(perms if r < 4 else perms[::5]):
      t, m = layout(sym, legs, flows, p, 1, cplx, ["raw", "lab", "lab2"][n % 3])
      msg = f"{sym} dims {dims} {flows} layout {p}"
      rec.state()
      check(rec, t, m, "many", msg)
      for q in perms if r < 4 else perms[n % 3::4]:
        check(rec, t.transpose(q), m.transpose(q), "many transpose", f"{msg} {q}")
        check(rec, t.transpose(q, shuffle=True), m.transpose(q), "many shuffle", f"{msg} {q}")
      check(rec, t.contiguous(), m, "many contiguous", msg)
      u, mu = layout(sym, legs, flows, perms[(n + 1) % len(perms)], 2, cplx)
      check(rec, t + u, m.map(lambda a: a + mu.dense), "many sum", msg)  # pylint: disable=cell-var-from-loop
      for cut in range(1, r):
        m2 = m.regroup([cut, r - cut])
        t2 = t.reshape(m2.shape)
        check(rec, t2, m2, "many fuse", f"{msg} {cut}")
        check(rec, t2.transpose((1, 0), shuffle=True), m2.transpose([1, 0]), "many fuse shuffle", f"{msg} {cut}")
      c, mc_ = u.conj(), mu.conj()
      for k in range(0 if np.prod(dims) < 1000 and r == 2 else 1, r + 1):
        for ax in itertools.combinations(range(r), k):
          rest = [i for i in range(r) if i not in ax]
          if np.prod([dims[i] for i in rest]) > 900:
            continue
          bx = ax[::-1] if n % 2 else ax
          ax_ = ax[::-1] if n % 2 else ax
          d = np.tensordot(m.dense, mc_.dense, (list(ax_), list(bx)))
          x = bsx.Model(sym, [legs[i] for i in rest] * 2, [m.flows[i] for i in rest] + [mc_.flows[i] for i in rest],
                        [1] * (2 * len(rest)), d)
          check_item(rec, bs.tensordot(t, c, (list(ax_), list(bx))), x, d, "many tensordot", f"{msg} {ax}")
      check(rec, t, m, "many: argument changed", msg)
      check(rec, c, mc_, "many: argument changed", msg)
      if r == 2:
        h, mh = t.H, m.transpose([1, 0]).conj()
        x = bsx.Model(sym, [legs[0]] * 2, [flows[0], not flows[0]], [1, 1], m.dense @ mh.dense)
        check(rec, t @ h, x, "many matmul", msg)
        x = bsx.Model(sym, [legs[1]] * 2, [not flows[1], flows[1]], [1, 1], mh.dense @ m.dense)
        check(rec, h @ t, x, "many matmul", msg)


def k_rank(desc, sym, rec):
  """Many legs of dimension one to three."""
  r, v = desc["r"], desc["v"]
  ls = lists(sym)
  pool = [ls[2], ls[4], ls[7], ls[1], ls[3]]
  legs = [pool[(i * (v + 1) + v) % (5 if r < 7 else 3) if (r < 7 or i) else 2] for i in range(r)]
  if r == 7:
    legs = [q[:2] for q in legs]
  flows = [bool((i * (v + 2) // 2 + v) % 2) for i in range(r)]
  perms = list(itertools.permutations(range(r)))
  st = 0
  ps = perms[v::{5: 7, 6: 47, 7: 331}[r]]
  for n, p in enumerate(ps):
    t, m = layout(sym, legs, flows, p, 1, n % 2, ["raw", "lab2", "lab"][n % 3])
    msg = f"{sym} {legs} {flows} layout {p}"
    rec.state()
    q = perms[(n * 97 + 31) % len(perms)]
    check(rec, t.transpose(q), m.transpose(q), "rank transpose", f"{msg} {q}")
    check(rec, t.transpose(q, shuffle=True), m.transpose(q), "rank shuffle", f"{msg} {q}")
    u, mu = layout(sym, legs, flows, perms[(n * 61 + 5) % len(perms)], 2, 0)
    check(rec, t + u, m.map(lambda a: a + mu.dense), "rank sum", msg)  # pylint: disable=cell-var-from-loop
    # every grouping of the legs, then another transpose of the groups, then apart again
    if not ambiguous(m):
      for cut in range((n * 5) % 7, 2 ** (r - 1), 7):
        groups = [len(x) for x in "".join("x|" if cut >> i & 1 else "x" for i in range(r - 1)).split("|")]
        groups[-1] += 1
        mg = m.regroup(groups)
        tg = t.reshape(mg.shape)
        check(rec, tg, mg, "rank fuse", f"{msg} {groups}")
        o = list(range(len(groups)))[::-1]
        mo = mg.transpose(o)
        to = tg.transpose(o, shuffle=bool(cut % 2))
        check(rec, to, mo, "rank fuse+transpose", f"{msg} {groups}")
        m1 = mo.regroup([1] * r)
        check(rec, to.reshape(m1.shape), m1, "rank unfuse", f"{msg} {groups}")
        # groups contracted against their duals
        if len(groups) > 1:
          k = len(groups) // 2
          c, mcj = tg.conj(), mg.conj()
          d = np.tensordot(mg.value(), mcj.value(), (list(range(k)), list(range(k))))
          i = sum(groups[:k])
          rest = list(range(i, r))
          x = bsx.Model(sym, [m.legs[y] for y in rest] * 2, [m.flows[y] for y in rest] + [not m.flows[y] for y in rest],
                        groups[k:] * 2, np.tensordot(m.dense, np.conj(m.dense), (list(range(i)), list(range(i)))))
          if x.dense.size <= 4096:
            check(rec, bs.tensordot(tg, c, (list(range(k)), list(range(k)))), x, "rank fused tensordot", f"{msg} {groups}")
    c, mcj = u.conj(), mu.conj()
    for k in range(1, r + 1):
      subsets = list(itertools.permutations(range(r), k))
      for ax in subsets[(n * 13 + v) % 17::max(17, len(subsets) // 5)]:
        rest = [i for i in range(r) if i not in ax]
        if np.prod([len(legs[i]) for i in rest]) ** 2 > 5000:
          continue
        # the second tensor lies in another order
        w = perms[(n + st) % len(perms)]
        st += 1
        cw, mw = c.transpose(w), mcj.transpose(w)
        bx = [w.index(i) for i in ax]
        rw = [i for i in range(r) if i not in bx]
        d = np.tensordot(m.dense, mw.dense, (list(ax), bx))
        x = bsx.Model(sym, [m.legs[i] for i in rest] + [mw.legs[i] for i in rw],
                      [m.flows[i] for i in rest] + [mw.flows[i] for i in rw], [1] * (len(rest) + len(rw)), d)
        check_item(rec, bs.tensordot(t, cw, (list(ax), bx)), x, d, "rank tensordot", f"{msg} {ax} {w}")
    check(rec, t, m, "rank: argument changed", msg)
    # traces over the first leg and its dual
    a, ma = layout(sym, legs[:3] + [legs[0]], flows[:3] + [not flows[0]], [3, 1, 0, 2], 1, n % 2)
    x = bsx.Model(sym, legs[1:3], flows[1:3], [1, 1], np.trace(ma.dense, axis1=0, axis2=3))
    check(rec, bs.trace(a, (0, 3)), x, "rank trace", msg)


def k_forms(desc, sym, rec):
  """Other spellings: constructors with checks, shapes given as indices, .T."""
  ls = lists(sym)
  for legs, flows in (([ls[2]], [True]), ([ls[2], ls[7]], [False, True]), ([ls[7], ls[3], ls[4]], [True, False, False]),
                      ([ls[7], ls[3], ls[7], ls[2]], [True, False, False, True])):
    r = len(legs)
    mk = bsx.mask(sym, legs, flows)
    n = int(mk.sum())
    full = np.where(mk, bsx.fill(mk.shape, 2), 0)
    base = bsx.Model(sym, legs, flows, [1] * r, full)
    chs = lambda: [bsx.charge(sym, q) for q in legs]  # pylint: disable=cell-var-from-loop
    rec.state()
    msg = f"{sym} {legs} {flows}"
    data = full[mk]
    check(rec, BlockSparseTensor(data.copy(), chs(), flows, check_consistency=True), base, "constructor", msg)
    for p in itertools.permutations(range(r)):
      t = BlockSparseTensor(data.copy(), chs(), flows, order=[[i] for i in p], check_consistency=True)
      check(rec, t, base.transpose(p), "constructor order", f"{msg} {p}")
      check(rec, BlockSparseTensor(data.copy(), chs(), flows, order=[[i] for i in p]), base.transpose(p),
            "constructor order", f"{msg} {p}")
      if r > 1:
        o = [list(p[:2])] + [[i] for i in p[2:]]
        t = BlockSparseTensor(data.copy(), chs(), flows, order=o, check_consistency=True)
        check(rec, t, base.transpose(p).regroup([2] + [1] * (r - 2)), "constructor order", f"{msg} {o}")
    # a transposed view of the data as argument: read in its own order
    if n % 2 == 0 and n:
      check(rec, BlockSparseTensor(np.ascontiguousarray(data.reshape(2, -1).T).T, chs(), flows), base, "constructor view", msg)
    for bad in ([[0]] * r if r > 1 else [[1]], [[i] for i in range(r - 1)], [[i] for i in range(1, r + 1)],
                [[i] for i in range(r)] + [[0]]):
      for cls, d in ((BlockSparseTensor, data), (ChargeArray, full.ravel())):
        try:
          cls(d.copy(), chs(), flows, order=bad, check_consistency=True)
          rec.fail("inconsistent order accepted", f"{msg} {bad} {cls.__name__}")
        except ValueError:
          rec.step()
    for d in (np.append(data, 1.0), data[:-1]) if n else (np.ones(1),):
      try:
        BlockSparseTensor(d.copy(), chs(), flows, check_consistency=True)
        rec.fail("inconsistent data accepted", f"{msg} {d.shape}")
      except ValueError:
        rec.step()
    a = ChargeArray(full.ravel(), chs(), flows)
    t = BlockSparseTensor(data.copy(), chs(), flows)
    for x in (a, t):
      if r == 2:
        check(rec, x.T, base.transpose([1, 0]), ".T", msg)
        check(rec, x.H, base.transpose([1, 0]).conj(), ".H", msg)
      elif r > 2:
        for f in (lambda: x.T, lambda: x.H):  # pylint: disable=cell-var-from-loop
          try:
            y = f()
            rec.fail(".T of higher rank", f"{msg}: {y.shape}")
          except ValueError:
            rec.step()
      text = repr(x)
      for part in (type(x).__name__, repr(x.shape), x.dtype.name):
        if part not in text:
          rec.fail("repr", f"{msg}: {text} lacks {part}")
      rec.step()
      if r > 1:
        # shape given as indices, and mixed with integers
        y = x.reshape([len(legs[0])] + [int(np.prod([len(q) for q in legs[1:]]))])
        m2 = base.regroup([1, r - 1])
        check(rec, y, m2, "reshape list", msg)
        check(rec, y.reshape(np.array([len(q) for q in legs])), base, "reshape array", msg)
        ix = [bsx.index(sym, q, f) for q, f in zip(legs, flows)]
        check(rec, y.reshape(ix), base, "reshape indices", msg)
        check(rec, y.reshape([ix[0]] + [len(q) for q in legs[1:]]), base, "reshape mixed", msg)
        fused = ix[1]
        for z in ix[2:]:
          fused = fused * z
        check(rec, x.reshape([ix[0], fused]), m2, "reshape fused indices", msg)
        for shp in ([len(legs[0]) + 1, y.shape[1]], [1] + list(base.shape) + [1], [y.shape[0] * y.shape[1] + 1]):
          try:
            y.reshape(shp)
            rec.fail("bad shape accepted", f"{msg} {shp}")
          except ValueError:
            rec.step()
    # comparison of shapes
    variants = [(legs, flows, True), (legs, [not f for f in flows], False),
                (legs + [[bsx.identity(sym)]], list(flows) + [True], False), (legs[:-1] + [legs[-1] + [legs[-1][0]]], flows, False),
                (legs[:-1] + [legs[-1][::-1]], flows, legs[-1] == legs[-1][::-1])]
    for l2, f2, same in variants:
      u, _ = bsx.make(sym, l2, f2, rep="lab2")
      rec.step()
      if compare_shapes(t, u) != same or compare_shapes(u, t) != same:
        rec.fail("compare_shapes", f"{msg} against {l2} {f2}: expected {same}")
    if r > 2:
      u = t.reshape((t.shape[0], t.shape[1] * t.shape[2]) + tuple(t.shape[3:]))
      if compare_shapes(t, u) or compare_shapes(u, t):
        rec.fail("compare_shapes", f"{msg} against its own fused form")

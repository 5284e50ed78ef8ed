"""C09: charge and index algebra."""
import itertools
import numpy as np
from tensornetwork.block_sparse import charge as lc
from tensornetwork.block_sparse.index import Index, fuse_index_pair, fuse_indices
from tensornetwork.block_sparse import blocksparse_utils as bu, utils as lu
from tensornetwork.block_sparse import blocksparsetensor as bst
from mc import bsx

TITLE = "charges and indices against explicit lists of group elements"
LEVEL = "model_checking"
RULE = ("for every symmetry group of the list, every charge vector up to the "
        "stated length over a small alphabet, in every internal representation: "
        "every operation (fuse, dual, product of groups, unique, intersect, "
        "reduce, element access, comparison, copy) and every pair and triple of "
        "vectors with every flow pattern is computed on explicit lists of "
        "integers and compared; operations are chained to the stated depth")
ASSUMPTIONS = ["charge values small enough not to overflow the charge dtype",
               "the order in which unique charges are listed is not specified, only consistency"]
BOUNDS = {
    "quick": "groups U1,Z2,Z3,Z4,U1xZ2,U1xU1,U1xU1xZ3,4- to 7-fold products; length <=3 for unary, <=2 for pairs and triples; utilities over <=6 legs and >20000 combinations; >32767 different charges; row utilities for rows of <=9 integers of every width",
    "thorough": "length <=4 for unary, <=3 for pairs, <=2 for triples, alphabets of 4",
}
GROUPS = ["U", "2", "3", "4", "U2", "UU", "UU3", "2U3", "U23U", "U2U3U", "UUUUUU2"]
REPS = ["raw", "lab", "lab2"]


def alpha(sym, thorough):
  n = {1: 3, 2: 3, 3: 3}.get(len(sym), 2)
  a = list(itertools.product(*[bsx.ALPH[s] for s in sym]))
  # a spread over the product set rather than its first elements
  if len(sym) > 1:
    a = [tuple(bsx.ALPH[s][(k * (i + 1)) % len(bsx.ALPH[s])] for i, s in enumerate(sym))
         for k in range(4)]
  seen = []
  for x in a:
    if x not in seen:
      seen.append(x)
  return seen[:n + (1 if thorough else 0)]


def vectors(sym, lengths, thorough):
  a = alpha(sym, thorough)
  for n in lengths:
    for w in itertools.product(a, repeat=n):
      yield list(w)


def cases(tier):
  th = tier == "thorough"
  for sym in GROUPS:
    for rep in REPS:
      yield {"sym": sym, "kind": "unary", "rep": rep, "len": 4 if th else 3, "th": th}
      for rep2 in REPS:
        top = 3 if th else 2
        vs = list(vectors(sym, range(1, top + 1), th))
        step = 40
        for lo in range(0, len(vs), step):
          yield {"sym": sym, "kind": "pair", "rep": [rep, rep2], "len": top, "th": th,
                 "lo": lo, "hi": lo + step}
    yield {"sym": sym, "kind": "triple", "len": 2, "th": th}
    yield {"sym": sym, "kind": "chain", "len": 2, "th": th, "depth": 4 if th else 3}
    yield {"sym": sym, "kind": "index", "len": 2, "th": th}
    for n in (1, 2, 3, 4, 5, 6):
      yield {"sym": sym, "kind": "legs", "n": n, "th": th}
    yield {"sym": sym, "kind": "forms", "th": th}
  yield {"sym": "U", "kind": "wide", "th": th}
  for sym in ("U", "UU", "UU2", "U23U"):
    yield {"sym": sym, "kind": "many", "th": th}
  for dt in ("int8", "int16", "int32", "int64"):
    for width in range(0, 10):
      yield {"sym": "U", "kind": "utils", "dt": dt, "w": width, "th": th}


def run_case(desc, rec):
  sym = desc["sym"]
  rec.outcome(desc["kind"])
  rec.outcome("group " + sym)
  globals()["k_" + desc["kind"]](desc, sym, rec)


def eq(rec, got, want, sig, msg):
  rec.step()
  if got != want:
    rec.fail(sig, f"{msg}: got {got}, expected {want}")
    return False
  rec.validated()
  return True


def well(rec, c, want, sig, msg):
  """c must hold exactly the list want, consistently through all accessors."""
  got = bsx.read(c)
  ok = eq(rec, got, [tuple(w) for w in want], sig, msg)
  if not ok:
    return
  n = len(want)
  if c.dim != n or len(c) != n:
    rec.fail(sig + " dim", f"{msg}: dim {c.dim}, len {len(c)}, expected {n}")
  k = c.copy()
  u = [tuple(int(x) for x in r) for r in np.asarray(k.unique_charges).reshape((-1, k.num_symmetries))]
  lab = np.asarray(k.charge_labels)
  if lab.shape != (n,):
    rec.fail(sig + " labels", f"{msg}: labels of shape {lab.shape} for {n} charges")
  elif [u[i] for i in lab] != [tuple(w) for w in want]:
    rec.fail(sig + " labels", f"{msg}: unique[labels] {[u[i] for i in lab]}, expected {want}")
  if len(set(u)) != len(u):
    rec.fail(sig + " unique", f"{msg}: repeated unique charges {u}")
  it = list(itertools.islice(iter_(c), 100))
  if it != [tuple(w) for w in want]:
    rec.fail(sig + " iter", f"{msg}: iteration gives {it}")


def iter_(c):
  i = c.__iter__()
  while True:
    try:
      yield tuple(int(x) for x in next(i))
    except StopIteration:
      return


def k_unary(desc, sym, rec):
  rep = desc["rep"]
  for w in vectors(sym, range(1, desc["len"] + 1), desc["th"]):
    rec.state()
    mk = lambda: bsx.charge(sym, w, rep)
    msg = f"{sym} {rep} {w}"
    well(rec, mk(), w, "make", msg)
    well(rec, mk().copy(), w, "copy", msg)
    well(rec, mk().dual(True), [bsx.dual(sym, x) for x in w], "dual", msg)
    well(rec, mk().dual(False), w, "dual(False)", msg)
    well(rec, mk().dual(True).dual(True), w, "dual twice", msg)
    well(rec, mk() * True, [bsx.dual(sym, x) for x in w], "* True", msg)
    well(rec, mk() * False, w, "* False", msg)
    for d in (1, 2, 3):
      well(rec, mk().identity_charges(d), [bsx.identity(sym)] * d, "identity", msg)
    well(rec, mk() + mk().identity_charges(1), w, "fuse with identity", msg)
    if not bool(np.all((mk() + mk().dual(True)) == mk().identity_charges(1)) == all(
        bsx.fuse(sym, a, bsx.dual(sym, b)) == bsx.identity(sym) for a in w for b in w)):
      rec.fail("inverse", msg)
    # num_unique
    eq(rec, mk().num_unique, len(set(w)) if rep != "lab2" else len(set(w)), "num_unique", msg)
    # unique with every combination of extra outputs
    for ri, rv, rc in itertools.product((False, True), repeat=3):
      c = mk()
      out = c.unique(return_index=ri, return_inverse=rv, return_counts=rc)
      if not (ri or rv or rc):
        out = [out]
      out = list(out)
      u = bsx.read(out.pop(0))
      m2 = f"{msg} unique({ri},{rv},{rc})"
      if sorted(u) != sorted(set(map(tuple, w))):
        rec.fail("unique", f"{m2}: {u}")
        continue
      if ri:
        ix = [int(i) for i in np.asarray(out.pop(0)).ravel()]
        if [w.index(x) for x in u] != ix:
          rec.fail("unique index", f"{m2}: {ix} for {u}")
      if rv:
        inv = np.asarray(out.pop(0))
        if inv.shape != (len(w),) or [u[i] for i in inv] != [tuple(x) for x in w]:
          rec.fail("unique inverse", f"{m2}: {inv.tolist()} for {u}")
      if rc:
        cnt = [int(i) for i in np.asarray(out.pop(0)).ravel()]
        if cnt != [w.count(x) for x in u]:
          rec.fail("unique counts", f"{m2}: {cnt} for {u}")
      well(rec, c, w, "unique changed its argument", m2)
      rec.step()
    # element access
    for i in range(len(w)):
      well(rec, mk()[i], [w[i]], "getitem int", f"{msg}[{i}]")
      well(rec, mk()[np.int64(i)], [w[i]], "getitem np.int64", f"{msg}[{i}]")
    for n in range(0, 4):
      for ix in itertools.product(range(len(w)), repeat=n):
        for form in (list(ix), np.array(ix, dtype=np.int64)):
          if n == 0 and isinstance(form, list):
            continue
          well(rec, mk()[form], [w[i] for i in ix], "getitem list", f"{msg}[{ix}]")
    # comparison with single charges and lists
    for x in alpha(sym, True):
      r = mk() == np.array([x], dtype=np.int16)
      eq(rec, np.asarray(r).tolist(), [[y == x] for y in w], "eq array", f"{msg} == {x}")
      r = mk() == bsx.charge(sym, [x]) if len(sym) == 1 or True else None
      eq(rec, np.asarray(r).tolist(), [[y == x] for y in w], "eq charge", f"{msg} == {x}")
    # reduce to every subset of targets
    al = alpha(sym, True)
    for n in range(1, len(al) + 1):
      for tg in itertools.combinations(al, n):
        for stride in (1, 3):
          tgt = np.array(tg, dtype=np.int16)
          if len(sym) == 1:
            forms = [tgt, tgt[:, 0]] + ([int(tgt[0, 0])] if n == 1 else [])
          else:
            forms = [tgt]
          for form in forms:
            c = mk()
            r, loc = c.reduce(form, return_locations=True, strides=stride)
            want = [y for y in w if y in tg]
            well(rec, r, want, "reduce", f"{msg}.reduce({tg})")
            eq(rec, [int(i) for i in loc], [stride * i for i, y in enumerate(w) if y in tg],
               "reduce locations", f"{msg}.reduce({tg}, strides={stride})")
            well(rec, mk().reduce(form), want, "reduce", f"{msg}.reduce({tg})")


def k_pair(desc, sym, rec):
  r1, r2 = desc["rep"]
  vs = list(vectors(sym, range(1, desc["len"] + 1), desc["th"]))
  for w in vs[desc["lo"]:desc["hi"]]:
    for v in vs:
      rec.state()
      a = lambda: bsx.charge(sym, w, r1)
      b = lambda: bsx.charge(sym, v, r2)
      msg = f"{sym} {r1}{w} {r2}{v}"
      x, y = a(), b()
      well(rec, x + y, [bsx.fuse(sym, p, q) for p in w for q in v], "fuse", msg)
      well(rec, x, w, "fuse changed its argument", msg)
      for f1, f2 in itertools.product((False, True), repeat=2):
        want = [bsx.fuse(sym, bsx.dual(sym, p, f1), bsx.dual(sym, q, f2)) for p in w for q in v]
        eq(rec, bsx.read(lc.fuse_charges([a(), b()], [f1, f2])), want, "fuse_charges",
           f"{msg} flows {f1},{f2}")
      eq(rec, bool(lc.charge_equal(a(), b())), w == v, "charge_equal", msg)
      common = {p for p in w if p in v}
      i = a().intersect(b())
      got = bsx.read(i)
      if sorted(got) != sorted(common):
        rec.fail("intersect", f"{msg}: {got}")
      i, ia, ib = a().intersect(b(), return_indices=True)
      got = bsx.read(i)
      if sorted(got) != sorted(common) or [w.index(p) for p in got] != [int(k) for k in ia] or \
          [v.index(p) for p in got] != [int(k) for k in ib]:
        rec.fail("intersect indices", f"{msg}: {got} {ia} {ib}")
      i, ia, ib = a().intersect(np.array(v, dtype=np.int16), return_indices=True)
      if sorted(bsx.read(i)) != sorted(common):
        rec.fail("intersect array", f"{msg}: {bsx.read(i)}")
      if len(set(w)) == len(w) and len(set(v)) == len(v):
        i = a().intersect(b(), assume_unique=True)
        if sorted(bsx.read(i)) != sorted(common):
          rec.fail("intersect unique", f"{msg}: {bsx.read(i)}")
      r = np.asarray(a() == b())
      if r.tolist() != [[p == q for q in v] for p in w]:
        rec.fail("eq", f"{msg}: {r.tolist()}")
      rec.step(5)
      if len(w) == len(v):
        well(rec, a() @ b(), [p + q for p, q in zip(w, v)], "matmul", msg)
        p = (a() @ b()) + (b() @ a())
        eq(rec, bsx.read(p), [bsx.fuse(sym + sym, s + t, t2 + s2) for s, t in zip(w, v)
                              for t2, s2 in zip(v, w)], "fuse product group", msg)
      else:
        try:
          a() @ b()
          rec.fail("matmul accepted", msg)
        except ValueError:
          pass


def k_triple(desc, sym, rec):
  vs = list(vectors(sym, range(1, desc["len"] + 1), False))
  vs = vs if len(vs) <= 12 else vs[:3] + vs[3::max(1, (len(vs) - 3) // 9)]
  for w in itertools.product(vs, repeat=3):
    rec.state()
    cs = [bsx.charge(sym, x) for x in w]
    l = (cs[0] + cs[1]) + cs[2]
    r = cs[0] + (cs[1] + cs[2])
    want = [bsx.fuse(sym, bsx.fuse(sym, p, q), s) for p in w[0] for q in w[1] for s in w[2]]
    eq(rec, bsx.read(l), want, "associative left", f"{sym} {w}")
    eq(rec, bsx.read(r), want, "associative right", f"{sym} {w}")
    for fl in itertools.product((False, True), repeat=3):
      want = [bsx.fuse(sym, bsx.fuse(sym, bsx.dual(sym, p, fl[0]), bsx.dual(sym, q, fl[1])),
                       bsx.dual(sym, s, fl[2])) for p in w[0] for q in w[1] for s in w[2]]
      eq(rec, bsx.read(lc.fuse_charges(cs, list(fl))), want, "fuse_charges 3", f"{sym} {w} {fl}")


def k_chain(desc, sym, rec):
  """Every chain of operations, each applied to the result of the one before."""
  vs = list(vectors(sym, [2], False))[:6]
  other = vs[-1][:2]
  ops = {
      "dual": (lambda c: c.dual(True), lambda w: [bsx.dual(sym, x) for x in w]),
      "fuse": (lambda c: c + bsx.charge(sym, other, "lab"),
               lambda w: [bsx.fuse(sym, p, q) for p in w for q in other]),
      "fuse1": (lambda c: c + bsx.charge(sym, other[:1], "raw"),
                lambda w: [bsx.fuse(sym, p, other[0]) for p in w]),
      "rev": (lambda c: c[np.arange(len(c))[::-1]], lambda w: w[::-1]),
      "first": (lambda c: c[[0]], lambda w: w[:1]),
      "copy": (lambda c: c.copy(), lambda w: w),
      "reduce": (lambda c: c.reduce(np.array([q for q in sorted(set(bsx.read(c)))][:2],
                                             dtype=np.int16)),
                 lambda w: [x for x in w if x in sorted(set(w))[:2]]),
      "touch": (lambda c: (c.unique_charges, c)[1], lambda w: w),
      "unique": (lambda c: c[c.unique(return_index=True)[1]][np.argsort([
          sorted(set(bsx.read(c))).index(x)
          for x in bsx.read(c[c.unique(return_index=True)[1]])])], lambda w: sorted(set(w))),
  }
  for w0 in vs:
    for seq in itertools.product(ops, repeat=desc["depth"]):
      if seq.count("fuse") > 2:
        continue
      c, w = bsx.charge(sym, w0), list(w0)
      rec.state()
      for k, o in enumerate(seq):
        c, w = ops[o][0](c), ops[o][1](w)
      well(rec, c, w, "chain", f"{sym} {w0} {seq}")


def k_index(desc, sym, rec):
  vs = list(vectors(sym, [1, 2], False))
  for w in vs:
    for f in (False, True):
      for rep in REPS:
        rec.state()
        msg = f"{sym} {rep} {w} flow {f}"
        i = bsx.index(sym, w, f, rep)
        eq(rec, int(i.dim), len(w), "dim", msg)
        eq(rec, len(i), len(w), "len", msg)
        well(rec, i.charges, [bsx.dual(sym, x, f) for x in w], "index charges", msg)
        j = i.flip_flow()
        eq(rec, [bool(x) for x in j.flat_flows], [not f], "flip_flow", msg)
        eq(rec, [bool(x) for x in i.flat_flows], [f], "flip_flow changed its argument", msg)
        well(rec, j.flat_charges[0], w, "flip_flow charges", msg)
        eq(rec, bool(j.flip_flow() == i), True, "flip twice", msg)
        k = i.copy()
        eq(rec, bool(k == i) and k is not i, True, "index copy", msg)
        if k.flat_charges[0] is i.flat_charges[0]:
          rec.fail("index copy shares charges", msg)
        for v in vs:
          for g in (False, True):
            o = bsx.index(sym, v, g)
            eq(rec, bool(i == o), w == v and f == g, "index eq", f"{msg} == {v} {g}")
            for name, p in (("*", i * o), ("pair", fuse_index_pair(i, o)),
                            ("list", fuse_indices([i, o]))):
              want = [bsx.fuse(sym, bsx.dual(sym, x, f), bsx.dual(sym, y, g)) for x in w for y in v]
              eq(rec, bsx.read(p.charges), want, "index product " + name, f"{msg} {v} {g}")
              eq(rec, [bool(x) for x in p.flat_flows], [f, g], "product flows", msg)
              eq(rec, int(p.dim), len(w) * len(v), "product dim", msg)
              pf = p.flip_flow()
              eq(rec, bsx.read(pf.charges), [bsx.dual(sym, x) for x in want], "product flip",
                 f"{msg} {v} {g}")
    if len(vs) > 40:
      vs = vs[:40]


def k_legs(desc, sym, rec):
  """Utilities over lists of legs: degeneracies, numbers of nonzero elements,
  combined charges kept at targets with their positions."""
  n = desc["n"]
  al = alpha(sym, False)
  lens = {1: [3], 2: [2, 3], 3: [1, 3, 2], 4: [2, 1, 2, 2], 5: [2, 2, 1, 2, 2], 6: [2, 1, 2, 2, 1, 2]}[n]
  # legs: windows of the alphabet, starting everywhere; large legs for the
  # code that treats many elements differently
  variants = []
  for start in range(len(al)):
    variants.append([[al[(start + i + j * (k + 1)) % len(al)] for j in range(m)]
                     for i, (k, m) in enumerate(zip(range(n), lens))])
  big = {2: [150, 140], 3: [30, 29, 28], 4: [12, 13, 11, 12], 6: [6, 5, 5, 6, 6, 5]}.get(n)
  flows = list(itertools.product((False, True), repeat=n))
  todo = [(legs, f, False) for legs in variants for f in flows]
  if big:
    legs = [[al[(i * j + j // 2) % len(al)] for j in range(m)] for i, m in enumerate(big)]
    todo += [(legs, f, True) for f in flows[1:4]]
    if sym == "U":
      spread = [[(j * (i + 2) - 7,) for j in range(m)] for i, m in enumerate(big)]
      todo += [(spread, f, True) for f in flows[1:4]]
  for legs, fl, large in todo:
    rec.state()
    cs = lambda: [bsx.charge(sym, w, REPS[i % 3]) for i, w in enumerate(legs)]
    msg = f"{sym} legs {legs if not large else [len(l) for l in legs]} flows {fl}"
    fused = [bsx.identity(sym)]
    for w, f in zip(legs, fl):
      dw = [bsx.dual(sym, y, f) for y in w]
      fused = [bsx.fuse(sym, x, y) for x in fused for y in dw]
    count = {}
    for x in fused:
      count[x] = count.get(x, 0) + 1
    u, d = bu.compute_fused_charge_degeneracies(cs(), list(fl))
    got = bsx.read(u)
    rec.step()
    if len(got) != len(count) or {x: int(k) for x, k in zip(got, np.asarray(d))} != count:
      rec.fail("degeneracies", f"{msg}: {got} {np.asarray(d).tolist()}, expected {count}")
    u = bu.compute_unique_fused_charges(cs(), list(fl))
    rec.step()
    if sorted(bsx.read(u)) != sorted(count):
      rec.fail("unique fused", f"{msg}: {bsx.read(u)}")
    nz = bu.compute_num_nonzero(cs(), list(fl))
    eq(rec, int(nz), count.get(bsx.identity(sym), 0), "num_nonzero", msg)
    keys = sorted(count)
    for tg in ([keys[:1], keys[-2:], [bsx.identity(sym)], al] if not large else [keys[-2:]]):
      tgt = np.array(tg, dtype=np.int16)
      r, loc = bu.reduce_charges(cs(), list(fl), tgt, return_locations=True)
      want = [x for x in fused if x in tg]
      if not large:
        well(rec, r, want, "reduce_charges", f"{msg} targets {tg}")
      eq(rec, bsx.read(r), want, "reduce_charges", f"{msg} targets {tg}")
      eq(rec, [int(i) for i in loc], [i for i, x in enumerate(fused) if x in tg],
         "reduce_charges locations", f"{msg} targets {tg}")
      eq(rec, bsx.read(bu.reduce_charges(cs(), list(fl), tgt)), want, "reduce_charges", msg)
      dims = [len(w) for w in legs]
      # strides of every permuted layout of the same legs
      for perm in (list(itertools.permutations(range(n)))[:24] if not large else [tuple(range(n))[::-1]]):
        st = np.zeros(n, dtype=np.int64)
        acc = 1
        for a in reversed(perm):
          st[a] = acc
          acc *= dims[a]
        _, loc = bu.reduce_charges(cs(), list(fl), tgt, return_locations=True, strides=st)
        pos = [sum(int(s) * i for s, i in zip(st, ix))
               for ix in itertools.product(*map(range, dims))]
        eq(rec, [int(i) for i in loc], [q for q, x in zip(pos, fused) if x in tg],
           "reduce_charges strides", f"{msg} targets {tg} strides {st.tolist()}")
    if not large:
      look, uc, labels = bu.compute_sparse_lookup(cs(), list(fl), bsx.charge(sym, keys[:2]))
      uq = bsx.read(uc)
      rec.step()
      if [uq[i] for i in look] != [x for x in fused if x in keys[:2]] or sorted(
          uq[i] for i in labels) != keys[:2]:
        rec.fail("sparse lookup", f"{msg}: {look} {uq} {labels}")


def k_forms(desc, sym, rec):
  """Argument forms the other kinds do not use, and random charges."""
  al = alpha(sym, True)
  for w in vectors(sym, [1, 2, 3], False):
    for rep in REPS:
      rec.state()
      c = lambda: bsx.charge(sym, w, rep)
      msg = f"{sym} {rep} {w}"
      if len(sym) == 1:
        tg = np.array([x[0] for x in al], dtype=np.int16)
        eq(rec, np.asarray(c() == tg).tolist(), [[(int(t),) == y for t in tg] for y in w],
           "eq 1d", msg)
        i = c().intersect(tg)
        eq(rec, sorted(bsx.read(i)), sorted({y for y in w if y in al}), "intersect 1d", msg)
        i, ia, ib = c().intersect(tg, return_indices=True)
        eq(rec, [(w[int(a)], (int(tg[int(b)]),)) for a, b in zip(ia, ib)],
           [(x, x) for x in bsx.read(i)], "intersect 1d indices", msg)
      for v in (w[::-1], w[:-1], w + w[:1], [al[-1]] * len(w)):
        if v:
          for r2 in REPS:
            eq(rec, bool(lc.charge_equal(c(), bsx.charge(sym, v, r2))), v == w, "charge_equal", msg)
      for k in range(len(w)):
        eq(rec, bsx.read(c()[[k, k]]), [w[k], w[k]], "getitem repeated", msg)
      if not isinstance(repr(c()), str):
        rec.fail("repr", msg)
  if len(sym) == 1:
    cls = {"U": lc.U1Charge, "2": lc.Z2Charge}[sym] if sym in "U2" else lc.ZNCharge(int(sym))
    top = {"U": 4}[sym] if sym == "U" else int(sym) - 1
    for lo in ([-2, 0, 3] if sym == "U" else range(top + 1)):
      for hi in range(lo, top + 1):
        if sym == "2" and (lo, hi) != (0, 1):
          continue
        for dim in (0, 1, 5, 200):
          np.random.seed(dim + 7 * hi + lo + 100)
          c = cls.random(dim, lo, hi)
          vals = [x[0] for x in bsx.read(c)]
          rec.step()
          if len(vals) != dim or any(not lo <= x <= hi for x in vals) or (
              dim == 200 and set(vals) != set(range(lo, hi + 1))):
            rec.fail("random", f"{sym} random({dim},{lo},{hi}): {sorted(set(vals))}")
    if sym != "U":
      for lo, hi in ((-1, top), (0, top + 1)):
        try:
          cls.random(3, lo, hi)
          rec.fail("random accepted", f"{sym} random(3,{lo},{hi})")
        except ValueError:
          pass
      for vals in ([-1], [0, top + 1]):
        try:
          cls(vals)
          rec.fail("charge accepted", f"{sym} {vals}")
        except ValueError:
          pass


def k_many(desc, sym, rec):
  """More different charges than a 16 bit label can count."""
  if sym == "U":
    A, B = [(150 * i - 16400,) for i in range(220)], [(j,) for j in range(150)]
  else:
    # the first factor counts on one leg, the last U(1) factor on the other
    last = max(k for k, g in enumerate(sym) if g == "U")
    A = [tuple(i if k == 0 and sym[0] == "U" else i % 2 if k == 0 else 0
               for k in range(len(sym))) for i in range(190)]
    B = [tuple(j if k == last else 0 for k in range(len(sym))) for j in range(190)]
  want = [bsx.fuse(sym, x, y) for x in A for y in B]
  c = bsx.charge(sym, A) + bsx.charge(sym, B)
  rec.state()
  different = len(set(want))
  rec.outcome("more than 32767" if different > 32767 else "fewer")
  eq(rec, bsx.read(c) == want, True, "many fuse", sym)
  eq(rec, c.copy().num_unique, different, "many num_unique", sym)
  k = c.copy()
  u, lab = np.asarray(k.unique_charges), np.asarray(k.charge_labels)
  arr = np.array(want)
  eq(rec, bool(lab.min() >= 0 and np.array_equal(u[lab], arr)), True, "many labels", sym)
  eq(rec, bool(np.array_equal(np.asarray(k.charges), arr)), True, "many charges after labels", sym)
  eq(rec, bool(np.array_equal(np.asarray(k.dual(True).charges),
                              np.array([bsx.dual(sym, x) for x in want]))), True, "many dual", sym)
  out = c.copy().unique(return_index=True, return_inverse=True, return_counts=True)
  uq = np.asarray(out[0].charges)
  eq(rec, bool(np.array_equal(uq[np.asarray(out[2])], arr) and np.array_equal(
      arr[np.asarray(out[1])], uq) and int(np.sum(out[3])) == len(want)), True, "many unique", sym)
  tg = [want[5], want[-1], want[20011 % len(want)]]
  r, loc = c.copy().reduce(np.array(tg, dtype=np.int16), return_locations=True)
  eq(rec, bsx.read(r), [x for x in want if x in tg], "many reduce", sym)
  eq(rec, [int(i) for i in loc], [i for i, x in enumerate(want) if x in tg], "many reduce loc", sym)
  pick = [len(want) - 1, 3, 33000 % len(want)]
  eq(rec, bsx.read(k[pick]), [want[i] for i in pick], "many getitem", sym)
  u, d = bu.compute_fused_charge_degeneracies([bsx.charge(sym, A), bsx.charge(sym, B)], [False, True])
  w2 = [bsx.fuse(sym, x, bsx.dual(sym, y)) for x in A for y in B]
  cnt = {}
  for x in w2:
    cnt[x] = cnt.get(x, 0) + 1
  eq(rec, {x: int(n) for x, n in zip(bsx.read(u), d)} == cnt, True, "many degeneracies", sym)
  r, loc = bu.reduce_charges([bsx.charge(sym, A), bsx.charge(sym, B)], [False, False],
                             np.array(tg, dtype=np.int16), return_locations=True)
  eq(rec, bsx.read(r), [x for x in want if x in tg], "many reduce_charges", sym)
  eq(rec, [int(i) for i in loc], [i for i, x in enumerate(want) if x in tg], "many reduce_charges loc",
     sym)
  # a tensor over the two legs and the fused one
  D = bsx.charge(sym, tg)
  T = bst.BlockSparseTensor.ones([Index(bsx.charge(sym, A), False), Index(bsx.charge(sym, B), False),
                                  Index(D, True)])
  ref = np.array([[x == y for y in tg] for x in want], dtype=float)
  eq(rec, bool(np.array_equal(T.todense().reshape(ref.shape), ref)), True, "many tensor", sym)
  eq(rec, bool(np.array_equal(T.transpose((2, 1, 0)).todense(), ref.reshape(
      len(A), len(B), -1).transpose(2, 1, 0))), True, "many transpose", sym)


def k_utils(desc, sym, rec):
  """unique / intersect / collapse / expand against python sets of rows."""
  dt, width = np.dtype(desc["dt"]), desc["w"]
  info = np.iinfo(dt)
  vals = [0, 1, -1, info.max, info.min, 2]
  if width == 0:  # 1d arrays
    rows = [v for v in vals[:4]]
    arr = lambda rs: np.array(rs, dtype=dt)
    key = lambda a: [int(x) for x in a]
  else:
    rows = [tuple(0 for _ in range(width))]
    for k in sorted({0, width // 2, width - 1}):
      for v in ((-1, 1) if width > 1 else (-1, 1, 5)):
        rows.append(tuple(v if j == k else 0 for j in range(width)))
    rows = rows[:6]
    arr = lambda rs: np.array(rs, dtype=dt).reshape(len(rs), width)
    key = lambda a: [tuple(int(x) for x in r) for r in a]
  seqs = [list(q) for n in (1, 2, 3, 4 if desc["th"] else 3) for q in itertools.product(rows, repeat=n)]
  seqs += [rows + rows[::-1]]
  for q in seqs:
    a = arr(q)
    rec.state()
    msg = f"{dt} width {width} {q}"
    back = lu.expand(lu.collapse(a), a.dtype, width, a.ndim)
    eq(rec, key(back), q, "collapse/expand", msg)
    for lt in (np.int16, np.int32):
      for ri, rv, rc in itertools.product((False, True), repeat=3):
        out = lu.unique(arr(q), ri, rv, rc, label_dtype=lt)
        out = list(out) if ri or rv or rc else [out]
        u = key(out.pop(0))
        rec.step()
        ok = sorted(u) == sorted(set(q))
        if ok and ri:
          ok = [q.index(x) for x in u] == [int(i) for i in out.pop(0)]
        if ok and rv:
          inv = out.pop(0)
          ok = inv.dtype == lt and inv.shape == (len(q),) and [u[i] for i in inv] == q
        if ok and rc:
          ok = [q.count(x) for x in u] == [int(i) for i in out.pop(0)]
        if not ok:
          rec.fail("utils.unique", f"{msg} ({ri},{rv},{rc}): {u} {out}")
        rec.validated()
  short = seqs[:len(rows) + len(rows) ** 2] + seqs[-1:]
  for q in short:
    for p in short:
      common = set(q) & set(p)
      msg = f"{dt} width {width} {q} {p}"
      for unq in ((False, True) if len(set(q)) == len(q) and len(set(p)) == len(p) else (False,)):
        for axis in (0, 1) if width else (0,):
          f = (lambda x: arr(x)) if axis == 0 else (lambda x: np.ascontiguousarray(arr(x).T))
          g = (lambda x: x) if axis == 0 else (lambda x: x.T)
          try:
            c = lu.intersect(f(q), f(p), axis=axis, assume_unique=unq)
            o = lu.intersect(f(q), f(p), axis=axis, assume_unique=unq, return_indices=True)
          except ValueError:
            rec.fail("utils.intersect refused", f"{msg} axis {axis}")
            continue
          rec.step()
          u = key(g(o[0]))
          if sorted(key(g(c))) != sorted(common) or sorted(u) != sorted(common) or [
              q.index(x) for x in u] != [int(i) for i in o[1]] or [
                  p.index(x) for x in u] != [int(i) for i in o[2]]:
            rec.fail("utils.intersect", f"{msg} axis {axis}: {key(g(c))} {o}")
          rec.validated()
  # positions of permuted layouts, fused degeneracies
  if width == 0:
    for dims in ((2,), (3, 2), (2, 3, 2), (1, 4), (2, 1, 3, 2)):
      for perm in itertools.permutations(range(len(dims))):
        st, acc = [0] * len(dims), 1
        for x in reversed(perm):
          st[x] = acc
          acc *= dims[x]
        eq(rec, [int(i) for i in lu.fuse_stride_arrays(list(dims), st)],
           [sum(s * i for s, i in zip(st, ix)) for ix in itertools.product(*map(range, dims))],
           "fuse_stride_arrays", f"{dims} {st}")
    for x in ([1], [2, 3], [1, 0, 4]):
      for y in ([5], [7, 11]):
        eq(rec, [int(i) for i in lu.fuse_degeneracies(x, y)], [i * j for i in x for j in y],
           "fuse_degeneracies", f"{x} {y}")


def k_wide(desc, sym, rec):
  """Charges that need more than the default integer width."""
  for dt, vals in ((np.int32, [100000, -100000, 7]), (np.int64, [10 ** 10, 5]), (np.int16, [100, -3]),
                   (np.int8, [100, -100])):
    c = lambda: lc.U1Charge(np.array(vals), charge_dtype=dt)
    rec.state()
    msg = f"U1 {dt.__name__} {vals}"
    w = [(v,) for v in vals]
    wide = {np.int8: 127}.get(dt)
    well(rec, c(), w, "wide make", msg)
    well(rec, c().copy(), w, "wide copy", msg)
    well(rec, c().dual(True), [(-v,) for v in vals], "wide dual", msg)
    well(rec, c()[[0]], w[:1], "wide getitem", msg)
    well(rec, c().unique(return_index=True)[0][[0]], [min(w)], "wide unique", msg)
    if wide is None:
      well(rec, c() + c(), [(a + b,) for a in vals for b in vals], "wide fuse", msg)
    well(rec, c() + c().dual(True), [(a - b,) for a in vals for b in vals] if wide is None else
         [(a - b,) for a in vals for b in vals], "wide difference", msg) if wide is None else None

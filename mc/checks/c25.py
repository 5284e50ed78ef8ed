"""C25: neural-network layers equal independently contracted references."""
import itertools
import json
import os
import shutil
import tempfile
import warnings
import numpy as np
import tensorflow as tf
from tensornetwork.tn_keras.layers import (DenseDecomp, DenseMPO, Conv2DMPO, DenseCondenser,
                                           DenseExpander, DenseEntangler)
from mc.core import Violation

TITLE = "layers against a reference contraction, batch by batch, through configuration and saving"
LEVEL = "model_checking"
RULE = ("every layer class x every parameter combination of the alphabet (dimensions, nodes, "
        "levels, bond, kernel, stride, padding, dilation, data format, bias, activation, "
        "dtype) x every batch of size 1 to 3 built from three examples in different orders "
        "and with extra leading dimensions, eagerly, symbolically and after rebuilding from "
        "configuration and weights; gradients against exact multilinear differences")
ASSUMPTIONS = [
    "the output legs of the entangler come in the order in which a tensor last touched them",
    "batches hold at least one example (tensorflow's vectorized_map fails on empty ones)",
    "dimensions that do not factor as documented are refused (any exception)",
    "tensorflow's own refusals (data formats, dilations) are not the layer's",
    "no torch, one CPU device"]
BOUNDS = {
    "quick": "legs of dimension 1..3, 1..5 nodes, 1..3 levels, bond 1..3, images 4x5, "
             "batches of size 1..3",
    "thorough": "the full products of the same alphabets, every activation, saving and loading of every layer",
}
BOUNDS["quick"] += "; wide layers of up to 8 nodes, legs up to 6, bond up to 7, images 7x9, batches of 5 and 37"
CLS = {"decomp": DenseDecomp, "mpo": DenseMPO, "conv": Conv2DMPO, "cond": DenseCondenser,
       "exp": DenseExpander, "ent": DenseEntangler}


def combos(th):
  for i, d, o in itertools.product((1, 2, 3), repeat=3):
    yield "decomp", dict(output_dim=o, decomp_size=d), (i,)
  yield "decomp", dict(output_dim=7, decomp_size=5), (6,)
  for n, b, o in itertools.product((1, 2, 3, 4), (1, 2, 3), (1, 2, 3)):
    if b**n * o <= (100 if th else 54) and (b > 1 or n < 3):
      yield "cond", dict(exp_base=b, num_nodes=n), (b**n * o,)
      yield "exp", dict(exp_base=b, num_nodes=n), (o,)
  for n, lv, i, o in itertools.product((2, 3, 4, 5), (1, 2, 3, 4), (1, 2, 3), (1, 2, 3)):
    if max(i, o)**n <= 81 and (th or n * lv <= 9) and (i * o > 1 or lv == 1):
      yield "ent", dict(output_dim=o**n, num_legs=n, num_levels=lv), (i**n,)
  for n, b, i, o in itertools.product((3, 4, 5), (1, 2, 3), (1, 2, 3), (1, 2, 3)):
    if max(i, o)**n <= 81 and (th or n < 5 or b == 2):
      yield "mpo", dict(output_dim=o**n, num_nodes=n, bond_dim=b), (i**n,)
  yield "mpo", dict(output_dim=1, num_nodes=5, bond_dim=2), (5**5,)
  yield "mpo", dict(output_dim=5**5, num_nodes=5, bond_dim=1), (1,)
  yield "mpo", dict(output_dim=4**3, num_nodes=3, bond_dim=2), (5**3,)
  yield "mpo", dict(output_dim=2**6, num_nodes=6, bond_dim=2), (2**6,)
  # wide layers
  yield "mpo", dict(output_dim=1, num_nodes=8, bond_dim=3), (2**8,)
  yield "mpo", dict(output_dim=2**7, num_nodes=7, bond_dim=4), (2**7,)
  yield "mpo", dict(output_dim=6**3, num_nodes=3, bond_dim=7), (4**3,)
  for n, lv, i, o in [(6, 3, 2, 2), (7, 2, 2, 2), (8, 1, 2, 2), (6, 2, 1, 2), (6, 2, 2, 1), (4, 2, 4, 3), (3, 2, 5, 6), (5, 5, 2, 2)]:
    yield "ent", dict(output_dim=o**n, num_legs=n, num_levels=lv), (i**n,)
  for n, b, o in [(5, 2, 3), (7, 2, 1), (6, 2, 2), (4, 3, 2), (2, 6, 4), (3, 4, 5)]:
    yield "cond", dict(exp_base=b, num_nodes=n), (b**n * o,)
    yield "exp", dict(exp_base=b, num_nodes=n), (o,)
  yield "decomp", dict(output_dim=33, decomp_size=40), (17,)
  for i, o, n, b, k in [(1, 1, 6, 4, (5, 4)), (2, 1, 5, 3, (4, 3)), (1, 2, 5, 2, (5, 5)), (4, 3, 2, 5, (4, 5)), (3, 2, 3, 4, 4)]:
    for st, pad, df in [(2, "same", "channels_last"), (1, "valid", "channels_last"), ((3, 2), "same", "channels_first")]:
      shp = (7, 9, i**n) if df == "channels_last" else (i**n, 7, 9)
      yield "conv", dict(filters=o**n, kernel_size=k, num_nodes=n, bond_dim=b, strides=st, padding=pad, data_format=df), shp
  img = (4, 5)
  ks = [1, 2, 3, (1, 2), (2, 1), (3, 2)]
  for n, b, i, o in itertools.product((2, 3), (1, 2, 3), (1, 2, 3), (1, 2, 3)):
    if n == 2 or (max(i, o) < 3 and b < 3):
      yield "conv", dict(filters=o**n, kernel_size=(2, 3), num_nodes=n, bond_dim=b), img + (i**n,)
  yield "conv", dict(filters=1, kernel_size=(1, 2), num_nodes=5, bond_dim=1), img + (5**5,)
  yield "conv", dict(filters=2**4, kernel_size=(1, 2), num_nodes=4, bond_dim=2), img + (16,)
  for k in ks:
    for st, dil in [(1, 1), (2, 1), ((1, 2), 1), ((2, 1), 1), (3, 1), (1, 2), (1, (1, 2)), (1, (2, 1))]:
      for pad in ("same", "valid"):
        for df in ("channels_last", "channels_first"):
          if not th and df == "channels_first" and k in (1, (1, 2), 3):
            continue
          shp = img + (4,) if df == "channels_last" else (4,) + img
          yield "conv", dict(filters=9, kernel_size=k, num_nodes=2, bond_dim=2, strides=st,
                             dilation_rate=dil, padding=pad, data_format=df), shp


def cases(tier):
  th = tier == "thorough"
  k = 0
  for L, kw, shp in combos(th):
    opts = [(ub, act) for ub in (True, False)
            for act in ((None, "relu", "tanh", "softmax") if th else (None, "relu"))]
    if not th:  # bias and activation spread over the combinations, each class sees all of them
      opts = [opts[k % 4]]
      if L == "conv" and kw.get("data_format") == "channels_first":
        opts = [(True, None if k % 3 else "relu")]
    k += 1
    for ub, act in opts:
      dt = "float64" if k % 4 and kw.get("data_format") != "channels_first" else "float32"
      yield {"L": L, "kw": kw, "shape": list(shp), "bias": ub, "act": act, "dt": dt,
             "k": k, "th": th}
  for L in CLS:
    yield {"L": L, "m": "refuse"}
    yield {"L": L, "m": "init"}
    yield {"L": L, "m": "save"}


# -- references ------------------------------------------------------------
def ref_kernel(ws):
  """MPO kernel of the convolution as (h, w, channels, filters)."""
  cur = ws[0]  # in, k0, bond, out
  cur = np.transpose(cur, (1, 0, 3, 2))  # k0, I, O, bond
  for w in ws[1:-1]:
    cur = np.einsum("kioa,jabp->kijopb", cur, w)
    s = cur.shape
    cur = cur.reshape(s[0], s[1] * s[2], s[3] * s[4], s[5])
  cur = np.einsum("kioa,jawp->kwijop", cur, ws[-1])
  s = cur.shape
  return cur.reshape(s[0], s[1], s[2] * s[3], s[4] * s[5])


def conv_ref(img, ker, st, dil, pad):
  """Plain convolution of one channels-last image."""
  kh, kw, _, co = ker.shape
  H, W, _ = img.shape
  eh, ew = (kh - 1) * dil[0] + 1, (kw - 1) * dil[1] + 1
  if pad == "same":
    oh, ow = -(-H // st[0]), -(-W // st[1])
    ph = max((oh - 1) * st[0] + eh - H, 0)
    pw = max((ow - 1) * st[1] + ew - W, 0)
    img = np.pad(img, ((ph // 2, ph - ph // 2), (pw // 2, pw - pw // 2), (0, 0)))
  else:
    oh, ow = -(-(H - eh + 1) // st[0]), -(-(W - ew + 1) // st[1])
  oh, ow = max(oh, 0), max(ow, 0)
  out = np.zeros((oh, ow, co), img.dtype)
  for y in range(oh):
    for x in range(ow):
      for a in range(kh):
        for b in range(kw):
          out[y, x] += img[y * st[0] + a * dil[0], x * st[1] + b * dil[1]] @ ker[a, b]
  return out


def pair(v):
  return (v, v) if isinstance(v, int) else tuple(v)


def ref_linear(d, x, ws):
  """The layer without bias and activation on one example, from the structure alone."""
  L, kw = d["L"], d["kw"]
  if L == "decomp":
    return (x @ ws[0]) @ ws[1]
  if L == "cond":
    b, n = kw["exp_base"], kw["num_nodes"]
    t = x.reshape((b,) * n + (-1,))
    for w in ws:  # always the last two legs go into the next tensor
      t = np.einsum("...ea,aec->...c", t, w)
    return t.ravel()
  if L == "exp":
    t = x
    for w in ws:
      t = np.einsum("...a,aec->...ec", t, w)
    return t.ravel()
  if L == "ent":
    n = kw["num_legs"]
    t = x.reshape((round(x.size**(1 / n)),) * n)
    last = list(range(n))  # time of the last touch, in the order (first leg, second leg)
    for i, w in enumerate(ws):
      p, q = i % n, (i + 1) % n
      t = np.tensordot(t, w, axes=((p, q), (0, 1)))
      rest = [j for j in range(n) if j not in (p, q)]
      t = np.transpose(t, [(rest + [p, q]).index(j) for j in range(n)])
      last[p], last[q] = n + 2 * i, n + 2 * i + 1
    return np.transpose(t, sorted(range(n), key=lambda j: last[j])).ravel()
  if L == "mpo":
    n = kw["num_nodes"]
    li = ws[0].shape[0]
    full = np.transpose(ws[0], (0, 2, 1))  # I, O, bond
    for w in ws[1:-1]:
      full = np.einsum("ioa,jabp->ijopb", full, w)
      s = full.shape
      full = full.reshape(s[0] * s[1], s[2] * s[3], s[4])
    full = np.einsum("ioa,jap->ijop", full, ws[-1])
    s = full.shape
    assert s[0] * s[1] == li**n
    return x @ full.reshape(s[0] * s[1], s[2] * s[3])
  ker = ref_kernel(ws)
  cf = kw.get("data_format") == "channels_first"
  img = np.moveaxis(x, 0, -1) if cf else x
  out = conv_ref(img, ker, pair(kw.get("strides", 1)), pair(kw.get("dilation_rate", 1)),
                 kw.get("padding", "same"))
  return np.moveaxis(out, -1, 0) if cf else out


def ref_layer(d, x, ws):
  bias = None
  if d["bias"]:
    ws, bias = ws[:-1], ws[-1]
  y = ref_linear(d, x, ws)
  if bias is not None:
    if d["L"] == "conv" and d["kw"].get("data_format") == "channels_first":
      bias = bias[:, None, None]
    y = y + bias
  a = d["act"]
  if a == "relu":
    y = np.maximum(y, 0)
  elif a == "tanh":
    y = np.tanh(y)
  elif a == "softmax":
    e = np.exp(y - y.max(-1, keepdims=True))
    y = e / e.sum(-1, keepdims=True)
  return y


def expected_shapes(d):
  """Shapes of the weights as the structure documents them."""
  L, kw = d["L"], d["kw"]
  n_in = d["shape"][0 if L == "conv" and kw.get("data_format") == "channels_first" else -1]
  if L == "decomp":
    out = [(n_in, kw["decomp_size"]), (kw["decomp_size"], kw["output_dim"])]
    nb = kw["output_dim"]
  elif L == "cond":
    o = n_in // kw["exp_base"]**kw["num_nodes"]
    out, nb = [(o, kw["exp_base"], o)] * kw["num_nodes"], o
  elif L == "exp":
    out, nb = [(n_in, kw["exp_base"], n_in)] * kw["num_nodes"], n_in * kw["exp_base"]**kw["num_nodes"]
  elif L == "ent":
    return None
  elif L == "mpo":
    n, b = kw["num_nodes"], kw["bond_dim"]
    i, o = (next(r for r in range(1, m + 1) if r**n == m) for m in (n_in, kw["output_dim"]))
    out, nb = [(i, b, o)] + [(i, b, b, o)] * (n - 2) + [(i, b, o)], kw["output_dim"]
  else:
    n, b, k = kw["num_nodes"], kw["bond_dim"], pair(kw["kernel_size"])
    i, o = (next(r for r in range(1, m + 1) if r**n == m) for m in (n_in, kw["filters"]))
    out, nb = [(i, k[0], b, o)] + [(i, b, b, o)] * (n - 2) + [(i, b, k[1], o)], kw["filters"]
  return out + ([(nb,)] if d["bias"] else [])


# -- execution -------------------------------------------------------------
def data(shape, seed, dt):
  n = int(np.prod(shape, dtype=int))
  j = np.arange(n)
  return (((j * 37 + seed * 53 + (j * j) % 11 * 7) % 23 - 11) / 8.0).reshape(shape).astype(dt)


def make(d, **extra):
  kw = {k: tuple(v) if isinstance(v, list) else v for k, v in d["kw"].items()}
  return CLS[d["L"]](use_bias=d["bias"], activation=d["act"], dtype=d["dt"], **kw, **extra)


def same(got, want, dt, sig, msg):
  got = np.asarray(got)
  if got.shape != want.shape:
    raise Violation(sig + ":shape", f"{msg}: shape {got.shape}, want {want.shape}")
  if str(got.dtype) != dt:
    raise Violation(sig + ":dtype", f"{msg}: dtype {got.dtype}, want {dt}")
  tol = (1e-9 if dt == "float64" else 2e-4)
  if got.size and not np.max(np.abs(got - want)) <= tol * max(1.0, np.max(np.abs(want))):
    raise Violation(sig + ":value", f"{msg}: got {got.ravel()[:6]}, want {want.ravel()[:6]}")


def run_case(d, rec):
  if d.get("m"):
    return {"refuse": refuse, "init": init, "save": save}[d["m"]](d, rec)
  shp, dt, L = tuple(d["shape"]), d["dt"], d["L"]
  tag = f"{L} {d['kw']} in={shp} bias={d['bias']} act={d['act']}"
  ex = [data(shp, s, dt) for s in (1, 2, 3)]
  if L == "conv" and 0 in conv_out(d, shp):
    return  # the kernel does not fit: nothing to compute
  lay = make(d)
  want_none = lay.compute_output_shape((None,) + shp)
  lay(np.zeros((1,) + shp, dt))
  es = expected_shapes(d)
  if es is not None and [tuple(w.shape) for w in lay.get_weights()] != es:
    raise Violation(f"{L}:weights", f"{tag}: weights of shapes {[w.shape for w in lay.get_weights()]}, want {es}")
  ws = [data(w.shape, 10 + i, dt) for i, w in enumerate(lay.get_weights())]
  lay.set_weights(ws)
  w64 = [w.astype(np.float64) for w in ws]
  R = [ref_layer(d, e.astype(np.float64), w64) for e in ex]
  if tuple(want_none) != (None,) + R[0].shape:
    raise Violation(f"{L}:declared", f"{tag}: unbuilt layer declares {want_none}, reference {R[0].shape}")
  rec.state((L, json.dumps(d["kw"], sort_keys=True), shp, d["bias"], d["act"]))
  batches = [(0,), (1, 0), (2, 1, 0)]
  if d["th"] or d["k"] % 3 == 0:
    batches += [(0, 0), (2,), (0, 1), (1, 2, 1)]
  if d["th"] or d["k"] % 7 == 0:
    batches += [(0, 1, 2, 2, 0), tuple((j * j) % 3 for j in range(37))]
  for b in batches:
    x = np.stack([ex[i] for i in b])
    want = np.stack([R[i] for i in b])
    try:
      got = lay(x)
    except Exception:
      if L == "conv" and tf_refuses(d, x):
        rec.outcome("tensorflow refuses")
        return
      raise
    rec.step()
    same(got, want, dt, f"{L}:batch{len(b)}", f"{tag} batch {b}")
    if tuple(lay.compute_output_shape(x.shape)) != tuple(want.shape):
      raise Violation(f"{L}:declared", f"{tag}: declares {lay.compute_output_shape(x.shape)} for {x.shape}")
    rec.validated()
  if L != "conv":  # extra leading dimensions
    leads = [((2, 2), (0, 1, 2, 0)), ((1, 3), (2, 0, 1))]
    if d["th"] or d["k"] % 3 == 1:
      leads += [((2, 1, 2), (1, 1, 0, 2))]
    for ld, b in leads:
      x = np.array([ex[i] for i in b], dt).reshape(ld + shp)
      want = np.array([R[i] for i in b]).reshape(ld + R[0].shape)
      same(lay(x), want, dt, f"{L}:leading", f"{tag} leading {ld}")
      if tuple(lay.compute_output_shape(x.shape)) != want.shape:
        raise Violation(f"{L}:declared", f"{tag}: declares {lay.compute_output_shape(x.shape)} for {x.shape}")
      rec.step()
  if any(not np.array_equal(a, b) for a, b in zip(lay.get_weights(), ws)):
    raise Violation(f"{L}:mutated", f"{tag}: calling the layer changed its weights")
  rebuild(d, lay, ws, ex, R, tag, rec)
  if d["th"] or d["k"] % 5 == 0:
    symbolic(d, lay, ex, R, tag, rec)
  if d["act"] is None and sum(w.size for w in ws) <= (150 if d["th"] else 60):
    gradient(d, lay, ws, ex, tag, rec)


def conv_out(d, shp):
  """Spatial output size from the documented parameters."""
  kw = d["kw"]
  hw = shp[1:] if kw.get("data_format") == "channels_first" else shp[:2]
  out = []
  for n, k, s, dl in zip(hw, pair(kw["kernel_size"]), pair(kw.get("strides", 1)),
                         pair(kw.get("dilation_rate", 1))):
    eff = (k - 1) * dl + 1
    out.append(-(-n // s) if kw.get("padding", "same") == "same" else max(0, -(-(n - eff + 1) // s)))
  return out


def tf_refuses(d, x):
  kw = d["kw"]
  k = pair(kw["kernel_size"])
  cf = kw.get("data_format") == "channels_first"
  ch = x.shape[1 if cf else -1]
  try:
    tf.nn.conv2d(x, np.ones(k + (ch, kw["filters"]), x.dtype), pair(kw.get("strides", 1)),
                 kw.get("padding", "same").upper(), data_format="NCHW" if cf else "NHWC",
                 dilations=pair(kw.get("dilation_rate", 1)))
  except Exception:
    return True
  return False


def rebuild(d, lay, ws, ex, R, tag, rec):
  L, dt = d["L"], d["dt"]
  fresh = make(d, name=lay.name).get_config()
  built = lay.get_config()
  if fresh != built:
    diff = {k: (fresh.get(k), built.get(k)) for k in set(fresh) | set(built) if fresh.get(k) != built.get(k)}
    raise Violation(f"{L}:config", f"{tag}: building changes the configuration {diff}")
  conf = json.loads(json.dumps(built))
  copy = CLS[L].from_config(conf)
  x = np.stack([ex[1], ex[2]])
  copy(x)
  copy.set_weights(ws)
  same(copy(x), np.stack([R[1], R[2]]), dt, f"{L}:rebuilt", f"{tag} from configuration {conf}")
  if json.loads(json.dumps(copy.get_config())) != conf:
    raise Violation(f"{L}:config", f"{tag}: configuration {conf} rebuilt as {copy.get_config()}")
  # the copy is independent of the original
  copy.set_weights([w * 0 + 1 for w in ws])
  if any(not np.array_equal(a, b) for a, b in zip(lay.get_weights(), ws)):
    raise Violation(f"{L}:shared", f"{tag}: the rebuilt layer shares weights")
  rec.step(2)
  rec.outcome("rebuilt")


def symbolic(d, lay, ex, R, tag, rec):
  """Inside a compiled function with unknown batch (and unknown middle dimensions)."""
  L, dt = d["L"], d["dt"]
  shp = tuple(d["shape"])
  inp = tf.keras.Input(shp, dtype=dt)
  out = lay(inp)
  if tuple(out.shape) != (None,) + R[0].shape:
    raise Violation(f"{L}:symbolic", f"{tag}: symbolic shape {out.shape}, want {R[0].shape}")
  model = tf.keras.Model(inp, out)
  for b in ((0, 1, 2), (1,)):
    same(model(np.stack([ex[i] for i in b])), np.stack([R[i] for i in b]), dt, f"{L}:symbolic", f"{tag} model")
  rec.step(2)
  if L != "conv":
    inp = tf.keras.Input((None,) + shp, dtype=dt)
    out = lay(inp)
    if tuple(out.shape) != (None, None) + R[0].shape:
      raise Violation(f"{L}:symbolic", f"{tag}: symbolic shape {out.shape} for unknown middle dimension")
    model = tf.keras.Model(inp, out)
    x = np.array([ex[i] for i in (0, 2, 1, 1, 2, 0)]).reshape((2, 3) + shp)
    same(model(x), np.array([R[i] for i in (0, 2, 1, 1, 2, 0)]).reshape((2, 3) + R[0].shape), dt,
         f"{L}:symbolic", f"{tag} model with unknown middle dimension")
    rec.step()
  rec.outcome("symbolic")


def gradient(d, lay, ws, ex, tag, rec):
  """The map is affine in every single weight entry: the derivative is an exact difference."""
  L, dt = d["L"], d["dt"]
  if dt != "float64" or pair(d["kw"].get("dilation_rate", 1)) != (1, 1):
    return  # no dilated gradient on the CPU
  x = np.stack([ex[0], ex[1]])
  base = np.stack([ref_layer(d, e, ws) for e in x])
  c = data(base.shape, 77, dt)
  with tf.GradientTape() as tape:
    y = tf.reduce_sum(lay(x) * c)
  g = tape.gradient(y, lay.trainable_weights)
  if len(g) != len(ws) or any(v is None for v in g):
    raise Violation(f"{L}:gradient", f"{tag}: weights without gradient")
  for i, w in enumerate(ws):
    want = np.zeros(w.shape)
    for idx in np.ndindex(*w.shape):
      w2 = [v.copy() for v in ws]
      w2[i][idx] += 1.0
      want[idx] = np.sum((np.stack([ref_layer(d, e, w2) for e in x]) - base) * c)
    same(g[i], want, dt, f"{L}:gradient", f"{tag} weight {i}")
    rec.step()
  rec.outcome("gradient")


DEFAULT = {
    "decomp": (dict(output_dim=3, decomp_size=2), (4,)),
    "cond": (dict(exp_base=2, num_nodes=2), (12,)),
    "exp": (dict(exp_base=2, num_nodes=2), (3,)),
    "ent": (dict(output_dim=27, num_legs=3, num_levels=2), (8,)),
    "mpo": (dict(output_dim=27, num_nodes=3, bond_dim=2), (8,)),
    "conv": (dict(filters=9, kernel_size=(2, 3), num_nodes=2, bond_dim=3), (4, 5, 4)),
}


def refuse(d, rec):
  """Dimensions outside the documented ones are refused, never silently computed."""
  L = d["L"]
  kw, shp = DEFAULT[L]
  bad = []
  if L == "cond":
    bad = [(kw, (n,)) for n in (9, 10, 11, 13)]
  if L in ("ent", "mpo"):
    bad = [(kw, (n,)) for n in (2, 7, 9, 16, 26)] + [(dict(kw, output_dim=n), (8,)) for n in (2, 9, 26, 28)]
    if L == "ent":
      bad += [(dict(kw, num_legs=1), (8,)), (dict(kw, num_levels=0), (8,))]
    else:
      bad += [(dict(kw, num_nodes=n, output_dim=9), (4,)) for n in (1, 2)]
  if L == "conv":
    bad = [(kw, (4, 5, n)) for n in (2, 3, 5, 8)] + [(dict(kw, filters=n), shp) for n in (2, 3, 8)]
    bad += [(dict(kw, num_nodes=1), shp), (dict(kw, padding="full"), shp), (dict(kw, data_format="NHWC"), shp)]
  for k2, s in bad:
    try:
      y = CLS[L](**k2)(np.ones((1,) + s, "float32"))
    except Exception:
      rec.outcome("refused")
      rec.step()
      continue
    raise Violation(f"{L}:refuse", f"{L} {k2} accepted inputs {s} and returned shape {y.shape}")
  # unknown last dimension
  try:
    ly = CLS[L](**kw)
    ly.build((None,) * len(shp) + (None,))
  except Exception:
    rec.outcome("refused")
  else:
    raise Violation(f"{L}:refuse", f"{L} built for an unknown last dimension")
  rec.state(("refuse", L))
  # input_dim is a synonym of input_shape
  if L != "conv":
    conf = CLS[L](input_dim=shp[0], **kw).get_config()
    if tuple(conf.get("batch_input_shape", ())) != (None,) + shp:
      raise Violation(f"{L}:input_dim", f"{L}: input_dim gives {conf}")


def init(d, rec):
  """Initializers and regularizers reach exactly the weights they are documented for."""
  L = d["L"]
  kw, shp = DEFAULT[L]
  consts = tf.keras.initializers.Constant
  for ub in (True, False):
    for kw2 in ({}, {"kernel_initializer": consts(0.5), "bias_initializer": consts(0.25)},
                {"kernel_initializer": "ones", "bias_initializer": "ones"}):
      lay = CLS[L](use_bias=ub, **kw, **kw2)
      lay(np.ones((1,) + shp, "float32"))
      W = lay.get_weights()
      names = [w.name.split("/")[-1] for w in lay.weights]
      if len(lay.trainable_weights) != len(W):
        raise Violation(f"{L}:init", f"{L}: {len(lay.trainable_weights)} of {len(W)} weights trainable")
      for n, w in zip(names, W):
        isb = n.startswith("bias")
        if isb and not ub:
          raise Violation(f"{L}:init", f"{L}: bias without use_bias")
        if not kw2:
          ok = np.all(w == 0) if isb else np.unique(w).size > 1 or w.size == 1
        elif kw2["kernel_initializer"] == "ones":
          ok = np.all(w == 1)
        else:
          ok = np.all(w == (0.25 if isb else 0.5))
        if not ok:
          raise Violation(f"{L}:init", f"{L}: weight {n} initialized to {w.ravel()[:4]} with {kw2}")
      if sum(n.startswith("bias") for n in names) != int(ub):
        raise Violation(f"{L}:init", f"{L}: weights {names} with use_bias={ub}")
      cfg = lay.get_config()
      copy = CLS[L].from_config(cfg)
      copy(np.ones((1,) + shp, "float32"))
      if kw2 and any(not np.array_equal(a, b) for a, b in zip(W, copy.get_weights())):
        raise Violation(f"{L}:init", f"{L}: initializers lost in the configuration {cfg}")
      rec.step()
      rec.state(("init", L, ub, str(sorted(kw2))))
  if L == "conv":
    for kr, br in itertools.product((None, "l2", tf.keras.regularizers.L1(0.5)), (None, "l1")):
      lay = Conv2DMPO(kernel_regularizer=kr, bias_regularizer=br, bias_initializer=consts(0.25), **kw)
      lay(np.ones((1,) + shp, "float32"))
      W = lay.get_weights()
      f = {None: lambda w: 0.0, "l2": lambda w: 0.01 * np.sum(w**2)}.get(kr if kr in (None, "l2") else 0,
                                                                        lambda w: 0.5 * np.sum(np.abs(w)))
      want = sum(f(w) for w in W[:-1]) + (0.01 * np.sum(np.abs(W[-1])) if br else 0.0)
      got = float(sum(lay.losses)) if lay.losses else 0.0
      if abs(got - want) > 1e-4 * max(1, want):
        raise Violation("conv:regularizer", f"regularizers {kr} {br}: loss {got}, want {want}")
      copy = Conv2DMPO.from_config(lay.get_config())
      copy(np.ones((1,) + shp, "float32"))
      copy.set_weights(W)
      got2 = float(sum(copy.losses)) if copy.losses else 0.0
      if abs(got2 - want) > 1e-4 * max(1, want):
        raise Violation("conv:regularizer", f"regularizers lost in the configuration: {got2} instead of {want}")
      rec.step()


def save(d, rec):
  """A model holding the layer twice (before and after another one) survives saving."""
  L = d["L"]
  kw, shp = DEFAULT[L]
  tmp = tempfile.mkdtemp(prefix="mc25")
  try:
    for ub, act in ((True, "relu"), (False, None)):
      dd = {"L": L, "kw": kw, "bias": ub, "act": act}
      m = tf.keras.Sequential([CLS[L](use_bias=ub, activation=act, input_shape=shp, **kw),
                               tf.keras.layers.Flatten(), tf.keras.layers.Dense(2)])
      W = [data(w.shape, 5 + i, "float32") for i, w in enumerate(m.get_weights())]
      m.set_weights(W)
      x = np.stack([data(shp, s, "float32") for s in (1, 2)])
      nl = len(m.layers[0].get_weights())
      h = np.stack([ref_layer(dd, e.astype(np.float64), [w.astype(np.float64) for w in W[:nl]]).ravel() for e in x])
      want = h @ W[nl] + W[nl + 1]
      same(m(x), want, "float32", f"{L}:model", f"{L} in a model")
      same(m.predict(x, verbose=0, batch_size=1), want, "float32", f"{L}:predict", f"{L} predict")
      for fmt in (("h5", "keras", "tf") if ub else ("h5",)):
        p = os.path.join(tmp, f"m{int(ub)}" + {"h5": ".h5", "keras": ".keras", "tf": "_dir"}[fmt])
        with warnings.catch_warnings():
          warnings.simplefilter("ignore")
          m.save(p, save_format=fmt)
          m2 = tf.keras.models.load_model(p)
        same(m2(x), want, "float32", f"{L}:saved", f"{L} loaded from {fmt}")
        rec.step()
      rec.state(("save", L, ub))
      # training moves every weight of the layer and nothing breaks the batch contract
      m.compile(optimizer="sgd", loss="mse")
      m.fit(x, np.ones((2, 2)), epochs=1, verbose=0, batch_size=2)
      W2 = m.layers[0].get_weights()
      h = np.stack([ref_layer(dd, e.astype(np.float64), [w.astype(np.float64) for w in W2]).ravel() for e in x])
      if np.all(np.isfinite(h)) and np.max(np.abs(h)) < 1e6:
        w0 = m.get_weights()
        same(m(x), h @ w0[nl] + w0[nl + 1], "float32", f"{L}:trained", f"{L} after training")
      rec.step()
  finally:
    shutil.rmtree(tmp)

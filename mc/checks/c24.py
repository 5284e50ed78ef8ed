"""C24: calls never modify what the caller passes in; objects are independent."""
import copy as copymod
import itertools
import os
import shutil
import tempfile
import numpy as np
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from tensornetwork.backends.abstract_backend import AbstractBackend
from tensornetwork.block_sparse import linalg as bsl
from tensornetwork.block_sparse import initialization as bsi
from tensornetwork.block_sparse.charge import BaseCharge, fuse_charges
from tensornetwork.block_sparse.index import Index
from tensornetwork.block_sparse.blocksparsetensor import (BlockSparseTensor, ChargeArray,
                                                          tensordot as bs_tensordot,
                                                          outerproduct as bs_outer)
from tensornetwork.contractors.custom_path_solvers import nconinterface, pathsolvers
from tensornetwork.quantum import quantum as qu
from tensornetwork.linalg import initialization, krylov, linalg, operations, node_linalg
from tensornetwork.matrixproductstates.base_mps import BaseMPS
from tensornetwork.matrixproductstates.mpo import BaseMPO, InfiniteMPO
from mc import bsx, netx
from mc.core import Violation

TITLE = "no call modifies its arguments; objects from shared inputs are independent"
LEVEL = "model_checking"
RULE = ("calls: every call of the catalogue x every memory layout of its array arguments "
        "(C, Fortran, strided view of a larger array, reversed view, read-only) x "
        "real/complex; every argument (arrays, lists, dicts, nodes, edges, tensors, "
        "charges) is compared byte by byte, identity by identity before and after; three "
        "calls on the same arguments must answer the same, also after the caller "
        "overwrote the previous result. histories: pairs of objects built from shared "
        "inputs or derived from one another; every sequence of in-place operations up to "
        "the depth on one of them leaves the other and the shared inputs unchanged, and "
        "replaying the sequence on the other gives the same states")
ASSUMPTIONS = [
    "operations documented as in place: node surgery (contract, split, reorder, flatten, "
    "set_tensor), MPS gauge changes, gates and DMRG act on the object they are called on",
    "adding two block-sparse tensors, and the symmetric Krylov solvers, may re-order the "
    "storage of their operands (`contiguous` in place): content, legs and flows must stay",
    "the lazily computed unique charges inside a charge object are a cache"]
BOUNDS = {
    "quick": "in-place sequences up to length 2 (MPS, nodes, block-sparse pairs), 5 layouts",
    "thorough": "in-place sequences up to length 3",
}
LAYOUTS = "CFSRN"
SENT = 77.25


# ------------------------------------------------------------------ layouts
class World:
  """Hands out the caller's arrays in one memory layout and remembers them."""

  def __init__(self, layout, cplx, dt=None):
    self.layout, self.cplx = layout, cplx
    self.base = []
    self.k = 0
    self.objs = []

  def wrap(self, a):
    a = np.asarray(a)
    L = self.layout
    if L == "C":
      v = np.array(a, order="C")
      b = v
    elif L == "F":
      v = np.array(a, order="F")
      b = v
    elif L == "R":
      v = np.array(a, order="C")
      v.setflags(write=False)
      b = v
    elif L == "N":
      b = np.array(a[tuple(slice(None, None, -1) for _ in a.shape)])
      v = b[tuple(slice(None, None, -1) for _ in a.shape)] if a.ndim else b
    else:
      b = np.full(tuple(2 * s + 1 for s in a.shape), SENT).astype(a.dtype)
      if a.ndim:
        v = b[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
      else:
        b = np.array(a)
        v = b
    self.base.append((b, b.tobytes()))
    return v

  def arr(self, *shape, k=None):
    self.k += 1
    return self.wrap(netx.data(shape, self.k if k is None else k, self.cplx))

  def pos(self, *shape):
    """Positive entries."""
    self.k += 1
    return self.wrap(np.abs(netx.data(shape, self.k, False)) + 0.5)

  def herm(self, n):
    self.k += 1
    a = netx.data((n, n), self.k, self.cplx)
    return self.wrap(a + a.conj().T + 2 * np.diag(np.arange(n)))

  def inv(self, n):
    self.k += 1
    a = netx.data((n, n), self.k, self.cplx)
    return self.wrap(a + 5 * n * np.eye(n))

  def const(self, a):
    return self.wrap(a)

  def keepl(self, o):
    """A list or set whose members may be consumed, but which must not change."""
    self.objs.append((o, "members", snap(o, "members")))
    return o

  def keep(self, *objs, align=False):
    """Objects (lists, nodes, tensors) that must come out as they went in."""
    for o in objs:
      self.objs.append((o, align, snap(o, align)))
    return objs[0] if len(objs) == 1 else objs

  def check(self, what):
    for n, (b, old) in enumerate(self.base):
      if b.tobytes() != old:
        raise Violation(f"{what}: array argument modified",
                        f"{what}: array {n} handed in by the caller (layout {self.layout}) "
                        f"changed")
    for n, (o, align, old) in enumerate(self.objs):
      new = snap(o, align)
      if new != old:
        raise Violation(f"{what}: argument modified",
                        f"{what}: argument {n} ({type(o).__name__}) was {str(old)[:700]}\n"
                        f"  now {str(new)[:700]}")


def snap(o, align=False):
  """Everything observable about an object of the caller."""
  if align == "members":
    ids = [id(x) for x in o]
    return (type(o).__name__, tuple(sorted(ids) if isinstance(o, (set, frozenset)) else ids))
  if isinstance(o, np.ndarray):
    return ("arr", str(o.dtype), o.shape, o.strides, o.tobytes())
  if isinstance(o, (list, tuple)):
    return (type(o).__name__, tuple(id(x) if not isinstance(x, (int, float, str, complex))
                                    else x for x in o), tuple(snap(x, align) for x in o))
  if isinstance(o, dict):
    return ("dict", tuple((snap(k), snap(v, align)) for k, v in o.items()))
  if isinstance(o, (set, frozenset)):
    return ("set", tuple(sorted(id(x) for x in o)))
  if isinstance(o, ChargeArray):
    body = (np.asarray(o.todense()).tobytes(),) if align else (
        o.data.tobytes(), tuple(tuple(int(i) for i in g) for g in o._order),
        tuple(bool(f) for f in o._flows), tuple(tuple(bsx.read(c)) for c in o._charges))
    return ("bs", type(o).__name__, str(o.dtype), o.shape,
            tuple(tuple(bool(f) for f in g) for g in o.flows),
            tuple(tuple(tuple(bsx.read(c)) for c in g) for g in o.charges)) + body
  if isinstance(o, Index):
    return ("index", tuple(id(c) for c in o._charges),
            tuple(tuple(bsx.read(c)) for c in o._charges), tuple(bool(f) for f in o.flow))
  if isinstance(o, BaseCharge):
    return ("charge", tuple(bsx.read(o)), tuple(t.__name__ for t in o.charge_types))
  if isinstance(o, tn.CopyNode):
    return ("copynode", id(o), o.name, o.rank, o.dimension, tuple(id(e) for e in o.edges))
  if isinstance(o, tn.AbstractNode):
    return ("node", id(o), o.name, tuple(o.axis_names), id(o.tensor),
            snap(o.tensor, align), tuple(snap(e) for e in o.edges))
  if isinstance(o, tn.Edge):
    return ("edge", id(o), o.name, id(o.node1), o.axis1,
            None if o.is_dangling() else (id(o.node2), o.axis2))
  if isinstance(o, tn.Tensor):
    return ("tensor", o.backend.name, snap(o.array, align))
  if isinstance(o, BaseMPS):
    return ("mps", o.center_position, snap(list(o.tensors), align),
            snap(o.connector_matrix, align))
  if isinstance(o, BaseMPO):
    return ("mpo", snap(list(o.tensors), align), o.name)
  if isinstance(o, qu.QuOperator):
    return ("qu", tuple(snap(e) for e in o.out_edges), tuple(snap(e) for e in o.in_edges),
            tuple(sorted(str(snap(n)) for n in o.nodes)))
  if isinstance(o, (AbstractBackend, str, int, float, complex, bool, bytes,
                    type(None), np.generic, type)):
    return repr(o) if not isinstance(o, AbstractBackend) else o.name
  if hasattr(o, "__array__"):
    return ("ext", np.asarray(o).tobytes())
  return ("id", id(o))


# ------------------------------------------------------------------ results
def value(r):
  """Nested plain values of a result, for comparison."""
  if isinstance(r, (list, tuple)):
    return [value(x) for x in r]
  if isinstance(r, (set, frozenset)):
    return ["set", len(r)]
  if isinstance(r, dict):
    return [[str(k) if isinstance(k, (int, str)) else "", value(v)] for k, v in r.items()]
  if isinstance(r, ChargeArray):
    return ["bs", [tuple(bool(f) for f in g) for g in r.flows],
            [[bsx.read(c) for c in g] for g in r.charges], np.array(r.todense())]
  if isinstance(r, Index):
    return ["index", [bsx.read(c) for c in r._charges], [bool(f) for f in r.flow]]
  if isinstance(r, BaseCharge):
    return ["charge", bsx.read(r)]
  if isinstance(r, tn.CopyNode):
    return ["copynode", r.rank, r.dimension]
  if isinstance(r, tn.AbstractNode):
    return ["node", r.name, list(r.axis_names), value(r.tensor)]
  if isinstance(r, tn.Edge):
    return ["edge", r.name, r.axis1]
  if isinstance(r, tn.Tensor):
    return value(r.array)
  if isinstance(r, BaseMPS):
    return ["mps", r.center_position, value(list(r.tensors)), value(r.connector_matrix)]
  if isinstance(r, BaseMPO):
    return ["mpo", value(list(r.tensors))]
  if isinstance(r, qu.QuOperator):
    return value(qvalue(r))
  if r is None or isinstance(r, (str, bytes, bool)):
    return r
  if isinstance(r, (int, float, complex, np.generic)):
    return np.asarray(r)
  if isinstance(r, type) or not hasattr(r, "__array__"):
    return str(r)
  return np.array(r)


def qvalue(q):
  """Dense value of a QuOperator without touching it."""
  nd, ed = tn.copy(q.nodes)
  edges = [ed[e] for e in list(q.out_edges) + list(q.in_edges)]
  if q.ref_nodes and not q.nodes:
    return None
  res = tn.contractors.greedy(list(nd.values()), output_edge_order=edges,
                              ignore_edge_order=not edges)
  return np.asarray(res.tensor)


def same(a, b, tol=1e-9):
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
      return False
    if a.dtype.kind not in "fciub" or b.dtype.kind not in "fciub":
      return str(a.tolist()) == str(b.tolist())
    return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
  return a == b


def poison(r, bases, depth=0):
  """The caller scribbles over a result (only memory that is not his input)."""
  n = 0
  if isinstance(r, (list, tuple)):
    return sum(poison(x, bases, depth + 1) for x in r)
  if isinstance(r, dict):
    return sum(poison(x, bases, depth + 1) for x in r.values())
  if isinstance(r, ChargeArray):
    return poison(r.data, bases)
  if isinstance(r, tn.CopyNode):
    return 0
  if isinstance(r, tn.AbstractNode):
    return poison(r.tensor, bases)
  if isinstance(r, tn.Tensor):
    return poison(r.array, bases)
  if isinstance(r, (BaseMPS, BaseMPO)):
    return poison(list(r.tensors), bases)
  if isinstance(r, np.ndarray) and r.flags.writeable and r.dtype.kind in "fciu":
    if not any(np.shares_memory(r, b) for b, _ in bases):
      r[...] = 99
      n = 1
  return n


# ---------------------------------------------------------------- catalogue
CALLS = {}


def call(group, name, bes=("numpy",), bytype="rc", layouts=LAYOUTS, tol=1e-9):
  def deco(f):
    CALLS.setdefault(group, []).append((name, f, bes, bytype, layouts, tol))
    return f
  return deco


ALL = ("numpy", "jax", "tensorflow")


def backend_calls():
  def m(name, f, **kw):
    call("backend", name, **kw)(f)
  m("tensordot", lambda W, be: (lambda a, b, ax: be.tensordot(a, b, ax))(
      W.arr(2, 3, 4), W.arr(4, 3), W.keep([[1, 2], [1, 0]])))
  m("tensordot axes=1", lambda W, be: be.tensordot(W.arr(2, 3), W.arr(3, 2), 1))
  m("reshape", lambda W, be: be.reshape(W.arr(2, 3), W.keep([3, 2])))
  m("reshape array", lambda W, be: be.reshape(W.arr(2, 3), W.keep(np.array([6]))))
  m("transpose", lambda W, be: be.transpose(W.arr(2, 3, 2), W.keep([2, 0, 1])))
  m("transpose none", lambda W, be: be.transpose(W.arr(2, 3)))
  m("slice", lambda W, be: be.slice(W.arr(3, 4), (1, 1), (2, 2)))
  m("slice list", lambda W, be: be.slice(W.arr(3, 4), W.keep([1, 1]), W.keep([2, 2])))
  for ax in (0, 1):
    m(f"shape_concat {ax}", lambda W, be, ax=ax: be.shape_concat(
        W.keep([W.arr(2, 2), W.arr(2, 2)]), ax))
  m("shape_prod", lambda W, be: be.shape_prod(W.keep([2, 3])))
  m("shape_tensor", lambda W, be: be.shape_tensor(W.arr(2, 3)))
  m("shape_tuple", lambda W, be: be.shape_tuple(W.arr(2, 3)))
  m("sparse_shape", lambda W, be: be.sparse_shape(W.arr(2, 3)))
  m("sqrt", lambda W, be: be.sqrt(W.pos(2, 2)))
  m("convert", lambda W, be: be.convert_to_tensor(W.arr(2, 2)))
  m("outer", lambda W, be: be.outer_product(W.arr(2, 2), W.arr(3)))
  m("einsum", lambda W, be: be.einsum("ab,bc,c->a", W.arr(2, 3), W.arr(3, 2), W.arr(2)))
  m("norm", lambda W, be: be.norm(W.arr(2, 3)))
  for fn in ("sin", "cos", "exp", "abs", "sign", "conj"):
    m(fn, lambda W, be, fn=fn: getattr(be, fn)(W.arr(2, 3)), bytype="r" if fn == "sign"
      else "rc")
  m("log", lambda W, be: be.log(W.pos(2, 2)))
  m("inv", lambda W, be: be.inv(W.inv(3)))
  m("expm", lambda W, be: be.expm(W.herm(2)))
  m("eigh", lambda W, be: be.eigh(W.herm(3)))
  for op in ("addition", "subtraction", "multiply", "divide"):
    m(op, lambda W, be, op=op: getattr(be, op)(W.arr(2, 3), W.pos(2, 3)))
    m(op + " broadcast", lambda W, be, op=op: getattr(be, op)(W.arr(2, 3), W.pos(3)))
    m(op + " scalar", lambda W, be, op=op: getattr(be, op)(W.arr(2, 3), 2.0))
  m("power", lambda W, be: be.power(W.pos(2, 3), W.pos(3)))
  m("index_update", lambda W, be: be.index_update(
      *(lambda t: (t, W.const(np.asarray(t).real > 0), W.arr()))(W.arr(3, 3))))
  m("index_update scalar", lambda W, be: be.index_update(
      *(lambda t: (t, W.const(np.asarray(t).real > 0), 5.0))(W.arr(3, 3))))
  m("bright", lambda W, be: be.broadcast_right_multiplication(W.arr(2, 3), W.arr(3)))
  m("bleft", lambda W, be: be.broadcast_left_multiplication(W.arr(2), W.arr(2, 3)))
  m("sum", lambda W, be: be.sum(W.arr(2, 3), axis=(0,), keepdims=True))
  m("sum all", lambda W, be: be.sum(W.arr(2, 3)))
  m("matmul", lambda W, be: be.matmul(W.arr(2, 3), W.arr(3, 2)))
  for off in (-1, 0, 1):
    m(f"diagonal {off}", lambda W, be, o=off: be.diagonal(W.arr(3, 3), offset=o))
    m(f"diagflat {off}", lambda W, be, o=off: be.diagflat(W.arr(2, 2), k=o))
    m(f"trace {off}", lambda W, be, o=off: be.trace(W.arr(3, 3), offset=o))
  m("diagonal ax", lambda W, be: be.diagonal(W.arr(3, 2, 3), axis1=0, axis2=2))
  m("trace ax", lambda W, be: be.trace(W.arr(3, 2, 3), axis1=0, axis2=2))
  for p in (1, 2):
    m(f"pivot {p}", lambda W, be, p=p: be.pivot(W.arr(2, 3, 2), pivot_axis=p))
    for nnd in (False, True):
      m(f"qr {p} {nnd}", lambda W, be, p=p, n=nnd: be.qr(W.arr(2, 3, 2), p, n))
      m(f"rq {p} {nnd}", lambda W, be, p=p, n=nnd: be.rq(W.arr(2, 3, 2), p, n))
    for kw in ({}, {"max_singular_values": 1}, {"max_truncation_error": 0.3},
               {"max_truncation_error": 0.3, "relative": True}):
      m(f"svd {p} {kw}", lambda W, be, p=p, kw=kw: be.svd(W.arr(2, 3, 2), p, **kw))
  m("item", lambda W, be: be.item(W.arr(1, 1)))
  m("serialize", lambda W, be: be.deserialize_tensor(be.serialize_tensor(W.arr(2, 3))),
    layouts="CFSRN")
  m("jit", lambda W, be: be.jit(lambda x: x * 2)(W.arr(2, 2)))

  def mv(x, H):
    return H @ x
  for reo in (False, True):
    m(f"eigsh_lanczos {reo}", lambda W, be, r=reo: be.eigsh_lanczos(
        mv, W.keep([W.herm(4)]), W.arr(4), num_krylov_vecs=4, reorthogonalize=r,
        numeig=1 + r, ndiag=2), tol=1e-6)
  m("eigs", lambda W, be: [np.sort_complex(np.array(be.eigs(
      mv, W.keep([W.herm(5)]), W.arr(5), num_krylov_vecs=5, numeig=2)[0]))], tol=1e-6)
  for x0 in (False, True):
    m(f"gmres {x0}", lambda W, be, x=x0: be.gmres(
        mv, W.arr(3), W.keep([W.inv(3)]), W.keep({"zz": 1}) and None,
        W.arr(3) if x else None, num_krylov_vectors=3, maxiter=2), tol=1e-5)

  def mvk(x, H, s=1.0):
    return s * (H @ x)
  m("gmres kwargs", lambda W, be: be.gmres(
      mvk, W.arr(3), W.keep([W.inv(3)]), W.keep({"s": 2.0}), W.arr(3),
      num_krylov_vectors=3, maxiter=2), tol=1e-5)


def ncon_calls():
  def n(name, shapes, net, con=None, out=None, **kw):
    def f(W, be):
      ts = W.keep([W.arr(*s) for s in shapes])
      ls = W.keep([list(x) for x in net])
      args = {}
      if con is not None:
        args["con_order"] = W.keep(list(con))
      if out is not None:
        args["out_order"] = W.keep(list(out))
      return tn.ncon(ts, ls, backend=be, **args)
    call("ncon", name, bes=ALL, **kw)(f)
  n("mat", [(2, 3), (3, 2)], [[-1, 1], [1, -2]])
  n("partial trace", [(2, 3, 2), (3,)], [[1, 2, 1], [2]])
  n("three", [(2, 3), (3, 2), (2, 2)], [[1, 2], [2, 3], [3, 1]], con=[3, 1, 2])
  n("outer", [(2,), (3,)], [[-2], [-1]])
  n("batch", [(2, 3, 2), (2, 2, 3)], [[-1, -2, 1], [-1, 1, -3]])
  n("batch summed", [(2, 3), (2, 3)], [[-1, 1], [-1, 1]])
  n("str", [(2, 3), (3, 2)], [["-a", "b"], ["b", "-c"]], con=["b"], out=["-c", "-a"])
  n("triple sum", [(2, 3), (2, 2), (2,)], [[1, -1], [1, -2], [1]])
  n("diag", [(2, 2, 3)], [[-1, -1, -2]])
  n("transpose", [(2, 3)], [[-2, -1]])
  n("scalar", [(2,), (2,), ()], [[1], [1], []])

  def tens(W, be):
    ts = W.keep([tn.Tensor(W.arr(2, 3), backend=be), tn.Tensor(W.arr(3, 2), backend=be)])
    return tn.ncon(ts, W.keep([[-1, 1], [1, -2]]), backend=be)
  call("ncon", "Tensor", bes=ALL)(tens)

  def builder(W, be):
    a, b = tn.Tensor(W.arr(2, 3), backend=be), tn.Tensor(W.arr(3, 2), backend=be)
    W.keep(a, b)
    x, y = a(-1, 1), b(1, -2)
    r1 = tn.finalize(x @ y)
    r2 = tn.finalize(x @ y)
    if len(x.tensors) != 1 or len(y.axes) != 1:
      raise Violation("NconBuilder operand changed", "builder grew by matmul")
    return [r1, r2]
  call("ncon", "builder", bes=ALL)(builder)

  def slv(W, be, mode):
    ts = W.keep([W.arr(2, 3), W.arr(3, 2, 4), W.arr(4, 2)])
    ls = W.keep([[-1, 1], [1, 2, 3], [3, 2]])
    if mode == "check":
      return nconinterface.ncon_cost_check(ts, ls, W.keep([1, 2, 3]))
    if mode == "adj":
      return nconinterface.ncon_to_adj(ts, ls)
    return nconinterface.ncon_solver(ts, ls, max_branch=None if mode == "full" else 1)[:2]
  for mode in ("full", "greedy", "check", "adj"):
    call("ncon", "solver " + mode)(lambda W, be, m=mode: slv(W, be, m))

  def ord2(W, be):
    return nconinterface.ord_to_ncon(W.keep([[-1, 1], [1, 2, 3], [3, 2]]),
                                     W.keep(np.array([[0, 1], [0, 1]])))
  call("ncon", "ord_to_ncon", bytype="r", layouts="C")(ord2)
  adj = np.array([[0.5, 1.0, 0.0, 0.7], [1.0, 0.0, 1.5, 0.3], [0.0, 1.5, 0.3, 0.9],
                  [0.7, 0.3, 0.9, 0.1]])
  for fn in ("greedy_size_solve", "greedy_cost_solve", "full_solve_complete"):
    call("ncon", fn, bytype="r")(
        lambda W, be, fn=fn: getattr(pathsolvers, fn)(W.const(adj))[:2])


def node_calls():
  def n(name, **kw):
    kw.setdefault("bes", ALL)
    return call("nodes", name, **kw)

  @n("Node")
  def _(W, be):
    return tn.Node(W.arr(2, 3), "x", W.keep(["a", "b"]), backend=be)

  @n("Node of Node")
  def _(W, be):
    x = W.keep(tn.Node(W.arr(2, 3), "x", ["a", "b"], backend=be))
    return tn.Node(x)

  def pair(W, be, shapes=((2, 3), (3, 2)), keep=True):
    a = tn.Node(W.arr(*shapes[0]), "A", backend=be)
    b = tn.Node(W.arr(*shapes[1]), "B", backend=be)
    return a, b

  @n("contract")
  def _(W, be):
    a, b = pair(W, be)
    return tn.contract(a[1] ^ b[0])

  @n("contract_between")
  def _(W, be):
    a, b = pair(W, be, ((2, 3, 4), (4, 3, 2)))
    a[1] ^ b[1]
    a[2] ^ b[0]
    order = W.keepl([b[2], a[0]])
    return tn.contract_between(a, b, output_edge_order=order, name="r")

  @n("contract_between outer")
  def _(W, be):
    a, b = pair(W, be)
    return tn.contract_between(a, b, allow_outer_product=True)

  @n("contract_between names")
  def _(W, be):
    a, b = pair(W, be)
    a[1] ^ b[0]
    return tn.contract_between(a, b, axis_names=W.keep(["u", "v"]))

  @n("trace")
  def _(W, be):
    a = tn.Node(W.arr(2, 3, 2), backend=be)
    a[0] ^ a[2]
    return tn.contract_trace_edges(a)

  @n("outer_product")
  def _(W, be):
    return tn.outer_product(*pair(W, be), axis_names=W.keep(["a", "b", "c", "d"]))

  @n("outer_product_final_nodes")
  def _(W, be):
    a, b = pair(W, be)
    return tn.outer_product_final_nodes(W.keepl([a, b]), W.keepl([b[0], a[1], a[0], b[1]]))

  @n("matmul op")
  def _(W, be):
    a, b = pair(W, be)
    a[1] ^ b[0]
    return a @ b

  @n("arith")
  def _(W, be):
    a, b = pair(W, be, ((2, 3), (2, 3)))
    W.keep(a, b)
    return [a + b, a - b, a * b, a / b, a + 2.0, a * 3.0]

  @n("copy")
  def _(W, be):
    a, b = pair(W, be)
    a[1] ^ b[0]
    nodes = W.keep([a, b])
    nd, _ = tn.copy(nodes, conjugate=True)
    return [nd[a], nd[b]]

  @n("copy set")
  def _(W, be):
    a, b = pair(W, be)
    a[1] ^ b[0]
    nodes = W.keep({a, b})
    W.keep(a, b)
    nd, _ = tn.copy(nodes)
    return [nd[a], nd[b]]

  @n("replicate")
  def _(W, be):
    a, b = pair(W, be)
    a[1] ^ b[0]
    return tn.replicate_nodes(W.keep([a, b]))

  @n("Node.copy")
  def _(W, be):
    return W.keep(pair(W, be)[0]).copy(conjugate=True)

  @n("conj/transpose/kron")
  def _(W, be):
    a, b = pair(W, be, ((2, 2), (2, 3)))
    a.add_axis_names(["x", "y"])
    W.keep(a)
    c = node_linalg.conj(a, axis_names=W.keep(["p", "q"]))
    t = node_linalg.transpose(a, W.keep([1, 0]))
    nn = node_linalg.norm(a)
    return [c, t, nn]

  @n("kron")
  def _(W, be):
    xs = [tn.Node(W.arr(2, 3), backend=be), tn.Node(W.arr(3, 2), backend=be)]
    return node_linalg.kron(W.keepl(xs))

  @n("kron three")
  def _(W, be):
    xs = [tn.Node(W.arr(2, 2), backend=be) for _ in range(3)]
    return node_linalg.kron(W.keepl(xs))

  for sp in ("split_node", "split_node_qr", "split_node_rq", "split_node_full_svd"):
    @n(sp)
    def _(W, be, sp=sp):
      a = tn.Node(W.arr(2, 3, 2), backend=be)
      l, r = W.keepl([a[2], a[0]]), W.keepl([a[1]])
      return getattr(tn, sp)(a, l, r)
  for kw in ({"max_singular_values": 1}, {"max_truncation_err": 0.2}):
    for sp in ("split_node", "split_node_full_svd"):
      @n(f"{sp} {kw}", bes=("numpy", "tensorflow"))
      def _(W, be, sp=sp, kw=kw):
        a = tn.Node(W.arr(2, 3, 2), backend=be)
        return getattr(tn, sp)(a, W.keepl([a[2], a[0]]), W.keepl([a[1]]), **kw)

  @n("queries")
  def _(W, be):
    a, b = pair(W, be)
    c = tn.Node(W.arr(2), "C", backend=be)
    a[1] ^ b[0]
    b[1] ^ c[0]
    nodes = W.keep([a, b, c])
    W.keep(a.edges)
    edges = W.keep([a[0], a[1]])
    r = [len(tn.get_all_edges(nodes)), len(tn.get_all_nodes(edges)),
         len(tn.get_subgraph_dangling([a, b])), len(tn.get_all_nondangling(nodes)),
         len(tn.get_all_dangling(nodes)), len(tn.reachable(a)), len(tn.get_neighbors(b)),
         len(tn.get_shared_edges(a, b)), len(a.get_all_dangling()),
         len(b.get_all_nondangling()), len(tn.get_parallel_edges(a[1]))]
    tn.check_correct(nodes)
    tn.check_connected(nodes)
    return r

  @n("get_all_dangling twice")
  def _(W, be):
    a = tn.Node(W.arr(2, 3), "A", backend=be)
    b = tn.Node(W.arr(3, 2), "B", backend=be)
    W.keep(a, b, a.edges, b.edges)
    d = tn.get_all_dangling([a, b])
    d2 = a.get_all_dangling()
    d2 += [b[0]]
    return [len(d), len(tn.get_all_dangling([a, b])), len(a.edges), len(a.get_all_dangling())]

  @n("tensor_from_edge_order")
  def _(W, be):
    a = W.keep(tn.Node(W.arr(2, 3, 2), backend=be))
    return a.tensor_from_edge_order(W.keep([a[2], a[0], a[1]]))

  @n("reorder")
  def _(W, be):
    a = tn.Node(W.arr(2, 3, 2), backend=be)
    a.reorder_edges(W.keepl([a[2], a[0], a[1]]))
    a.reorder_axes(W.keep([1, 2, 0]))
    return a

  @n("flatten/split/slice")
  def _(W, be):
    a, b = pair(W, be, ((2, 3, 4), (4, 3, 2)))
    es = W.keepl([a[2] ^ b[0], a[1] ^ b[1]])
    e = tn.flatten_edges(es)
    e2 = tn.split_edge(e, (4, 3), W.keep(["p", "q"]))
    tn.slice_edge(e2[0], 1, 2)
    return [a.tensor, b.tensor]

  @n("flatten_all")
  def _(W, be):
    a, b = pair(W, be, ((2, 3, 4), (4, 3, 2)))
    a[2] ^ b[0]
    a[1] ^ b[1]
    tn.flatten_all_edges(W.keepl([a, b]))   # order of the flattened legs is free
    return [a.shape, b.shape, (a @ b).tensor]

  @n("remove_node")
  def _(W, be):
    a, b = pair(W, be)
    a[1] ^ b[0]
    W.keep(a.tensor if be.name == "numpy" else 0)
    tn.remove_node(a)
    return [a.tensor, b]

  @n("contractors")
  def _(W, be):
    out = []
    for alg in ("greedy", "optimal", "branch", "auto"):
      a, b = pair(W, be)
      c = tn.Node(W.arr(2, 4), "C", backend=be)
      a[1] ^ b[0]
      b[1] ^ c[0]
      out.append(getattr(tn.contractors, alg)(
          W.keepl([a, b, c]), output_edge_order=W.keepl([c[1], a[0]])))
    return out

  @n("path_solver")
  def _(W, be):
    a, b = pair(W, be)
    c = tn.Node(W.arr(2, 4), "C", backend=be)
    a[1] ^ b[0]
    b[1] ^ c[0]
    ns = W.keep([a, b, c])
    return [tn.contractors.path_solver("optimal", ns)[0]]

  @n("bucket", bes=("numpy",))
  def _(W, be):
    cp = tn.CopyNode(3, 2, backend=be)
    xs = [tn.Node(W.arr(2, 2), backend=be) for _ in range(3)]
    for i, x in enumerate(xs):
      cp[i] ^ x[0]
    order = W.keepl((cp,))
    return [x.tensor for x in tn.contractors.bucket(W.keepl(xs), order)]

  @n("CopyNode partners", bes=("numpy",))
  def _(W, be):
    cp = tn.CopyNode(3, 2, backend=be)
    xs = [tn.Node(W.arr(2, 2), backend=be) for _ in range(3)]
    for i, x in enumerate(xs):
      cp[i] ^ x[0]
    W.keep(*xs)
    W.keep(cp)
    return [cp.compute_contracted_tensor(), len(cp.get_partners())]

  @n("reduced_density")
  def _(W, be):
    a, b = pair(W, be)
    a[1] ^ b[0]
    tr = W.keep([a[0]])
    nd, _ = tn.reduced_density(tr)
    return [len(nd), a.tensor, b.tensor]

  @n("from_topology", bes=ALL)
  def _(W, be):
    ts = W.keep([W.arr(2, 3), W.arr(3, 4), W.arr(4, 2)])
    ns = tn.utils.from_topology("xy,yz,zx", ts, backend=be)
    return tn.contractors.greedy(ns)

  @n("json", bes=("numpy",))
  def _(W, be):
    a, b = pair(W, be)
    a[1] ^ b[0]
    ns = W.keep([a, b])
    binding = W.keep({"k": (a[0],), "l": b[1]})
    s = tn.nodes_to_json(ns, edge_binding=binding)
    out, bb = tn.nodes_from_json(s)
    return [[x.tensor for x in out], sorted(bb)]

  @n("save", bes=("numpy",))
  def _(W, be):
    a, b = pair(W, be)
    e = a[1] ^ b[0]
    e.set_name("bond")
    ns = W.keep([a, b])
    d = tempfile.mkdtemp()
    try:
      p = os.path.join(d, "f.h5")
      tn.save_nodes(ns, p)
      return [x.tensor for x in tn.load_nodes(p)]
    finally:
      shutil.rmtree(d)

  @n("switch_backend", bes=("numpy",))
  def _(W, be):
    a = tn.Node(W.arr(2, 3), backend=be)
    tn.switch_backend({a}, "tensorflow")
    return [np.asarray(a.tensor)]

  @n("redirect")
  def _(W, be):
    a, b = pair(W, be)
    e = a[1] ^ b[0]
    c = tn.Node(W.arr(3, 2), "C", backend=be)
    tn.redirect_edge(e, c, b)
    return [a @ c]


def ops_calls():
  def m(name, f, **kw):
    kw.setdefault("bes", ALL)
    call("linalg", name, **kw)(f)

  def T(W, be, *s):
    return W.keep(tn.Tensor(W.arr(*s), backend=be))
  m("tensordot", lambda W, be: tn.tensordot(T(W, be, 2, 3), T(W, be, 3, 2),
                                            W.keep([[1], [0]])))
  m("reshape", lambda W, be: tn.reshape(T(W, be, 2, 3), W.keep([3, 2])))
  m("transpose", lambda W, be: operations.transpose(T(W, be, 2, 3, 2), W.keep([2, 0, 1])))
  m("hconj", lambda W, be: tn.hconj(T(W, be, 2, 3)))
  m("take_slice", lambda W, be: tn.take_slice(T(W, be, 3, 3), (1, 0), (2, 2)))
  for fn in ("sin", "cos", "exp", "abs", "conj"):
    m(fn, lambda W, be, fn=fn: getattr(operations, fn)(T(W, be, 2, 3)))
  m("sqrt log", lambda W, be: [operations.sqrt(tn.Tensor(W.pos(2), backend=be)),
                               operations.log(tn.Tensor(W.pos(2), backend=be))])
  m("outer", lambda W, be: tn.outer(T(W, be, 2), T(W, be, 3)))
  m("einsum", lambda W, be: tn.einsum("ab,bc->ac", T(W, be, 2, 3), T(W, be, 3, 2),
                                      optimize=True))
  m("diagonal", lambda W, be: operations.diagonal(T(W, be, 3, 3)))
  m("diagflat", lambda W, be: tn.diagflat(T(W, be, 3)))
  m("trace", lambda W, be: operations.trace(T(W, be, 3, 3)))
  m("pivot", lambda W, be: tn.pivot(T(W, be, 2, 3, 2), 1))
  m("kron", lambda W, be: operations.kron(T(W, be, 2, 3), T(W, be, 3, 2)))
  m("svd", lambda W, be: linalg.svd(T(W, be, 2, 3, 2), 2, max_singular_values=1))
  m("qr", lambda W, be: linalg.qr(T(W, be, 2, 3, 2), 1, True))
  m("rq", lambda W, be: linalg.rq(T(W, be, 2, 3, 2), 1, True))
  m("eigh", lambda W, be: linalg.eigh(W.keep(tn.Tensor(W.herm(3), backend=be))))
  m("inv", lambda W, be: linalg.inv(W.keep(tn.Tensor(W.inv(3), backend=be))))
  m("expm", lambda W, be: linalg.expm(W.keep(tn.Tensor(W.herm(2), backend=be))),
    bes=("numpy", "tensorflow"))
  m("norm", lambda W, be: linalg.norm(T(W, be, 3)))
  m("like", lambda W, be: [initialization.ones_like(T(W, be, 2)), initialization.zeros_like(T(W, be, 2))])

  def tens(W, be):
    a = T(W, be, 2, 3)
    return [a.conj(), a.conjugate(), a.copy(), a.flatten(), a.hconj(), a.ravel(),
            a.reshape(W.keep([3, 2])), a.squeeze(), a.transpose(W.keep([1, 0])), a.T, a.H]
  m("methods", tens)
  m("matmul", lambda W, be: T(W, be, 2, 3) @ T(W, be, 3, 2))

  def arith2(W, be):
    a, b = T(W, be, 2, 3), T(W, be, 2, 3)
    c, r = a, [a + b, a - b, a * b, a / b, a + 1.0, 2.0 * a, a * 2.0]
    c += b
    d = b
    d *= 2.0
    e = b
    e -= a
    return r + [c, d, e]
  m("arith", arith2)

  def mvt(x, H):
    return H @ x
  m("krylov lanczos", lambda W, be: krylov.eigsh_lanczos(
      mvt, be, W.keep([tn.Tensor(W.herm(4), backend=be)]), T(W, be, 4, 1), num_krylov_vecs=4,
      reorthogonalize=True), bes=("numpy",), tol=1e-6)
  m("krylov eigs", lambda W, be: [np.sort_complex(np.array(krylov.eigs(
      mvt, be, W.keep([tn.Tensor(W.herm(5), backend=be)]), T(W, be, 5, 1), num_krylov_vecs=5,
      numeig=2)[0]))], bes=("numpy",), tol=1e-6)
  m("krylov gmres", lambda W, be: krylov.gmres(
      mvt, T(W, be, 3, 1), W.keep([tn.Tensor(W.inv(3), backend=be)]), x0=T(W, be, 3, 1),
      num_krylov_vectors=3, maxiter=2), bes=("numpy",), tol=1e-5)


def mps_calls():
  def n(name, **kw):
    kw.setdefault("bes", ALL)
    return call("mps", name, **kw)

  def chain(W, N=4, D=2):
    ds = [1] + [D] * (N - 1) + [1]
    return W.keep([W.arr(ds[i], 2, ds[i + 1]) for i in range(N)])

  for c in (None, 0, 2, 3):
    @n(f"FiniteMPS {c}", bes=("numpy", "tensorflow") if c != 2 else ALL)
    def _(W, be, c=c):
      ts = chain(W)
      return tn.FiniteMPS(ts, center_position=c, backend=be)

  @n("FiniteMPS raw")
  def _(W, be):
    m = tn.FiniteMPS(chain(W), canonicalize=False, backend=be)
    W.keep(m)
    return [m.bond_dimensions, m.physical_dimensions, value(list(m.tensors))]

  @n("measure")
  def _(W, be):
    m = W.keep(tn.FiniteMPS(chain(W), center_position=1, backend=be))
    ops = W.keep([W.herm(2), W.arr(2, 2)])
    sites = W.keep([0, 2])
    loc = m.measure_local_operator(ops, sites)
    two = m.measure_two_body_correlator(ops[0], ops[1], 1, W.keep([0, 1, 3]))
    l = m.left_envs(W.keep([1, 3, 0]))
    r = m.right_envs(W.keep([0, 2]))
    ck = [m.check_orthonormality("l", 0), m.check_canonical()]
    m.get_tensor(3)
    m.apply_transfer_operator(1, "l", be.convert_to_tensor(W.arr(2, 2)))
    return [loc, two, [l[k] for k in sorted(l)], [r[k] for k in sorted(r)], ck]

  @n("gates")
  def _(W, be):
    m = tn.FiniteMPS(chain(W), center_position=1, backend=be)
    g2, g1 = W.arr(2, 2, 2, 2), W.arr(2, 2)
    m.apply_two_site_gate(g2, 1, 2)
    m.apply_one_site_gate(g1, 3)
    m.apply_two_site_gate(g2, 1, 2, max_singular_values=2, center_position=1)
    return m

  @n("position")
  def _(W, be):
    m = tn.FiniteMPS(chain(W), center_position=0, backend=be)
    r = [m.position(3), m.position(1, normalize=False), m.position(2, D=1)
         if be.name == "numpy" else 0]
    return [r, m, m.canonicalize()]

  @n("InfiniteMPS", bes=("numpy",), tol=1e-5)
  def _(W, be):
    ts = W.keep([W.arr(2, 2, 2), W.arr(2, 2, 2)])
    con = W.const(np.eye(2, dtype=complex if W.cplx else float) * 1.25)
    m = W.keep(tn.InfiniteMPS(ts, center_position=1, connector_matrix=con, backend=be))
    init = W.arr(2, 2)
    eta, l = m.transfer_matrix_eigs("l", initial_state=init)
    x = m.unit_cell_transfer_operator("right", W.arr(2, 2))
    return [np.abs(np.asarray(eta)), x]

  @n("InfiniteMPS canonicalize", bes=("numpy",), tol=1e-5)
  def _(W, be):
    ts = W.keep([W.arr(2, 2, 2), W.arr(2, 2, 2)])
    m = tn.InfiniteMPS(ts, backend=be)
    m.canonicalize(left_initial_state=W.const(np.eye(2, dtype=ts[0].dtype)),
                   right_initial_state=W.const(np.eye(2, dtype=ts[0].dtype)))
    return [np.asarray(m.check_canonical()) < 1e-6]

  for kind in ("one", "two"):
    @n(f"DMRG {kind}", bes=("numpy",), tol=1e-6)
    def _(W, be, kind=kind):
      ts = chain(W)
      mts = W.keep([W.herm(2).reshape(1, 1, 2, 2) for _ in range(4)])
      mpo = W.keep(tn.FiniteMPO(mts, backend=be))
      mps = tn.FiniteMPS(ts, center_position=0, backend=be)
      d = tn.FiniteDMRG(mps, mpo)
      kw = dict(num_sweeps=1, num_krylov_vecs=4)
      e = d.run_one_site(**kw) if kind == "one" else d.run_two_site(
          max_bond_dim=2, **kw)
      return [np.asarray(e), d.compute_energy()]

  @n("MPO builders", bytype="r")
  def _(W, be):
    Jz, Jxy, Bz = W.arr(3), W.arr(3), W.arr(4)
    t = np.float64
    return [tn.FiniteXXZ(Jz, Jxy, Bz, t, backend=be), tn.FiniteTFI(Jz, Bz, t, backend=be)]

  @n("FreeFermion2D", bytype="r", bes=("numpy",))
  def _(W, be):
    return tn.FiniteFreeFermion2D(1.0, 0.5, 0.2, 2, 2, np.float64, backend=be)

  @n("InfiniteMPO", bes=("numpy",))
  def _(W, be):
    ts = W.keep([W.arr(2, 2, 2, 2), W.arr(2, 2, 2, 2)])
    m = InfiniteMPO(ts, backend=be)
    m.roll(1)
    return m


def quantum_calls():
  def n(name, **kw):
    kw.setdefault("bes", ("numpy", "tensorflow"))
    return call("quantum", name, **kw)

  def op(W, be, k=None):
    a = tn.Node(W.arr(2, 3, 2, 3), backend=be)
    return qu.QuOperator(W.keep([a[0], a[1]]), W.keep([a[2], a[3]]))

  def vec(W, be):
    a = tn.Node(W.arr(2, 3), backend=be)
    return qu.QuVector(W.keep([a[0], a[1]]))

  @n("from_tensor")
  def _(W, be):
    return [qu.QuOperator.from_tensor(W.arr(2, 3, 2, 3), W.keep([0, 1]), W.keep([2, 3]),
                                      backend=be),
            qu.QuVector.from_tensor(W.arr(2, 3), W.keep([1, 0]), backend=be),
            qu.QuAdjointVector.from_tensor(W.arr(2, 3), W.keep([1, 0]), backend=be),
            qu.QuScalar.from_tensor(W.arr(), backend=be)]

  @n("unary")
  def _(W, be):
    A = W.keep(op(W, be))
    return [A.adjoint(), A.trace(), A.norm(), A.partial_trace(W.keep([0])),
            A.partial_trace(W.keep({1})), A.is_scalar(), A.in_space, A.out_space]

  @n("binary")
  def _(W, be):
    A, B, v = W.keep(op(W, be), op(W, be), vec(W, be))
    w = v.adjoint()
    return [A @ B, A @ v, w @ A, w @ v, A.tensor_product(B), A * 2.0, 2.0 * v, v @ w]

  @n("vector")
  def _(W, be):
    v = W.keep(vec(W, be))
    return [v.projector(), v.reduced_density(W.keep([0])), v.adjoint(), v.norm(), v.space,
            len(v.subsystem_edges)]

  @n("eval")
  def _(W, be):
    A = W.keep(op(W, be))
    B = op(W, be)
    W.keep(A)
    return [(A @ B).eval(), (A @ B).contract()]

  @n("identity")
  def _(W, be):
    sp = W.keep([2, 3])
    I = qu.identity(sp, backend=be, dtype=np.complex128 if W.cplx else np.float64)
    A = W.keep(op(W, be))
    return [(I @ A).eval(), (A @ I).eval(), I.trace().eval()]

  @n("constructor")
  def _(W, be):
    a = tn.Node(W.arr(2, 3), backend=be)
    b = tn.Node(W.arr(2), backend=be)
    c = tn.Node(W.arr(2), backend=be)
    b[0] ^ c[0]
    oe, ie = W.keep([a[0]]), W.keep([a[1]])
    ref = W.keep([b])
    return qu.quantum_constructor(oe, ie, ref)


# ------------------------------------------------------------- block sparse
SYMS = ("U", "2", "U2")


def leg(sym, k, n):
  A = list(itertools.product(*[bsx.ALPH[s][:2 if s == "2" else 3] for s in sym]))
  return [A[(i * (k + 1) + k) % len(A)] for i in range(n)]


def bs(W, sym, dims, flows, k=0, rep="raw"):
  """Block-sparse tensor with caller-owned data, charges, flows."""
  chs = [bsx.charge(sym, leg(sym, i + k, d), rep) for i, d in enumerate(dims)]
  idx = [Index(c, f) for c, f in zip(chs, flows)]
  z = BlockSparseTensor.zeros(idx)
  n = len(z.data)
  W.k += 1
  v = netx.data((max(n, 1),), W.k, W.cplx)[:n]
  return BlockSparseTensor(W.wrap(v), list(z._charges), np.array(z._flows),
                           [list(o) for o in z._order])


def square(W, sym, n=4, herm=False):
  q = leg(sym, 1, n)
  c = bsx.charge(sym, q)
  idx = [Index(c, False), Index(c.copy(), True)]
  z = BlockSparseTensor.zeros(idx)
  W.k += 1
  a = netx.data((n, n), W.k, W.cplx)
  a = a + a.conj().T + 3 * n * np.eye(n) + 2 * np.diag(np.arange(n))
  m = np.array([[q[i] == q[j] for j in range(n)] for i in range(n)])
  t = BlockSparseTensor.fromdense(idx, np.where(m, a, 0).astype(a.dtype))
  return BlockSparseTensor(W.wrap(t.data), list(t._charges), np.array(t._flows),
                           [list(o) for o in t._order])


def bs_calls():
  def m(name, f, **kw):
    kw.setdefault("layouts", "CSR")
    for sym in SYMS:
      call("block_sparse", f"{name} [{sym}]", **kw)(lambda W, be, s=sym: f(W, s))

  def t3(W, s, k=0):
    return bs(W, s, (3, 2, 4), (False, True, False), k)

  def mixed(W, s):
    """A tensor whose storage order differs from its leg order."""
    return t3(W, s).transpose((2, 0, 1)).reshape((12, 2))
  for nm, mk in (("", t3), ("mixed ", mixed)):
    m(nm + "unary", lambda W, s, mk=mk: (lambda t: [
        t.conj(), t * 2.0, 2.0 * t, t / 2.0, -t, t.todense(), t.copy(), t.contiguous(),
        t.dtype, t.shape, t.ndim, [x for x in t.sparse_shape], bsl.norm(t),
        bsl.abs(t), bsl.conj(t)])(W.keep(mk(W, s))))
    m(nm + "likes", lambda W, s, mk=mk: (lambda t: [
        bsi.ones_like(t), bsi.zeros_like(t), bsi.empty_like(t).shape])(W.keep(mk(W, s))))
    m(nm + "reshape/transpose", lambda W, s, mk=mk: (lambda t: [
        t.reshape(W.keep([t.shape[0] * t.shape[1]] + list(t.shape[2:]))),
        t.transpose(W.keep(list(range(t.ndim))[::-1])),
        bsl.reshape(t, W.keep([t.shape[0] * t.shape[1]] + list(t.shape[2:]))),
        bsl.transpose(t, W.keep(np.arange(t.ndim)[::-1]))])(W.keep(mk(W, s))))
    m(nm + "tensordot conj", lambda W, s, mk=mk: (lambda t: [
        bs_tensordot(t, t.conj(), W.keep(([0], [0]))),
        bs_tensordot(t, t.conj(), t.ndim)])(W.keep(mk(W, s))))
    m(nm + "outer", lambda W, s, mk=mk: (lambda t, u: bs_outer(t, u))(
        W.keep(mk(W, s)), W.keep(bs(W, s, (2, 2), (True, False)))))
  m("sqrt", lambda W, s: bsl.sqrt(W.keep(square(W, s)) * 0.0))
  m("add", lambda W, s: (lambda a, b: [a + b, a - b])(
      W.keep(t3(W, s)), W.keep(t3(W, s))))
  m("add unaligned", lambda W, s: (lambda a, b: [a + b, a - b, a + b])(
      W.keep(t3(W, s), align=True),
      W.keep(bs(W, s, (3, 2, 4), (False, True, False)).transpose((2, 0, 1)).contiguous(
      ).transpose((1, 2, 0)), align=True)))
  m("matrix", lambda W, s: (lambda a: [
      [x for x in bsl.svd(a)][1], bsl.inv(a), bsl.pinv(a), bsl.trace(a), bsl.diag(a),
      bsl.eigh(a)[0], a @ a])(W.keep(square(W, s))))
  m("qr", lambda W, s: (lambda a: (lambda q, r: q @ r)(*bsl.qr(a)))(W.keep(square(W, s))))
  m("svd", lambda W, s: (lambda a: (lambda u, x, v: u @ bsl.diag(x) @ v)(
      *bsl.svd(a, full_matrices=False)))(W.keep(square(W, s))))
  m("eig", lambda W, s: (lambda a: (lambda e, v: a @ v)(*bsl.eig(a)))(
      W.keep(square(W, s))), tol=1e-6)
  m("diag of", lambda W, s: (lambda a: bsl.diag(W.keep(bsl.diag(a))))(W.keep(square(W, s))))
  m("symmetric backend", lambda W, s: (lambda be, a, b: [
      be.tensordot(a, b, W.keep([[1], [0]])), be.norm(a), be.conj(a), be.sqrt(a * 0.0),
      be.addition(a, b), be.subtraction(a, b), be.multiply(a, 2.0), be.divide(a, 2.0),
      be.inv(a), be.trace(a), be.diagonal(a), be.diagflat(be.diagonal(a)), be.abs(a),
      be.sign(a) if not W.cplx else 0, be.transpose(a), be.reshape(a, W.keep([16])),
      be.shape_tuple(a), be.shape_tensor(a), be.eigh(a)[0],
      be.matmul(a, b), be.svd(a, 1)[1], be.outer_product(a, b),
      (lambda u, x, v, _: [be.broadcast_right_multiplication(W.keep(u), W.keep(x)) @ v,
                           u @ be.broadcast_left_multiplication(x, W.keep(v))])(
                               *be.svd(a, 1))])(
          backend_factory.get_backend("symmetric"), W.keep(square(W, s)),
          W.keep(square(W, s))))

  def solver(W, s, which):
    be = backend_factory.get_backend("symmetric")
    H = W.keep(square(W, s, 4), align=True)
    q = leg(s, 1, 4)
    c = bsx.charge(s, q)
    idc = bsx.charge(s, [bsx.identity(s)])
    idx = [Index(c, False), Index(c.copy(), True)]
    z = BlockSparseTensor.zeros(idx)
    W.k += 1
    x0 = W.keep(BlockSparseTensor(W.wrap(netx.data((len(z.data),), W.k, W.cplx)),
                                  list(z._charges), np.array(z._flows),
                                  [list(o) for o in z._order]), align=True)
    del idc

    def mv(x, H):
      return bs_tensordot(H, x, ([1], [0]))
    args = W.keep([H], align=True)
    if which == "lanczos":
      return be.eigsh_lanczos(mv, args, x0, num_krylov_vecs=6, reorthogonalize=True)[0]
    if which == "lanczos fast":
      return be.eigsh_lanczos(mv, args, x0, num_krylov_vecs=3)[0]
    if which == "eigs":
      return [np.sort_complex(np.array(be.eigs(mv, args, x0, numeig=1,
                                               num_krylov_vecs=6)[0]))]
    b = W.keep(BlockSparseTensor(W.wrap(netx.data((len(z.data),), W.k + 7, W.cplx)),
                                 list(z._charges), np.array(z._flows),
                                 [list(o) for o in z._order]), align=True)
    return be.gmres(mv, b, args, W.keep({}), x0, num_krylov_vectors=6, maxiter=2)[0]
  for w in ("lanczos", "lanczos fast", "eigs", "gmres"):
    m("solver " + w, lambda W, s, w=w: solver(W, s, w), tol=1e-4)

  def charges(W, s):
    a = W.keep(bsx.charge(s, leg(s, 1, 4), "lab2"))
    b = W.keep(bsx.charge(s, leg(s, 2, 3)))
    c = W.keep(bsx.charge(s, leg(s, 2, 3)))
    lst = W.keep([a, b])
    fl = W.keep([True, False])
    tgt = W.keep(np.array([leg(s, 1, 4)[0]], dtype=np.int16))
    sub = W.keep([0, 2])
    r = [a + b, a.dual(True), a.dual(False), a * True, fuse_charges(lst, fl),
         a.intersect(c)[0] if isinstance(a.intersect(c), tuple) else a.intersect(c),
         a.unique(), a.reduce(tgt), a[sub], a.copy(), b == c, a.identity_charges(2),
         a[1], a.dim, a.num_unique]
    ia, ib = W.keep(Index(a, False)), W.keep(Index([b, c], [True, False]))
    r += [ia.copy(), ib.flip_flow(), ia * ib, ib.charges, ia.charges, ib.flat_flows,
          ia == ib, ib.dim]
    fl2 = ib.flat_flows
    fl2 += [True]
    return r[:-4]
  m("charges", charges, layouts="C", bytype="r")

  def fromdense(W, s):
    q = leg(s, 1, 3)
    c = bsx.charge(s, q)
    idx = W.keep([Index(c, False), Index(c.copy(), True)])
    mask = np.array([[q[i] == q[j] for j in range(3)] for i in range(3)])
    d = W.const(np.where(mask, netx.data((3, 3), 5, W.cplx), 0))
    t = BlockSparseTensor.fromdense(idx, d)
    u = BlockSparseTensor.ones(idx)
    return [t, u, BlockSparseTensor.zeros(idx), bsl.eye(idx[0]), bsi.ones(idx)]
  m("fromdense", fromdense)

  def node(W, s):
    a = tn.Node(W.keep(square(W, s)), backend="symmetric")
    b = tn.Node(W.keep(square(W, s)), backend="symmetric")
    a[1] ^ b[0]
    c = (a @ b).tensor
    x = tn.Node(W.keep(square(W, s)), backend="symmetric")
    l, r, _ = tn.split_node(x, [x[0]], [x[1]])
    return [c, (l @ r).tensor]
  m("nodes", node)

  def bncon(W, s):
    a, b = W.keep(square(W, s)), W.keep(square(W, s))
    return tn.ncon(W.keep([a, b]), W.keep([[-1, 1], [1, -2]]), backend="symmetric")
  m("ncon", bncon)


for _f in (backend_calls, ncon_calls, node_calls, ops_calls, mps_calls, quantum_calls, bs_calls):
  _f()


def run_calls(desc, rec):
  g, bename, cplx = desc["group"], desc["be"], desc["cplx"]
  be = backend_factory.get_backend(bename)
  sel = [c for c in CALLS[g] if bename in c[2] and ("c" if cplx else "r") in c[3]]
  for i, (name, f, _, _, layouts, tol) in enumerate(sel):
    if i % desc["part"][1] != desc["part"][0]:
      continue
    ref = None
    what = f"{g}: {name} ({bename})"
    for L in layouts:
      if bename != "numpy" and L in "FN":
        continue
      W = World(L, cplx)
      # the three calls receive the very same arrays (W replays them)
      try:
        vals = []
        for t in range(3):
          W.k = 0
          W.replay = t > 0
          r = f(W, be) if t == 0 else f(Again(W), be)
          rec.step()
          W.check(what)
          vals.append((value(r), r))
          if t == 1:
            if not same(vals[0][0], value(vals[0][1]), tol):
              raise Violation(f"{what}: first result changed by the second call",
                              f"{what} layout {L}")
            poison(r, W.base)
            W.check(what + " (caller overwrote a result)")
        for t in (1, 2):
          if not same(vals[0][0], vals[t][0], tol):
            raise Violation(
                f"{what}: call {t + 1} on the same inputs answers differently",
                f"{what} layout {L}:\n {str(vals[0][0])[:900]}\n {str(vals[t][0])[:900]}")
      except Violation as v:
        rec.fail(v.sig, v.msg, {"call": name, "layout": L})
        continue
      except Exception as e:  # pylint: disable=broad-except
        rec.fail(f"{what}: {type(e).__name__} with layout {L}",
                 f"{what} layout {L}: {e!r}", {"call": name, "layout": L})
        continue
      rec.validated()
      rec.outcome("call layout " + L)
      rec.state((g, name, bename, L, cplx))
      if ref is None:
        ref = vals[0][0]
      elif not same(ref, vals[0][0], max(tol, 1e-7)):
        rec.fail(f"{what}: result depends on the memory layout",
                 f"{what}: layout {L} gives {str(vals[0][0])[:900]}\n instead of "
                 f"{str(ref)[:900]}", {"call": name, "layout": L})


class Again(World):
  """Hands out the arrays of an earlier world again, in the same order."""

  def __init__(self, W):  # pylint: disable=super-init-not-called
    self.W = W
    self.layout, self.cplx = W.layout, W.cplx
    self.base, self.objs = W.base, []
    self.k = 0
    self.pos_ = 0
    if not hasattr(W, "views"):
      W.views = []
    self.views = W.views

  def wrap(self, a):
    v = self.views[self.pos_]
    self.pos_ += 1
    return v


_wrap = World.wrap


def _recording_wrap(self, a):
  v = _wrap(self, a)
  if not hasattr(self, "views"):
    self.views = []
  self.views.append(v)
  return v


World.wrap = _recording_wrap


# ------------------------------------------------------------------- pairs
def mps_pair(kind, be, cplx):
  W = World("C", cplx)
  ds = [1, 2, 2, 2, 1]
  ts = [W.arr(ds[i], 2, ds[i + 1]) for i in range(4)]
  b = backend_factory.get_backend(be)
  if be != "numpy":
    native = [b.convert_to_tensor(t) for t in ts]
    ts = native if kind.endswith("native") else ts
  kw = dict(backend=b)
  if kind.startswith("raw"):
    mk = lambda: tn.FiniteMPS(ts, canonicalize=False, **kw)
  elif kind.startswith("canon"):
    mk = lambda: tn.FiniteMPS(ts, center_position=1, **kw)
  elif kind.startswith("infinite"):
    its = [W.arr(2, 2, 2) for _ in range(3)]
    con = W.const(np.diag([1.0, 0.5]).astype(its[0].dtype))
    mk = lambda: tn.InfiniteMPS(its, center_position=1, connector_matrix=con, **kw)
  else:   # derived: a second MPS built from the tensors of the first
    first = tn.FiniteMPS(ts, center_position=1, **kw)
    made = [first]
    mk = lambda: made.pop() if made else tn.FiniteMPS(first.tensors, canonicalize=False, **kw)
    if kind.startswith("derived"):
      A = mk()
      B = tn.FiniteMPS(A.tensors, canonicalize=False, **kw)
      B.center_position = A.center_position
      return W, A, B
  return W, mk(), mk()


def mps_ops(kind, be, cplx):
  G1 = netx.data((2, 2), 91, cplx)
  G2 = netx.data((2, 2, 2, 2), 92, cplx)
  b = backend_factory.get_backend(be)
  G1, G2 = b.convert_to_tensor(G1), b.convert_to_tensor(G2)
  ops = {
      "pos0": lambda m: m.center_position is not None and m.position(0),
      "pos2 raw": lambda m: m.center_position is not None and m.position(2, normalize=False),
      "gate1": lambda m: m.apply_one_site_gate(G1, 1),
      "gate2": lambda m: m.apply_two_site_gate(G2, 0, 1),
      "measure": lambda m: (m.measure_local_operator([G1], [1]) if kind != "infinite" else 0),
  }
  if kind != "infinite":
    ops["canon"] = lambda m: (m.center_position is not None and m.canonicalize())
    ops["envs"] = lambda m: (m.left_envs([2]), m.right_envs([0]))
    ops["gate2 cut"] = lambda m: (m.center_position in (1, 2) and m.apply_two_site_gate(
        G2, 1, 2, max_singular_values=1))
  else:
    def canon(m):
      e = np.eye(m.tensors[0].shape[0], dtype=m.tensors[0].dtype)
      m.canonicalize(left_initial_state=e, right_initial_state=e)
    ops["canon"] = canon
    ops["conn="] = lambda m: setattr(m, "connector_matrix", None)
  return ops


def mps_view(m):
  return [m.center_position, [np.array(t) for t in m.tensors],
          None if m.connector_matrix is None else np.array(m.connector_matrix)]


def dmrg_pair(kind, be, cplx):
  W = World("C", cplx)
  ds = [1, 2, 4, 2, 1]
  ts = [W.arr(ds[i], 2, ds[i + 1]) for i in range(4)]
  mts = [np.array(W.herm(2)).reshape(1, 1, 2, 2) for _ in range(4)]
  mts = [W.const(x) for x in mts]
  mpo = tn.FiniteMPO(mts, backend=be)
  mk = lambda: tn.FiniteDMRG(tn.FiniteMPS(ts, center_position=0, backend=be), mpo)
  return W, mk(), mk()


def dmrg_ops(kind, be, cplx):
  kw = dict(num_sweeps=1, num_krylov_vecs=6, precision=1e-12, tol=1e-12)
  return {"one": lambda d: d.run_one_site(**kw),
          "two": lambda d: d.run_two_site(max_bond_dim=4, **kw),
          "two trunc": lambda d: d.run_two_site(max_bond_dim=2, **kw),
          "pos3": lambda d: d.position(3), "lenv": lambda d: d.compute_left_envs(),
          "renv": lambda d: d.compute_right_envs(), "energy": lambda d: d.compute_energy(),
          "pos2": lambda d: d.position(2)}


def dmrg_view(d):
  return [mps_view(d.mps), [np.array(t) for t in d.mpo.tensors],
          [(k, np.array(v)) for k, v in sorted(d.left_envs.items())],
          [(k, np.array(v)) for k, v in sorted(d.right_envs.items())]]


class Net:
  """A small network; `nodes` follow the names."""

  def __init__(self, nodes):
    self.nodes = list(nodes)


def net_pair(kind, be, cplx):
  W = World("C", cplx)
  x, y, z = W.arr(2, 3, 2), W.arr(3, 2, 4), W.arr(4, 2)

  def build(src=None):
    b = backend_factory.get_backend(be)
    A = tn.Node(x, "A", ["a", "b", "c"], backend=b)
    B = tn.Node(y, "B", ["b", "c", "d"], backend=b)
    C = tn.Node(z, "C", ["d", "e"], backend=b)
    A["b"] ^ B["b"]
    A["c"] ^ B["c"]
    B["d"] ^ C["d"]
    return Net([A, B, C])
  first = build()
  if kind == "shared":
    return W, first, build()
  if kind == "copy":
    nd, _ = tn.copy(first.nodes)
    return W, first, Net([nd[n] for n in first.nodes])
  if kind == "copy reversed":
    nd, _ = tn.copy(first.nodes)
    return W, Net([nd[n] for n in first.nodes]), first
  if kind == "replicate":
    return W, first, Net(tn.replicate_nodes(first.nodes))
  if kind == "tensors":   # nodes built from the tensors of other nodes
    A, B, C = [tn.Node(n.tensor, n.name, list(n.axis_names), backend=be) for n in first.nodes]
    A[1] ^ B[0]
    A[2] ^ B[1]
    B[2] ^ C[0]
    return W, first, Net([A, B, C])
  if kind == "nodes":    # Node(Node)
    A, B, C = [tn.Node(n, n.name, list(n.axis_names)) for n in first.nodes]
    A[1] ^ B[0]
    A[2] ^ B[1]
    B[2] ^ C[0]
    return W, first, Net([A, B, C])
  if kind == "axis names":   # one list of axis names shared by two nodes
    names = ["u", "v", "w"]
    mk = lambda t, nm: tn.Node(t, nm, names, backend=be)
    return W, Net([mk(x, "A")]), Net([mk(x, "A")])
  raise KeyError(kind)


def net_ops(kind, be, cplx):
  def N(net, i):
    n = net.nodes[i] if i < len(net.nodes) else None
    return n

  def con(i, j):
    def f(net):
      a, b = N(net, i), N(net, j)
      if a is None or b is None or not tn.get_shared_edges(a, b):
        return
      r = tn.contract_between(a, b, name="R")
      net.nodes[i] = r
      net.nodes.pop(j)
    return f

  def split(fn):
    def f(net):
      n = net.nodes[0]
      if n.get_rank() < 2:
        return
      es = list(n.edges)
      out = fn(n, es[:1], es[1:])
      net.nodes[0:1] = [x for x in out if isinstance(x, tn.AbstractNode)]
    return f

  def reorder(net):
    n = net.nodes[0]
    n.reorder_axes(list(range(n.get_rank()))[::-1])

  def reorder_e(net):
    n = net.nodes[0]
    n.reorder_edges(list(n.edges)[::-1])

  def names(net):
    n = net.nodes[0]
    n.add_axis_names([f"n{i}" for i in range(n.get_rank())])
    n.set_name("Q")

  def names_inplace(net):
    n = net.nodes[0]
    if n.axis_names:
      n.axis_names[0] = "zz"

  def scale(net):
    n = net.nodes[0]
    n.set_tensor(n.tensor * 2)

  def flat(net):
    if len(net.nodes) > 1:
      a, b = net.nodes[:2]
      es = [e for e in a.edges if e in tn.get_shared_edges(a, b)]
      if es:
        tn.flatten_edges(es)

  def cut(net):
    n = net.nodes[-1]
    for e in list(n.edges):
      if not e.is_dangling() and not e.is_trace():
        tn.disconnect(e)
        return

  def slice_(net):
    for n in net.nodes:
      for e in n.edges:
        if not e.is_dangling() and not e.is_trace() and n.shape[n.edges.index(e)] > 1:
          tn.slice_edge(e, 0, n.shape[n.edges.index(e)] - 1)
          return

  def rem(net):
    if len(net.nodes) > 1:
      tn.remove_node(net.nodes.pop())
  return {"con01": con(0, 1), "con12": con(1, 2), "svd": split(tn.split_node),
          "qr": split(tn.split_node_qr), "rev": reorder, "reve": reorder_e, "names": names,
          "axname": names_inplace, "scale": scale, "flat": flat, "cut": cut, "slice": slice_,
          "remove": rem}


def net_view(net):
  tag, out = {}, []
  for i, n in enumerate(net.nodes):
    for j, e in enumerate(n.edges):
      tag.setdefault(id(e), (i, j))
  for n in net.nodes:
    out.append([n.name, list(n.axis_names), np.array(n.tensor),
                [tag[id(e)] for e in n.edges], [e.name for e in n.edges],
                [e.is_dangling() for e in n.edges]])
  return out


def bs_pair(kind, be, cplx):
  W = World("C", cplx)
  sym = be
  if kind in ("conj2", "H", "Tm", "contig m"):
    t = square(W, sym)
  else:
    t = bs(W, sym, (3, 2, 4), (False, True, False))
    if "mixed" in kind:
      t = t.transpose((2, 0, 1))
  der = {"conj": lambda: t.conj(), "conj2": lambda: t.conj(), "H": lambda: t.H,
         "Tm": lambda: t.T, "T": lambda: t.transpose((2, 1, 0)), "copy": lambda: t.copy(),
         "transpose": lambda: t.transpose((1, 2, 0)), "reshape": lambda: t.reshape((6, 4)),
         "reshape mixed": lambda: t.reshape((12, 2)) if t.shape[0] == 4 else t.reshape((6, 4)),
         "contiguous mixed": lambda: t.contiguous(), "ones_like": lambda: bsi.ones_like(t),
         "zeros_like": lambda: bsi.zeros_like(t), "mul": lambda: t * 2.0,
         "neg": lambda: -t, "add": lambda: t + t, "abs": lambda: bsl.abs(t),
         "sign": lambda: bsl.sign(t), "contig m": lambda: t.contiguous(),
         "rebuilt": lambda: BlockSparseTensor(t.data, t._charges, t._flows, t._order),
         "conj mixed": lambda: t.conj(), "ones_like mixed": lambda: bsi.ones_like(t),
         "copy mixed": lambda: t.copy()}[kind]
  return W, t, der()


def bs_ops(kind, be, cplx):
  def contig(t):
    t.contiguous(inplace=True)

  def perm(t):
    n = len(t._charges)
    t.contiguous(np.arange(n)[::-1], inplace=True)

  def add(t):
    u = t.transpose(list(range(t.ndim))[::-1]).contiguous().transpose(
        list(range(t.ndim))[::-1])
    t + u  # pylint: disable=pointless-statement

  def sub(t):
    u = t.transpose(list(range(t.ndim))[::-1]).contiguous().transpose(
        list(range(t.ndim))[::-1])
    u - t  # pylint: disable=pointless-statement

  def solve(t):
    b = backend_factory.get_backend("symmetric")
    b.eigsh_lanczos(lambda x: x * 2.0, [], t, num_krylov_vecs=2)

  def lab(t):
    for c in t._charges:
      c.unique_charges  # pylint: disable=pointless-statement
  return {"contig": contig, "perm": perm, "add": add, "sub": sub, "solve": solve, "lab": lab,
          "dense": lambda t: t.todense(), "td": lambda t: bs_tensordot(t, t.conj(), t.ndim)}


def bs_view(t):
  return value(t)


def tensor_pair(kind, be, cplx):
  W = World("C", cplx)
  a = W.arr(2, 3)
  t = tn.Tensor(a, backend=be)
  u = {"shared": lambda: tn.Tensor(a, backend=be), "copy": t.copy, "conj": t.conj,
       "reshape": lambda: t.reshape((2, 3)), "mul": lambda: t * 1.0,
       "wrapped": lambda: tn.Tensor(t.array, backend=be)}[kind]()
  return W, [t], [u]


def tensor_ops(kind, be, cplx):
  def iop(f):
    def g(box):
      box[0] = f(box[0])
    return g

  def iadd(x):
    x += 1.0
    return x

  def imul(x):
    x *= 2.0
    return x

  def isub(x):
    x -= x
    return x

  def idiv(x):
    x /= 2.0
    return x
  return {"+=": iop(iadd), "*=": iop(imul), "-=": iop(isub), "/=": iop(idiv),
          "node": lambda b: tn.Node(b[0].array, backend=be).reorder_axes([1, 0]),
          "ncon": lambda b: tn.ncon([b[0]], [[-2, -1]], backend=be)}


def tensor_view(box):
  return [np.array(box[0].array)]


def qu_pair(kind, be, cplx):
  W = World("C", cplx)
  x = W.arr(2, 3, 2, 3)
  a = qu.QuOperator.from_tensor(x, [0, 1], [2, 3], backend=be)
  y = {"shared": lambda: qu.QuOperator.from_tensor(x, [0, 1], [2, 3], backend=be),
       "adjoint": a.adjoint, "product": lambda: a @ a, "tensor": lambda: a.tensor_product(a),
       "scaled": lambda: a * 1.0, "trace": lambda: a.partial_trace({0})}[kind]()
  return W, [a], [y]


def qu_ops(kind, be, cplx):
  def contract(box):
    box[0] = box[0].contract()

  def eval_(box):
    box[0].eval()

  def twice(box):
    if len(box[0].in_space) == len(box[0].out_space) and box[0].in_space == box[0].out_space:
      (box[0] @ box[0]).contract()

  def adj(box):
    box[0] = box[0].adjoint()

  def scale(box):
    box[0] = box[0] * 2.0
  return {"contract": contract, "eval": eval_, "twice": twice, "adj": adj, "scale": scale,
          "norm": lambda b: b[0].norm().eval()}


def qu_view(box):
  q = box[0]
  return [qvalue(q), list(q.in_space), list(q.out_space)]


PAIRS = {
    "mps": (mps_pair, mps_ops, mps_view, True),
    "dmrg": (dmrg_pair, dmrg_ops, dmrg_view, True),
    "net": (net_pair, net_ops, net_view, True),
    "bs": (bs_pair, bs_ops, bs_view, False),
    "tensor": (tensor_pair, tensor_ops, tensor_view, True),
    "qu": (qu_pair, qu_ops, qu_view, False),
}
KINDS = {
    "mps": [("raw", "numpy"), ("canon", "numpy"), ("derived", "numpy"), ("infinite", "numpy"),
            ("canon", "tensorflow"), ("derived", "jax")],
    "dmrg": [("dmrg", "numpy")],
    "net": [(k, "numpy") for k in ("shared", "copy", "copy reversed", "replicate", "tensors",
                                   "nodes", "axis names")] + [("copy", "tensorflow")],
    "bs": [(k, s) for s in ("U", "U2") for k in (
        "conj", "conj2", "H", "T", "Tm", "copy", "transpose", "reshape", "reshape mixed",
        "contiguous mixed", "ones_like", "zeros_like", "mul", "neg", "add", "abs", "sign",
        "contig m", "rebuilt", "conj mixed", "ones_like mixed", "copy mixed")],
    "tensor": [(k, b) for b in ("numpy", "tensorflow") for k in (
        "shared", "copy", "conj", "reshape", "mul", "wrapped")],
    "qu": [(k, "numpy") for k in ("shared", "adjoint", "product", "tensor", "scaled", "trace")],
}
SAME = {("bs", "rebuilt"), ("bs", "copy"), ("net", "shared"), ("net", "copy"),
        ("net", "copy reversed"), ("net", "replicate"), ("net", "tensors"), ("net", "nodes"),
        ("net", "axis names"), ("mps", "raw"), ("mps", "canon"), ("mps", "derived"),
        ("mps", "infinite"), ("dmrg", "dmrg"), ("tensor", "shared"), ("tensor", "copy"),
        ("tensor", "mul"), ("tensor", "wrapped"), ("qu", "shared"), ("qu", "scaled")}


def run_pair(desc, rec):
  fam, kind, be, cplx = desc["fam"], desc["kind"], desc["be"], desc["cplx"]
  build, mkops, view, _ = PAIRS[fam]
  ops = mkops(kind, be, cplx)
  names = sorted(ops)
  tol = 1e-6 if fam == "dmrg" else 1e-9
  for d in range(1, desc["depth"] + 1):
    for k, seq in enumerate(itertools.product(names, repeat=d)):
      if d > 1 and k % desc["part"][1] != desc["part"][0]:
        continue
      if d == 1 and desc["part"][0]:
        continue
      for first in (0, 1):
        W, A, B = build(kind, be, cplx)
        if first:
          A, B = B, A
        what = f"{fam} {kind} ({be})"
        vB = view(B)
        strict = [(n, o) for n, o in enumerate(W.base)]
        hist = [view(A)]
        try:
          for n, op in enumerate(seq):
            ops[op](A)
            rec.step()
            hist.append(view(A))
            if not same(vB, view(B), 1e-12):
              raise Violation(f"{what}: {op} on one object changes the other",
                              f"{what}: {' ; '.join(seq[:n + 1])} on object {first}:\n "
                              f"{str(vB)[:800]}\n {str(view(B))[:800]}")
            W.check(f"{what}: {op}")
          if (fam, kind) in SAME:
            for n, op in enumerate(seq):
              ops[op](B)
              rec.step()
              if not same(hist[n + 1], view(B), tol):
                raise Violation(
                    f"{what}: replaying {op} on the other object differs",
                    f"{what}: {' ; '.join(seq[:n + 1])}:\n {str(hist[n + 1])[:800]}\n "
                    f"{str(view(B))[:800]}")
              if not same(hist[-1], view(A), 1e-12):
                raise Violation(f"{what}: {op} on the other object changes the first",
                                f"{what}: {' ; '.join(seq)} then {seq[:n + 1]}")
              W.check(f"{what}: {op}")
        except Violation as v:
          rec.fail(v.sig, v.msg, {"seq": list(seq), "first": first})
        del strict
        rec.validated()
        rec.state((fam, kind, be, cplx, seq, first))
      rec.outcome(f"{fam} depth {d}")


# ------------------------------------------------------------------ driver
def cases(tier):
  depth = 3 if tier == "thorough" else 2
  for g in CALLS:
    for be in ALL:
      for cplx in (False, True):
        n = len([c for c in CALLS[g] if be in c[2]])
        if n:
          parts = max(1, n // 12)
          for p in range(parts):
            yield {"kind": "calls", "group": g, "be": be, "cplx": cplx, "part": [p, parts]}
  for fam, ks in KINDS.items():
    for kind, be in ks:
      for cplx in (False, True):
        if fam in ("tensor", "qu", "bs") and cplx and tier != "thorough" and be == "tensorflow":
          continue
        dp = depth
        parts = {"net": 4, "dmrg": 8, "mps": 4}.get(fam, 1) * (
            8 if depth == 3 and fam in ("net", "dmrg", "mps", "bs") else 1)
        for p in range(parts):
          yield {"fam": fam, "kind": kind, "be": be, "cplx": cplx, "depth": dp,
                 "part": [p, parts]}


def run_case(desc, rec):
  if desc["kind"] == "calls":
    run_calls(desc, rec)
  else:
    run_pair(desc, rec)

"""Control of the iteration order of sets of nodes/edges.

Nodes and edges hash by address, so the order in which sets of them are walked
is a hidden scheduler.  The harness owns it: every object receives an explicit
small hash value, decided by the active policy, the first time it is hashed.
"""
import itertools
import tensornetwork as tn
from tensornetwork import network_components as nc

_state = {"mode": "asc", "n": 0, "table": None}


def reset(mode="asc", table=None):
  """mode: 'asc' | 'desc' | 'perm' (table = list of ranks for the first objects)"""
  _state["mode"] = mode
  _state["n"] = 0
  _state["table"] = table


def _next():
  n = _state["n"]
  _state["n"] = n + 1
  if _state["mode"] == "asc":
    return n
  if _state["mode"] == "desc":
    return 4096 - 1 - (n % 4096)
  t = _state["table"]
  if n < len(t):
    return t[n]
  return n


def pin(objs, ranks):
  """Assign explicit hash ranks to existing objects (before they are hashed)."""
  for o, r in zip(objs, ranks):
    o.__dict__["_mc_hash"] = r


def _hash(self):
  d = self.__dict__
  h = d.get("_mc_hash")
  if h is None:
    h = _next()
    d["_mc_hash"] = h
  return h


def install():
  nc.AbstractNode.__hash__ = _hash
  nc.Edge.__hash__ = _hash

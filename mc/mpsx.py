"""Dense reference model of (finite segments of) matrix product states."""
import numpy as np
from mc import netx


def tens(N, d, D, dt, k=0, scale=1.0):
  """Generic tensors of shapes (D[i], d[i], D[i+1])."""
  cplx = np.dtype(dt).kind == "c"
  out = []
  for i in range(N):
    a = netx.data((D[i], d[i], D[i + 1]), k + i, cplx)
    out.append((scale * np.asarray(a)).astype(dt))
  return out


def dense(ts, connector=None):
  """Tensor of shape (D0, d_1, ..., d_N, D_N)."""
  T = np.asarray(ts[0])
  for t in ts[1:]:
    T = np.tensordot(T, np.asarray(t), 1)
  if connector is not None:
    T = np.tensordot(T, np.asarray(connector), 1)
  return T


def gate1(T, G, k):
  """G acts on physical leg k (axis k + 1)."""
  return np.moveaxis(np.tensordot(G, T, [[1], [k + 1]]), 0, k + 1)


def gate2(T, G, k):
  R = np.tensordot(G, T, [[2, 3], [k + 1, k + 2]])
  return np.moveaxis(R, [0, 1], [k + 1, k + 2])


def truncate(T, cut, D=None, err=None, relative=False):
  """Truncate T across the bond right of physical leg `cut` (0-based).

  Returns truncated tensor, norm of what was discarded, margin to a tie."""
  sh = T.shape
  m = T.reshape(int(np.prod(sh[:cut + 2])), -1)
  u, s, v = np.linalg.svd(m, full_matrices=False)
  keep = len(s)
  margin = 1.0
  if err is not None:
    lim = err * (s[0] if relative else 1.0)
    keep = 0
    for j in range(len(s) + 1):
      rest = np.sqrt(np.sum(s[j:]**2))
      margin = min(margin, abs(rest - lim) / max(lim, 1e-300))
      if rest <= lim:
        keep = j
        break
  if D is not None:
    keep = min(keep, D)
  out = (u[:, :keep] * s[:keep]) @ v[:keep]
  if 0 < keep < len(s) and D is not None:
    if s[keep - 1] > 1e-9 * s[0]:
      margin = min(margin, (s[keep - 1] - s[keep]) / s[0])
  return out.reshape(sh), float(np.sqrt(np.sum(s[keep:]**2))), margin, keep


def left_iso(t):
  t = np.asarray(t)
  m = t.reshape(-1, t.shape[2])
  return np.linalg.norm(m.conj().T @ m - np.eye(m.shape[1]))


def right_iso(t):
  t = np.asarray(t)
  m = t.reshape(t.shape[0], -1)
  return np.linalg.norm(m @ m.conj().T - np.eye(m.shape[0]))

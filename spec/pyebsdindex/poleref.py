"""Reference conversion of a detected band (theta in radians counted as in the Radon transform, rho in pixels from the pattern
centre) to its pole, for each vendor's pattern-centre convention (Krieger Lassen 1994; detector origin bottom left)."""
import numpy as np


def pctrans(vendor, pc, H, W):
  if vendor == 'EDAX':
    return [pc[0] * W, pc[1] * H, -pc[2] * np.minimum(H, W)]
  if vendor == 'OXFORD':
    return [pc[0] * W, pc[1] * W, -pc[2] * W]
  if vendor == 'EMSOFT':
    return [W / 2.0 - pc[0], pc[1] + H / 2.0, -pc[2] / pc[3]]
  return [pc[0] * W, H - pc[1] * H, -pc[2] * H]


def pole(vendor, thdeg, rhopix, pc, H, W):
  theta = np.pi - thdeg * np.pi / 180.0
  rho = -rhopix
  t = pctrans(vendor, pc, H, W)
  r = [-np.sin(theta), np.cos(theta), 0.0]
  d = [rho * np.cos(theta) + 0.5 * W - t[0], rho * np.sin(theta) + 0.5 * H - t[1], -t[2]]
  n = [r[1] * d[2] - r[2] * d[1], r[2] * d[0] - r[0] * d[2], r[0] * d[1] - r[1] * d[0]]
  f = np.sqrt(n[0]**2 + n[1]**2 + n[2]**2)
  return [n[0] / f, n[1] / f, n[2] / f]

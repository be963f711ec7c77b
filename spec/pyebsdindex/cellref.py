"""Reference crystal matrices (International Tables / De Graef, "Introduction to Conventional TEM", ch. 1).  Never run: analysed and
compared with the code's normal forms.  Rows of the direct structure matrix are the Cartesian axes, columns are a, b, c."""
import numpy as np


def cell(a, b, c, alpha, beta, gamma):
  ca = np.cos(alpha * np.pi / 180)
  cb = np.cos(beta * np.pi / 180)
  cg = np.cos(gamma * np.pi / 180)
  sa = np.sin(alpha * np.pi / 180)
  sb = np.sin(beta * np.pi / 180)
  sg = np.sin(gamma * np.pi / 180)
  tg = np.tan(gamma * np.pi / 180)
  det = ((a * b * c)**2) * (1.0 - ca**2 - cb**2 - cg**2 + 2.0 * ca * cb * cg)
  v = np.sqrt(det)
  g = [[a * a, a * b * cg, a * c * cb], [a * b * cg, b * b, b * c * ca], [a * c * cb, b * c * ca, c * c]]
  rg = [[(b * c * sa)**2 / det, a * b * c**2 * (ca * cb - cg) / det, a * b**2 * c * (cg * ca - cb) / det],
        [a * b * c**2 * (ca * cb - cg) / det, (a * c * sb)**2 / det, a**2 * b * c * (cb * cg - ca) / det],
        [a * b**2 * c * (cg * ca - cb) / det, a**2 * b * c * (cb * cg - ca) / det, (a * b * sg)**2 / det]]
  s = [[a, b * cg, c * cb], [0.0, b * sg, -c * (cb * cg - ca) / sg], [0.0, 0.0, v / (a * b * sg)]]
  si = [[1.0 / a, -1.0 / (a * tg), b * c * (cg * ca - cb) / (v * sg)],
        [0.0, 1.0 / (b * sg), a * c * (cb * cg - ca) / (v * sg)],
        [0.0, 0.0, a * b * sg / v]]
  rs = [[si[j][i] for j in range(3)] for i in range(3)]
  rsi = [[s[j][i] for j in range(3)] for i in range(3)]
  return [g, rg, s, si, rs, rsi, det, v]


def dots(p1, p2, m):
  """normalised inner product of every row of p1 with every row of p2 in the metric m, clipped to [-1, 1]"""
  out = []
  for u in p1:
    row = []
    for w in p2:
      d = 0.0
      nu = 0.0
      nw = 0.0
      for i in range(3):
        for j in range(3):
          d = d + u[i] * m[i][j] * w[j]
          nu = nu + u[i] * m[i][j] * u[j]
          nw = nw + w[i] * m[i][j] * w[j]
      row.append(d / (np.sqrt(nu) * np.sqrt(nw)))
    out.append(row)
  return out

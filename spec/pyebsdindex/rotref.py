"""Reference formulas, one rotation at a time, in the convention of Rowenhorst et al., "Consistent representations of and
conversions between 3D rotations" (2015), with P given by the argument p.  This file is never run: the rules analyse it with
the same value-flow analysis as the code and compare the resulting normal forms."""
import numpy as np

PI = np.pi
PI2 = 2.0 * np.pi
eps = 1.0e-12


def sgnp(p):
  return 1.0 if p > 0 else -1.0


def quatnorm(q):
  s = 1.0 if q[0] >= 0.0 else -1.0
  a = q[0] * s
  b = q[1] * s
  c = q[2] * s
  d = q[3] * s
  f = 1.0 / (np.sqrt(a * a + b * b + c * c + d * d) + 1.0e-35)
  return [a * f, b * f, c * f, d * f]


def quatconj(q):
  return [q[0], -q[1], -q[2], -q[3]]


def axnorm(ax):
  s = 1.0 if ax[3] >= eps else -1.0
  x = s * ax[0]
  y = s * ax[1]
  z = s * ax[2]
  w = np.fmod(s * ax[3], PI2)
  f = 1.0 / (np.sqrt(x * x + y * y + z * z) + 1e-35)
  if w > (PI + 1e-6):
    return [-x * f, -y * f, -z * f, PI2 - w]
  return [x * f, y * f, z * f, w]


def quatmul(a, b, p):
  P = sgnp(p)
  return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
          a[0] * b[1] + b[0] * a[1] + P * (a[2] * b[3] - a[3] * b[2]),
          a[0] * b[2] + b[0] * a[2] + P * (a[3] * b[1] - a[1] * b[3]),
          a[0] * b[3] + b[0] * a[3] + P * (a[1] * b[2] - a[2] * b[1])]


def quatvec(q, v, p):
  P = sgnp(p)
  x = P * q[1]
  y = P * q[2]
  z = P * q[3]
  tx = y * v[2] - z * v[1] + q[0] * v[0]
  ty = z * v[0] - x * v[2] + q[0] * v[1]
  tz = x * v[1] - y * v[0] + q[0] * v[2]
  return [v[0] + 2 * (y * tz - z * ty), v[1] + 2 * (z * tx - x * tz), v[2] + 2 * (x * ty - y * tx)]


def eu2om(eu, p):
  c1 = np.cos(eu[0])
  c = np.cos(eu[1])
  c2 = np.cos(eu[2])
  s1 = np.sin(eu[0])
  s = np.sin(eu[1])
  s2 = np.sin(eu[2])
  return [[c1 * c2 - s1 * c * s2, s1 * c2 + c1 * c * s2, s * s2],
          [-c1 * s2 - s1 * c * c2, -s1 * s2 + c1 * c * c2, s * c2],
          [s1 * s, -c1 * s, c]]


def eu2ax(eu, p):
  P = sgnp(p)
  t = np.tan(eu[1] * 0.5)
  sig = 0.5 * (eu[0] + eu[2])
  d = 0.5 * (eu[0] - eu[2])
  tau = np.sqrt(t * t + np.sin(sig) * np.sin(sig))
  if np.abs(sig - PI2) < eps:
    al = PI
  else:
    al = 2.0 * np.arctan(tau / np.cos(sig))
  f = -1.0 if al < 0.0 else 1.0
  if np.abs(al) < eps:
    return [0.0, 0.0, -P * f, 0.0]
  return [-P * t * np.cos(d) / tau * f, -P * t * np.sin(d) / tau * f, -P * np.sin(sig) / tau * f, al * f]


def eu2qu(eu, p):
  P = sgnp(p)
  s = 0.5 * (eu[0] + eu[2])
  d = 0.5 * (eu[0] - eu[2])
  c = np.cos(0.5 * eu[1])
  n = np.sin(0.5 * eu[1])
  q = c * np.cos(s)
  f = 1.0 if q >= 0.0 else -1.0
  return quatnorm([f * q, -P * f * n * np.cos(d), -P * f * n * np.sin(d), -P * f * c * np.sin(s)])


def om2eu(om, p):
  if (1.0 - np.abs(om[2][2])) > eps:
    z = 1.0 / np.sqrt(1.0 - om[2][2] * om[2][2])
    e0 = np.arctan2(om[2][0] * z, -om[2][1] * z)
    e1 = np.arccos(om[2][2])
    e2 = np.arctan2(om[0][2] * z, om[1][2] * z)
  elif np.abs(om[2][2] - 1.0) < eps:
    e0 = np.arctan2(om[0][1], om[0][0])
    e1 = 0.0
    e2 = 0.0
  else:
    e0 = np.arctan2(om[0][1], om[0][0])
    e1 = PI
    e2 = 0.0
  return [np.fmod(e0 + 100.0 * PI, PI2), e1, np.fmod(e2 + 100.0 * PI, PI2)]


def ax2om(ax, p):
  P = sgnp(p)
  a = axnorm(ax)
  c = np.cos(a[3])
  s = P * np.sin(a[3])
  o = 1.0 - c
  return [[a[0] * a[0] * o + c, o * a[0] * a[1] - s * a[2], o * a[0] * a[2] + s * a[1]],
          [o * a[0] * a[1] + s * a[2], a[1] * a[1] * o + c, o * a[1] * a[2] - s * a[0]],
          [o * a[0] * a[2] - s * a[1], o * a[1] * a[2] + s * a[0], a[2] * a[2] * o + c]]


def qu2eu(q, p):
  P = sgnp(p)
  q0 = P * q[0]
  q03 = q0 * q0 + q[3] * q[3]
  q12 = q[1] * q[1] + q[2] * q[2]
  chi = np.sqrt(q03 * q12)
  if chi == 0.0:
    e2 = 0.0
    if q12 == 0.0:
      e0 = np.arctan2(-2.0 * q0 * q[3], q0 * q0 - q[3] * q[3])
      e1 = 0.0
    else:
      e0 = np.arctan2(2.0 * q[1] * q[2], q[1] * q[1] - q[2] * q[2])
      e1 = PI
  else:
    d = np.arctan2(-q[2], -q[1])
    s = np.arctan2(-q[3], q0)
    e0 = d + s
    e1 = np.arctan2(2.0 * chi, q03 - q12)
    e2 = s - d
  return [np.fmod(e0 + PI2, PI2), e1, np.fmod(e2 + PI2, PI2)]


def ax2ho(ax, p):
  a = axnorm(ax)
  f = (0.75 * (a[3] - np.sin(a[3]))) ** (1.0 / 3.0)
  return [f * a[0], f * a[1], f * a[2]]


def ho2ax(ho, p):
  P = sgnp(p)
  m = ho[0] * ho[0] + ho[1] * ho[1] + ho[2] * ho[2]
  if m < eps:
    return [0.0, 0.0, -P, 0.0]
  s = 1.0000000000018852 + m * (-0.5000000002194847 + m * (-0.024999992127593126 + m * (-0.003928701544781374 + m * (
    -0.0008152701535450438 + m * (-0.0002009500426119712 + m * (-2.397986776071756e-05 + m * (-8.202868926605841e-05 + m * (0.00012448715042090092 + m * (
    -0.0001749114214822577 + m * (0.0001703481934140054 + m * (-0.00012062065004116828 + m * (5.9719705868660826e-05 + m * (-1.980756723965647e-05 + m * (3.953714684212874e-06 + m * (-3.6555001439719544e-07)))))))))))))))
  s = 1.0 if s > 1.0 else s
  s = -1.0 if s < -1.0 else s
  w = 2.0 * np.arccos(s)
  if np.abs(w - PI) < eps:
    w = PI
  r = np.sqrt(m)
  return [ho[0] / r, ho[1] / r, ho[2] / r, w]


def ro2ax(ro, p):
  P = sgnp(p)
  if ro[3] < eps:
    return [0.0, 0.0, -P, 0.0]
  if ro[3] == np.inf:
    return [ro[0], ro[1], ro[2], PI]
  f = 1.0 / np.sqrt(ro[0] * ro[0] + ro[1] * ro[1] + ro[2] * ro[2])
  return [ro[0] * f, ro[1] * f, ro[2] * f, 2.0 * np.arctan(ro[3])]


def ax2ro(ax, p):
  P = sgnp(p)
  a = axnorm(ax)
  if a[3] == 0:
    return [0.0, 0.0, -P, 0.0]
  t = np.tan(a[3] * 0.5)
  if (PI - a[3]) < eps:
    t = np.inf
  return [a[0], a[1], a[2], t]


def ax2qu(ax, p):
  a = axnorm(ax)
  if a[3] < eps:
    return quatnorm([1.0, 0.0, 0.0, 0.0])
  f = np.sin(ax[3] * 0.5) / np.sqrt(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2])
  return quatnorm([np.cos(ax[3] * 0.5), ax[0] * f, ax[1] * f, ax[2] * f])


def ro2ho(ro, p):
  if ro[3] < eps:
    return [0.0, 0.0, 0.0]
  if ro[3] > 1e9:
    f = 0.75 * PI
  else:
    t = 2.0 * np.arctan(ro[3])
    f = 0.75 * (t - np.sin(t))
  f = f ** (1.0 / 3.0)
  return [ro[0] * f, ro[1] * f, ro[2] * f]


def qu2om(qu, p):
  P = sgnp(p)
  q = quatnorm(qu)
  s = q[0] * q[0] - (q[1] * q[1] + q[2] * q[2] + q[3] * q[3])
  return [[s + 2.0 * q[1] * q[1], 2.0 * (q[1] * q[2] - P * q[0] * q[3]), 2.0 * (q[1] * q[3] + P * q[0] * q[2])],
          [2.0 * (q[1] * q[2] + P * q[0] * q[3]), s + 2.0 * q[2] * q[2], 2.0 * (q[2] * q[3] - P * q[0] * q[1])],
          [2.0 * (q[1] * q[3] - P * q[0] * q[2]), 2.0 * (q[2] * q[3] + P * q[0] * q[1]), s + 2.0 * q[3] * q[3]]]


def om2qu(o, p):
  P = sgnp(p)
  if o[0][0] + o[1][1] + o[2][2] > 0:
    s = 0.5 / np.sqrt(o[0][0] + o[1][1] + o[2][2] + 1.0)
    return quatnorm([0.25 / s, P * s * (o[2][1] - o[1][2]), P * s * (o[0][2] - o[2][0]), P * s * (o[1][0] - o[0][1])])
  if o[0][0] > o[1][1] and o[0][0] > o[2][2]:
    s = 2.0 * np.sqrt(1.0 + o[0][0] - o[1][1] - o[2][2])
    return quatnorm([(o[2][1] - o[1][2]) / s, P * 0.25 * s, P * (o[0][1] + o[1][0]) / s, P * (o[0][2] + o[2][0]) / s])
  if o[1][1] > o[2][2]:
    s = 2.0 * np.sqrt(1.0 - o[0][0] + o[1][1] - o[2][2])
    return quatnorm([(o[0][2] - o[2][0]) / s, P * (o[0][1] + o[1][0]) / s, P * 0.25 * s, P * (o[1][2] + o[2][1]) / s])
  s = 2.0 * np.sqrt(1.0 - o[0][0] - o[1][1] + o[2][2])
  return quatnorm([(o[1][0] - o[0][1]) / s, P * (o[0][2] + o[2][0]) / s, P * (o[1][2] + o[2][1]) / s, P * 0.25 * s])


def qu2ax(qu, p):
  P = sgnp(p)
  q = quatnorm(qu)
  if q[0] > (1.0 - eps):
    return [0.0, 0.0, -P, 0.0]
  f = 1.0 / (np.sqrt(q[1] * q[1] + q[2] * q[2] + q[3] * q[3]) + 1e-35)
  return [q[1] * f, q[2] * f, q[3] * f, 2.0 * np.arccos(q[0])]


def qu2ro(qu, p):
  P = sgnp(p)
  q = quatnorm(qu)
  if q[0] < eps:
    return [q[1], q[2], q[3], np.inf]
  m = q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
  if m < eps:
    return [0.0, 0.0, -P, 0.0]
  q0 = q[0]
  q0 = 1.0 - eps if q0 > 1.0 else q0
  q0 = -1.0 + eps if q0 < -1.0 else q0
  f = 1.0 / np.sqrt(m)
  return [q[1] * f, q[2] * f, q[3] * f, np.tan(np.arccos(q0))]


def qu2ho(qu, p):
  q = quatnorm(qu)
  if q[0] > (1.0 - eps):
    return [0.0, 0.0, 0.0]
  w = 2.0 * np.arccos(q[0])
  f = (0.75 * (w - np.sin(w))) ** (1.0 / 3.0) / np.sqrt(q[1] * q[1] + q[2] * q[2] + q[3] * q[3])
  return [q[1] * f, q[2] * f, q[3] * f]


def quatave3(a, b, c):
  s = 1.0 if a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3] >= 0.0 else -1.0
  t = 1.0 if a[0] * c[0] + a[1] * c[1] + a[2] * c[2] + a[3] * c[3] >= 0.0 else -1.0
  return quatnorm([a[0] + s * b[0] + t * c[0], a[1] + s * b[1] + t * c[1], a[2] + s * b[2] + t * c[2], a[3] + s * b[3] + t * c[3]])

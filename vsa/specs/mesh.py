"""Specification programs for device meshes (analysed like the code, never run)."""
import numpy as np


def default2(hw, p0, p1, r0, r1):
  return hw.reshape((p0, r0, p1, r1)).transpose((0, 2, 1, 3)).reshape((p0 * p1, r0 * r1))


def default4(hw, p0, p1, p2, p3, r0, r1, r2, r3):
  d = hw.reshape((p0, r0, p1, r1, p2, r2, p3, r3))
  return d.transpose((0, 2, 4, 6, 1, 3, 5, 7)).reshape((p0 * p1 * p2 * p3, r0 * r1 * r2 * r3))


def tile2(hw, a0, b0, c0, d0, a1, b1, c1, d1):
  x = hw.reshape((a0, b0, c0, d0, a1, b1, c1, d1)).transpose((0, 4, 1, 5, 2, 6, 3, 7))
  return x.reshape((a0 * a1 * b0 * b1, c0 * c1 * d0 * d1))


def tile4(hw, a0, b0, c0, d0, a1, b1, c1, d1, a2, b2, c2, d2, a3, b3, c3, d3):
  x = hw.reshape((a0, b0, c0, d0, a1, b1, c1, d1, a2, b2, c2, d2, a3, b3, c3, d3))
  x = x.transpose((0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15))
  return x.reshape((a0 * a1 * a2 * a3 * b0 * b1 * b2 * b3, c0 * c1 * c2 * c3 * d0 * d1 * d2 * d3))

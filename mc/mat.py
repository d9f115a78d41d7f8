"""Tiny pure-python 4x4 matrix reference, independent of numpy and yapCAD."""
import math


def eye():
    return [[1.0 if i == j else 0.0 for j in range(4)] for i in range(4)]


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(4)) for j in range(4)] for i in range(4)]


def trans(x, y, z):
    m = eye()
    m[0][3], m[1][3], m[2][3] = float(x), float(y), float(z)
    return m


def cs(deg):
    """cos/sin, exact on multiples of 90."""
    d = deg % 360
    if d == 0:
        return 1.0, 0.0
    if d == 90:
        return 0.0, 1.0
    if d == 180:
        return -1.0, 0.0
    if d == 270:
        return 0.0, -1.0
    return math.cos(math.radians(deg)), math.sin(math.radians(deg))


def rot(axis, deg):
    """Rotation about an axis through the origin (quaternion form)."""
    n = math.sqrt(sum(c * c for c in axis))
    if n < 1e-10:
        return eye()
    x, y, z = (c / n for c in axis)
    w, s = cs(deg / 2.0) if deg % 180 == 0 else (math.cos(math.radians(deg) / 2), math.sin(math.radians(deg) / 2))
    x, y, z = x * s, y * s, z * s
    m = eye()
    m[0][:3] = [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)]
    m[1][:3] = [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)]
    m[2][:3] = [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]
    return m


def app(m, p, w=1.0):
    v = [p[0], p[1], p[2], w]
    return [sum(m[i][k] * v[k] for k in range(4)) for i in range(3)]


def inv_rigid(m):
    r = [[m[j][i] for j in range(3)] for i in range(3)]
    t = [m[i][3] for i in range(3)]
    o = eye()
    for i in range(3):
        for j in range(3):
            o[i][j] = r[i][j]
        o[i][3] = -sum(r[i][k] * t[k] for k in range(3))
    return o


def diff(a, b):
    return max(abs(float(a[i][j]) - float(b[i][j])) for i in range(4) for j in range(4))

"""Exact numbers of the specification as floating point values."""
import math


def root_symbols(eps):
    def sym(n, d):
        if (n, d) == (-1, 1):
            return math.pi
        if (n, d) == (2, 1):
            return eps
        if d == 0:
            return math.sqrt(n)
        c = n / d
        return math.acos(c) / math.sqrt(1 - c * c)
    return sym


class Bad(Exception):
    pass


def number(x, sym):
    if x[1] == 0:
        raise Bad()
    v = x[0] / x[1]
    if len(x) == 3:
        for m in x[2]:
            t = m[0] / m[1]
            for s in m[2]:
                t *= sym(s[0], s[1]) ** s[2]
            v += t
    return v


def has_eps(x):
    return len(x) == 3 and any(s[0] == 2 and s[1] == 1 for m in x[2] for s in m[2])


def defined(x):
    return x[1] != 0


def mat(m, sym):
    return [[number(x, sym) for x in r] for r in m]


def all_defined(m):
    return all(defined(x) for r in m for x in r)


def rotation(vec, coords):
    """Rotation matrix, quaternion (w x y z), axis and angle in (-pi, pi] of a rotation vector.
    vec: floats; coords: exact coordinates (to build half turns exactly)."""
    half = all(len(c) == 2 and c[0] == 0 or
               (len(c) == 3 and c[0] == 0 and len(c[2]) == 1 and c[2][0][2] == [[-1, 1, 1]])
               for c in coords) and any(len(c) == 3 for c in coords)
    th = math.sqrt(sum(v * v for v in vec))
    if th == 0:
        return [1, 0, 0, 0, 1, 0, 0, 0, 1], [1, 0, 0, 0], [1, 0, 0], 0.0
    a = [v / th for v in vec]
    if half:
        a = [(c[2][0][0] / c[2][0][1] if len(c) == 3 else 0.0) for c in coords]
        n = math.sqrt(sum(v * v for v in a))
        if abs(n - 1) < 1e-12:
            m = [2 * a[i] * a[j] - (1 if i == j else 0) for i in range(3) for j in range(3)]
            return m, [0.0] + a, a, math.pi
        a = [v / th for v in vec]
    s, c = math.sin(th), math.cos(th)
    # 1 - cos without cancellation
    k = 2 * math.sin(th / 2) ** 2
    x, y, z = a
    m = [1 - k * (y * y + z * z), k * x * y - s * z, k * x * z + s * y,
         k * x * y + s * z, 1 - k * (x * x + z * z), k * y * z - s * x,
         k * x * z - s * y, k * y * z + s * x, 1 - k * (x * x + y * y)]
    q = [math.cos(th / 2)] + [math.sin(th / 2) * v for v in a]
    ang = math.remainder(th, 2 * math.pi)
    return m, q, a, ang

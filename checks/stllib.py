"""harnesses on the exported STL: specification of outlines and blades"""
from .mulib import *


def outline(env, d, n):
    """four-digit section of digits d (camber, place of the camber, thickness) with n points: behind and above the leading edge"""
    m, p, t = d[0] / 100, d[1] / 10, (10 * d[2] + d[3]) / 100
    flat = m == 0 or p == 0
    if env.symbolic:
        flat = bool(env.Or(m == 0, p == 0))
    out = []
    for j in range(n):
        th = -env.pi + 2 * env.pi * env.rat(j, n - 1)
        x = (1 - env.cos(th)) / 2
        side = 0 if 2 * j == n - 1 else 1 if 2 * j > n - 1 else -1
        half = 5 * t * (env.rat(2969, 10000) * env.sqrt(x) - env.rat(126, 1000) * x - env.rat(3516, 10000) * x * x + env.rat(2843, 10000) * x ** 3 - env.rat(1015, 10000) * x ** 4)
        if flat:
            y = slope = env.rat(0)
        else:
            front = x < p
            y = env.ite(front, m / (p * p) * (2 * p * x - x * x), m / ((1 - p) * (1 - p)) * (1 - 2 * p + 2 * p * x - x * x))
            slope = env.ite(front, 2 * m / (p * p) * (p - x), 2 * m / ((1 - p) * (1 - p)) * (p - x))
        a = env.atan(slope)
        out.append((x - side * half * env.sin(a), y + side * half * env.cos(a)))
    return out


def mix(a, b, s):
    return [(x0 + (x1 - x0) * s, y0 + (y1 - y0) * s) for (x0, y0), (x1, y1) in zip(a, b)]


def strip(env, label, tri, A, B, flip=False, step=1):
    """triangles between the outlines A and B of two neighbouring sections"""
    n = len(A)
    for j in range(0, n - 1, step):
        one, two = [A[j], A[j + 1], B[j]], [A[j + 1], B[j + 1], B[j]]
        if flip:
            one, two = [one[0], one[2], one[1]], [two[0], two[2], two[1]]
        for k, (got, want) in enumerate(zip((tri[2 * j], tri[2 * j + 1]), (one, two))):
            env.eq('%s triangle %d.%d' % (label, j, k), [list(v) for v in got], want, **({'scale': 1} if env.symbolic else {'tol': 2e-6, 'scale': 1}))

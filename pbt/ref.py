"""Independent reference models."""
import math

import numpy as np


def legendre_norm(N, x):
    """Orthonormalised associated Legendre functions without Condon-Shortley
    phase: out[n, m] = sqrt((2n+1)/(4 pi) (n-m)!/(n+m)!) P_n^m(x), m >= 0."""
    x = np.atleast_1d(np.asarray(x, float))
    s = np.sqrt(np.maximum(0., (1 - x) * (1 + x)))
    P = np.zeros((N + 1, N + 1, len(x)))
    P[0, 0] = 1 / math.sqrt(4 * math.pi)
    for m in range(1, N + 1):
        P[m, m] = math.sqrt((2 * m + 1) / (2 * m)) * s * P[m - 1, m - 1]
    for m in range(N):
        P[m + 1, m] = math.sqrt(2 * m + 3) * x * P[m, m]
    for m in range(N + 1):
        for n in range(m + 2, N + 1):
            a = math.sqrt((4 * n * n - 1) / (n * n - m * m))
            b = math.sqrt(((n - 1) ** 2 - m * m) / (4 * (n - 1) ** 2 - 1))
            P[n, m] = a * (x * P[n - 1, m] - b * P[n - 2, m])
    return P


def _leg_zen(N, zen):
    """As legendre_norm, from the angle (accurate at the poles)."""
    zen = np.atleast_1d(np.asarray(zen, float))
    x = np.cos(zen)
    s = np.sin(zen)
    P = np.zeros((N + 1, N + 1, len(x)))
    P[0, 0] = 1 / math.sqrt(4 * math.pi)
    for m in range(1, N + 1):
        P[m, m] = math.sqrt((2 * m + 1) / (2 * m)) * s * P[m - 1, m - 1]
    for m in range(N):
        P[m + 1, m] = math.sqrt(2 * m + 3) * x * P[m, m]
    for m in range(N + 1):
        for n in range(m + 2, N + 1):
            a = math.sqrt((4 * n * n - 1) / (n * n - m * m))
            b = math.sqrt(((n - 1) ** 2 - m * m) / (4 * (n - 1) ** 2 - 1))
            P[n, m] = a * (x * P[n - 1, m] - b * P[n - 2, m])
    return P


def sh_real(N, azi, zen):
    """(Q, (N+1)^2) real N3D (orthonormal) SHs in ACN order."""
    azi = np.atleast_1d(np.asarray(azi, float))
    P = _leg_zen(N, zen)
    Y = np.zeros((len(azi), (N + 1) ** 2))
    for n in range(N + 1):
        for m in range(-n, n + 1):
            if m < 0:
                a = math.sqrt(2) * np.sin(-m * azi)
            elif m == 0:
                a = 1.
            else:
                a = math.sqrt(2) * np.cos(m * azi)
            Y[:, n * n + n + m] = P[n, abs(m)] * a
    return Y


def sh_cplx(N, azi, zen):
    """(Q, (N+1)^2) complex SHs (Condon-Shortley phase) in ACN order."""
    azi = np.atleast_1d(np.asarray(azi, float))
    P = _leg_zen(N, zen)
    Y = np.zeros((len(azi), (N + 1) ** 2), complex)
    for n in range(N + 1):
        for m in range(-n, n + 1):
            sgn = (-1) ** m if m > 0 else 1
            Y[:, n * n + n + m] = sgn * P[n, abs(m)] * np.exp(1j * m * azi)
    return Y


def sh(N, azi, zen, sh_type):
    return sh_real(N, azi, zen) if sh_type == 'real' else sh_cplx(N, azi, zen)


def orders(N):
    """Order n of every ACN channel."""
    return np.concatenate([np.full(2 * n + 1, n) for n in range(N + 1)])


def legendre(n, x):
    """P_n(x) by recurrence."""
    x = np.asarray(x, float)
    p0, p1 = np.ones_like(x), x.copy()
    if n == 0:
        return p0
    for k in range(1, n):
        p0, p1 = p1, ((2 * k + 1) * x * p1 - k * p0) / (k + 1)
    return p1


def cart(azi, zen, r=1.):
    azi, zen = np.asarray(azi, float), np.asarray(zen, float)
    return np.stack([r * np.cos(azi) * np.sin(zen),
                     r * np.sin(azi) * np.sin(zen),
                     r * np.cos(zen) * np.ones_like(azi)], axis=-1)


def sph(v):
    """vectors (..., 3) -> azi, zen, r"""
    v = np.asarray(v, float)
    return (np.arctan2(v[..., 1], v[..., 0]),
            np.arctan2(np.hypot(v[..., 0], v[..., 1]), v[..., 2]),
            np.sqrt(np.sum(v * v, axis=-1)))


def euler(yaw, pitch, roll):
    """Mathworld (passive) rotation matrices composed as Rz Ry Rx."""
    c, s = np.cos, np.sin
    rx = np.array([[1, 0, 0], [0, c(roll), s(roll)], [0, -s(roll), c(roll)]])
    ry = np.array([[c(pitch), 0, -s(pitch)], [0, 1, 0],
                   [s(pitch), 0, c(pitch)]])
    rz = np.array([[c(yaw), s(yaw), 0], [-s(yaw), c(yaw), 0], [0, 0, 1]])
    return rz @ ry @ rx


def angle(a, b):
    """Angle between vectors, accurate everywhere."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1),
                      np.sum(a * b, axis=-1))


def quad(n):
    """Own Gauss-Legendre x trapezoid product quadrature exact to degree n:
    azi, zen, weights (sum 4 pi)."""
    nz = n // 2 + 1
    na = n + 1
    x, w = np.polynomial.legendre.leggauss(nz)
    azi = 2 * np.pi * (np.arange(na) + 0.3) / na
    A, Z = np.meshgrid(azi, np.arccos(x))
    W = np.repeat(w[:, None], na, axis=1) * 2 * np.pi / na
    return A.ravel(), Z.ravel(), W.ravel()

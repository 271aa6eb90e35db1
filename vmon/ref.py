"""Independent reference computations the oracles compare against.

Nothing in here uses spaudiopy; formulas are written down from the mathematical
definitions, mostly in a different form than a typical implementation.
"""
import math

import numpy as np


# ---------------------------------------------------- spherical harmonics
def legendre_norm(N, zen):
    """Orthonormal associated Legendre functions [n][m] without the
    Condon-Shortley phase, by the (n, m) three term recursion."""
    x = np.cos(zen)
    s = np.abs(np.sin(zen))
    P = {(0, 0): np.full_like(x, math.sqrt(1 / (4 * math.pi)))}
    for m in range(1, N + 1):
        P[m, m] = math.sqrt((2 * m + 1) / (2 * m)) * s * P[m - 1, m - 1]
    for m in range(0, N):
        P[m + 1, m] = math.sqrt(2 * m + 3) * x * P[m, m]
        for n in range(m + 2, N + 1):
            a = math.sqrt((4 * n * n - 1) / (n * n - m * m))
            b = math.sqrt(((n - 1) ** 2 - m * m) / (4 * (n - 1) ** 2 - 1))
            P[n, m] = a * (x * P[n - 1, m] - b * P[n - 2, m])
    return P


def sh(N, azi, zen, sh_type='real'):
    """(Q, (N+1)^2) orthonormal spherical harmonics in ACN order."""
    azi = np.atleast_1d(np.asarray(azi, dtype=float)).ravel()
    zen = np.atleast_1d(np.asarray(zen, dtype=float)).ravel()
    P = legendre_norm(N, zen)
    Y = np.zeros((len(azi), (N + 1) ** 2),
                 dtype=complex if sh_type == 'complex' else float)
    for n in range(N + 1):
        for m in range(-n, n + 1):
            p = P[n, abs(m)]
            acn = n * n + n + m
            if sh_type == 'complex':
                ph = np.cos(m * azi) + 1j * np.sin(m * azi)
                sg = (-1.) ** m if m > 0 else 1.
                Y[:, acn] = sg * p * ph
            elif m == 0:
                Y[:, acn] = p
            elif m > 0:
                Y[:, acn] = math.sqrt(2) * p * np.cos(m * azi)
            else:
                Y[:, acn] = math.sqrt(2) * p * np.sin(-m * azi)
    return Y


def legendre(n, x):
    """Legendre polynomial by Bonnet's recursion."""
    x = np.asarray(x, dtype=float)
    p0, p1 = np.ones_like(x), x
    if n == 0:
        return p0
    for k in range(2, n + 1):
        p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
    return p1


def orders(N):
    """Order of every ACN channel."""
    return np.floor(np.sqrt(np.arange((N + 1) ** 2) + 1e-9)).astype(int)


def quadrature(L):
    """Product quadrature (azi, zen, w) exact up to degree L."""
    nt = L // 2 + 1
    x, w = np.polynomial.legendre.leggauss(nt)
    npz = L + 1
    phi = 2 * np.pi * (np.arange(npz) + 0.31) / npz
    zen = np.repeat(np.arccos(x), npz)
    azi = np.tile(phi, nt)
    ww = np.repeat(w, npz) * 2 * np.pi / npz
    return azi, zen, ww


# -------------------------------------------------------------- geometry
def unit(azi, zen):
    azi, zen = np.asarray(azi, float), np.asarray(zen, float)
    return np.stack([np.sin(zen) * np.cos(azi), np.sin(zen) * np.sin(azi),
                     np.cos(zen)], axis=-1)


def angle(a, b):
    """Angle between vectors, accurate for small and large angles."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    c = np.cross(a, b)
    return np.arctan2(np.sqrt(np.sum(c ** 2, -1)), np.sum(a * b, -1))


def Rx(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def Ry(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def Rz(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def dirs(v):
    """azi, zen of vectors."""
    v = np.atleast_2d(v)
    return np.arctan2(v[:, 1], v[:, 0]), \
        np.arctan2(np.hypot(v[:, 0], v[:, 1]), v[:, 2])


def solid_angle(a, b, c):
    """Area of a spherical triangle (van Oosterom and Strackee)."""
    a, b, c = [np.asarray(v, float) / np.linalg.norm(v) for v in (a, b, c)]
    num = abs(np.dot(a, np.cross(b, c)))
    den = 1 + a @ b + b @ c + c @ a
    return 2 * math.atan2(num, den)


# --------------------------------------------------------------- signals
def conv(x, h):
    """Direct form linear convolution along the last axis of two vectors."""
    x, h = np.asarray(x, float), np.asarray(h, float)
    y = np.zeros(len(x) + len(h) - 1)
    if len(h) > len(x):
        x, h = h, x
    for k, c in enumerate(h):
        y[k:k + len(x)] += c * x
    return y


def nearest(g_azi, g_zen, azi, zen):
    """Distances of every grid point to the direction."""
    return angle(unit(g_azi, g_zen), unit(azi, zen))


# --------------------------------------------------------- amplitude panning
def vbap_gains(P, tris, src, norm=2):
    """Brute force VBAP: all triangles that contain the source."""
    out = []
    for t in tris:
        L = P[list(t)].T
        if abs(np.linalg.det(L)) < 1e-9:
            continue
        g = np.linalg.solve(L, src)
        if np.min(g) >= -1e-9:
            v = np.zeros(len(P))
            v[list(t)] = g
            out.append(v / np.linalg.norm(g, norm))
    return out


class PanRef:
    """Brute force amplitude panning over all given triangles."""

    def __init__(self, points, tris):
        self.P = np.asarray(points, float)
        self.T = np.asarray(tris, int)
        V = self.P[self.T]                       # (T, 3, 3) rows: vertices
        self.inv = np.linalg.inv(np.transpose(V, (0, 2, 1)))
        self.cond = np.linalg.cond(V)

    def gains(self, src, norm=2):
        """(found, gains, margin): margin < 0 if no triangle holds src."""
        src = np.asarray(src, float)
        g = np.einsum('tij,nj->nti', self.inv, src)       # (n, T, 3)
        if np.isinf(norm):
            nn = np.max(np.abs(g), axis=-1)
        else:
            nn = np.sum(np.abs(g) ** norm, axis=-1) ** (1. / norm)
        g = g / nn[..., None]
        low = g.min(axis=-1)
        best = np.argmax(low, axis=1)
        n = np.arange(len(src))
        out = np.zeros((len(src), len(self.P)))
        sel = g[n, best]
        m = low[n, best]
        for k in range(len(src)):
            out[k, self.T[best[k]]] = sel[k]
        return out, m, low

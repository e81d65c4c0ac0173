"""Reference neighbourhoods and guides for the topology checks.

Personal best positions are given as labels unrelated to the particles'
positions, so that a returned best position identifies the guiding particle.
"""
import itertools
from fractions import Fraction
from math import comb

import numpy as np

from .core import check
from pyswarms.backend.swarms import Swarm


def swarm(points, costs, labels=None, best_cost=None, best_pos=None):
    P = np.array(points, dtype=float)
    n, d = P.shape
    s = Swarm(position=P, velocity=np.zeros((n, d)), pbest_pos=label_matrix(n, d) if labels is None else labels,
              pbest_cost=np.array(costs), options={})
    s.n_particles, s.dimensions = n, d
    if best_cost is not None:
        s.best_cost = best_cost
    if best_pos is not None:
        s.best_pos = best_pos
    return s


def label_matrix(n, d, base=1000.0):
    return base + np.arange(n, dtype=float)[:, None] + np.arange(d)[None, :] / 64.0


def guides(best_pos, n, d, labels=None):
    """Index of the guiding particle of each row of best_pos."""
    plain = labels is None
    labels = label_matrix(n, d) if plain else labels
    bp = np.asarray(best_pos)
    if bp.shape == (d,) and n != 1:
        bp = np.tile(bp, (n, 1))
    check(bp.shape == (n, d) or bp.shape == (d,), lambda: "best positions have shape %s for %d particles in %d dimensions" % (np.shape(best_pos), n, d))
    bp = bp.reshape(n, d)
    out = []
    if plain and n > 16:
        idx = (bp[:, 0] - labels[0, 0]).astype(int)
        if ((idx >= 0) & (idx < n)).all() and np.array_equal(labels[np.clip(idx, 0, n - 1)], bp):
            return [int(i) for i in idx]
    for i in range(n):
        m = np.nonzero((labels == bp[i]).all(axis=1))[0]
        check(len(m) >= 1, lambda: "particle %d is guided by %s, which is nobody's personal best position" % (i, bp[i].tolist()))
        out.append(int(m[0]))
    return out


def dist(a, b, p):
    if p == 1:
        return sum(abs(x - y) for x, y in zip(a, b))
    return sum((x - y) ** 2 for x, y in zip(a, b))


def knn_groups(points, k, p, tol=0.0):
    """Per particle (must, may, m): `must` belongs to every k nearest
    neighbourhood (itself included), m more are taken from `may`."""
    n = len(points)
    out = []
    for i in range(n):
        ds = [(dist(points[i], points[j], p), j) for j in range(n) if j != i]
        if k <= 1:
            out.append(([i], [], 0))
            continue
        r = sorted(d for d, _ in ds)[k - 2]
        eps = tol * (1 + abs(r))
        must = [i] + [j for d, j in ds if d < r - eps]
        may = [j for d, j in ds if abs(d - r) <= eps]
        out.append((must, may, k - len(must)))
    return out


def feasible_guides(group, costs):
    """Particles that can be the best of a neighbourhood (ties in distance open)."""
    must, may, m = group
    low = min(costs[j] for j in must)
    out = {w for w in must if costs[w] == low and sum(1 for j in may if costs[j] >= low) >= m}
    if m >= 1:
        for w in may:
            if costs[w] <= low and sum(1 for j in may if costs[j] >= costs[w]) >= m:
                out.add(w)
    return out


def delannoy(d, r):
    return sum(comb(d, i) * comb(r, i) * 2 ** i for i in range(min(d, r) + 1))


def graph_guides(adj, costs):
    """adj: list of sets (self included); feasible guides per particle."""
    out = []
    for nb in adj:
        low = min(costs[j] for j in nb)
        out.append({j for j in nb if costs[j] == low})
    return out


# ---------------------------------------------------------------- Delaunay

def det(m):
    m = [list(r) for r in m]
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(n) if m[0][j])


def orient(pts):
    """Signed volume of d+1 points in d dimensions (exact for integers)."""
    o = pts[0]
    return det([[x - y for x, y in zip(q, o)] for q in pts[1:]])


def in_sphere(simplex, q):
    """> 0 iff q lies strictly inside the circumsphere of the simplex."""
    rows = []
    for s in simplex:
        v = [x - y for x, y in zip(s, q)]
        rows.append(v + [sum(x * x for x in v)])
    sign = det(rows) * orient(simplex)
    d = len(q)
    return sign if d % 2 == 0 else -sign


def delaunay(points):
    """Adjacency (sets, self excluded) of the Delaunay triangulation of integer
    points, or None when the points are not in general position."""
    n, d = len(points), len(points[0])
    adj = [set() for _ in range(n)]
    for S in itertools.combinations(range(n), d + 1):
        pts = [points[i] for i in S]
        if orient(pts) == 0:
            return None
        empty = True
        for q in range(n):
            if q in S:
                continue
            v = in_sphere(pts, points[q])
            if v == 0:
                return None
            if v > 0:
                empty = False
        if empty:
            for a, b in itertools.combinations(S, 2):
                adj[a].add(b)
                adj[b].add(a)
    return adj


def cost_orders(n, tier="quick"):
    """All strict orders for small n, otherwise every winner/runner-up pair and ties."""
    if n <= 4:
        return [list(map(float, p)) for p in itertools.permutations(range(n))] + [[float(c) for c in t] for t in itertools.product((0, 1), repeat=n)]
    out = []
    for w in range(n):
        c = [5.0 + i for i in range(n)]
        c[w] = -1.0
        out.append(c)
        out.append([float((i * 7 + w * 3) % n) for i in range(n)])
        out.append([float(-(i * 7 + w * 3) % n) for i in range(n)])
        c = [2.0] * n
        c[w] = 1.0
        c[(w + 1) % n] = 1.0
        out.append(c)
    return out

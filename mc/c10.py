"""C10: catalog matching returns the nearest neighbour within the radius."""
import itertools

import numpy as np

from mc import lib

LEVEL = "exploration"
RULE = "evaluation = one call of crossmatch compared with brute force; distinct = (sets, radius, how they are given)"
BOUNDS = {
    "quick": "all sequences of 0 to 2 points against all sets of 0 to 3 points on the lattices of 5, 3x3 and 2x2x2 points, 6 radii; "
             "all sets of 1 or 2 holes in a 7x7 lattice against a finer lattice of 169 points; 8 ways to give the sets; all pairs of dimensions 1 to 4",
    "thorough": "up to 3 points against up to 4 points, 3 holes",
}
RADII = [None, 0.0, 0.5, 1.2, 1.9, 2.9]


def lattice(dim):
    if dim == 1:
        return [(float(i),) for i in range(5)]
    if dim == 2:
        return [(float(i), float(j)) for i in range(3) for j in range(3)]
    return [(float(i), float(j), float(k)) for i in range(2) for j in range(2) for k in range(2)]


def brute(rec, a, b, r, what, key, X1, X2):
    """Calls crossmatch(X1, X2) for the point lists a and b."""
    with rec.guard(what):
        d1, d2 = [lib.digest(np.asarray(x)) for x in (X1, X2)]
        args = (X1, X2) if r is None else (X1, X2, r)
        dist, ind = lib.utils.crossmatch(*args)
        rec.eval(key)
        dist, ind = np.asarray(dist), np.asarray(ind)
        if not rec.check(dist.shape == (len(a),) and ind.shape == (len(a),), "shape", "%s: answers of shape %s, %s" % (what, dist.shape, ind.shape)):
            return
        rec.check([lib.digest(np.asarray(x)) for x in (X1, X2)] == [d1, d2], "touched", what + ": inputs changed")
        if len(a) == 0:
            return
        A, B = np.array(a, float), np.array(b, float).reshape(len(b), len(a[0]))
        D = np.sqrt(((A[:, None] - B[None]) ** 2).sum(-1))
        best = D.min(1) if len(b) else np.full(len(a), np.inf)
        lim = np.inf if r is None else r
        for i in range(len(a)):
            if best[i] == lim != np.inf:
                continue  # exactly at the radius: either answer
            if best[i] < lim:
                tol = 1e-12 * (best[i] + np.abs(A[i]).max())  # rounding only
                ok = abs(dist[i] - best[i]) <= tol and 0 <= ind[i] < len(b) and abs(D[i, ind[i]] - best[i]) <= tol
            else:
                ok = np.isinf(dist[i]) and dist[i] > 0 and ind[i] == len(b)
            if not rec.check(ok, "match", "%s: point %d at %s gets (%s, %s), nearest at %s" % (what, i, a[i], dist[i], ind[i], best[i])):
                return


def cases(tier):
    t = tier == "thorough"
    out = []
    for dim in (1, 2, 3):
        for s in range(8):
            out.append(dict(kind="small", dim=dim, n1=3 if t else 2, n2=4 if t else 3, shard=s, shards=8))
    for s in range(8):
        out.append(dict(kind="holes", holes=3 if t else 2, shard=s, shards=8))
    out.append(dict(kind="given"))
    out.append(dict(kind="dims"))
    return out


def give(p, dim, how):
    a = np.array(p, dtype=float).reshape(len(p), dim)
    if how == "list":
        return [list(x) for x in p]
    if how == "tuple":
        return tuple(p)
    if how == "int":
        return a.astype(int)
    if how == "f4":
        return a.astype("<f4")
    if how == "big":
        return a.astype(">f8")
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        return np.repeat(a, 2, 0)[::2]
    if how == "readonly":
        a.setflags(write=False)
    return a


def run(case, rec):
    if case["kind"] == "small":
        dim = case["dim"]
        L = lattice(dim)
        first = [p for n in range(case["n1"] + 1) for p in itertools.product(L, repeat=n)]
        second = [p for n in range(case["n2"] + 1) for p in itertools.combinations(L, n)]
        if case["n1"] > 2:
            first = [p for p in first if len(p) <= 2 or p[0] <= p[1] <= p[2]]
        k = 0
        for b in second[case["shard"]:: case["shards"]]:
            # a point repeated, and in the reverse order
            for bb in (b, b[::-1] + b[:1]) if len(b) > 1 else (b,):
                for a in first:
                    k += 1
                    for r in RADII:
                        X1, X2 = give(a, dim, ""), give(bb, dim, "")
                        brute(rec, a, bb, r, "%s in %s, radius %s" % (a, bb, r), (dim, a, bb, r), X1, X2)
                if len(rec.violations) > 10:
                    return
        rec.sample(dict(case, last=[a, bb]))
    elif case["kind"] == "holes":
        grid = [(float(i), float(j)) for i in range(7) for j in range(7)]
        fine = [(i / 2.0 + 0.1, j / 2.0 + 0.05) for i in range(13) for j in range(13)]
        sets = [h for n in range(1, case["holes"] + 1) for h in itertools.combinations(range(49), n)]
        if case["holes"] > 2:
            sets = sets[:1225] + sets[1225::4]
        for h in sets[case["shard"]:: case["shards"]]:
            b = [p for i, p in enumerate(grid) if i not in h]
            for r in (None, 0.4, 1.3):
                brute(rec, fine, b, r, "lattice with the holes %s, radius %s" % (h, r), (h, r), np.array(fine), np.array(b))
            if len(rec.violations) > 10:
                return
        rec.sample(dict(case, holes_at=h))
    elif case["kind"] == "given":
        hows = ["", "list", "tuple", "int", "f4", "big", "fortran", "strided", "readonly"]
        for dim in (1, 2, 3, 4):
            L = [tuple(float((i * 7 + 3 * d * i) % 11) for d in range(dim)) for i in range(12)]
            for h1, h2 in itertools.product(hows, hows):
                for n1, n2 in ((1, 5), (5, 1), (6, 6), (0, 4), (4, 0)):
                    if (n1 == 0 and h1 in ("list", "tuple")) or (n2 == 0 and h2 in ("list", "tuple")):
                        continue  # no dimension is given
                    for r in (None, 2.6, np.inf):
                        a, b = L[:n1], L[-n2:] if n2 else []
                        brute(rec, a, b, r, "%s %s and %s %s in %d dimensions" % (n1, h1, n2, h2, dim), (dim, h1, h2, n1, n2, r),
                              give(a, dim, h1), give(b, dim, h2))
        # far from the origin, and very close points
        for scale, off in ((1e-6, 0.0), (1.0, 1e6), (1e5, -1e7)):
            a = [(off + scale * i, off - scale * j) for i in range(4) for j in range(4)]
            b = [(x + 0.23 * scale, y) for x, y in a[::2]]
            for r in (None, 0.5 * scale, 1.1 * scale):
                brute(rec, a, b, r, "scale %g at %g" % (scale, off), (scale, off, r), np.array(a), np.array(b))
        rec.sample(case)
    else:
        for d1, d2 in itertools.product(range(1, 5), repeat=2):
            for n1, n2 in ((1, 1), (3, 2), (2, 5)):
                if d1 == d2:
                    continue
                rec.eval((d1, d2, n1, n2))
                try:
                    out = lib.utils.crossmatch(np.zeros((n1, d1)), np.ones((n2, d2)))
                except ValueError:
                    continue
                except Exception as e:
                    rec.violate("dimension", "dimensions %d and %d: %s instead of ValueError" % (d1, d2, type(e).__name__))
                    continue
                rec.violate("dimension", "dimensions %d and %d are accepted: %s" % (d1, d2, out))
        rec.sample(case)

"""C18: detections are the islands above the threshold, with their significance."""
import itertools

import numpy as np
from astropy.stats import sigma_clipped_stats

from mc import lib

LEVEL = "exploration"
RULE = "evaluation = one significance image searched, its detections compared with a flood fill; distinct = (pattern of bright pixels, amplitudes, place, threshold)"
BOUNDS = {
    "quick": "all 65536 patterns of bright pixels of a 4 x 4 window, all 19683 patterns of 3 levels in 3 x 3, at 6 places (edges and corners included), thresholds 2.5 to 30, "
             "3 frames, 5 data types and memory layouts; pairs of islands at every distance up to 6 x 6; ramps of significance across the threshold",
    "thorough": "as quick with every pattern of 4 x 5 pixels and all places for each",
}
FRAMES = [(24, 26), (31, 20), (22, 22)]


def noise(shape, seed, scale=1.0):
    r = np.random.default_rng(seed)
    return scale * np.clip(r.standard_normal(shape), -1.9, 1.9)


def islands(bright):
    """Groups of bright pixels that share sides."""
    left = {tuple(p) for p in np.argwhere(bright)}
    out = []
    while left:
        todo = [left.pop()]
        group = []
        while todo:
            y, x = todo.pop()
            group.append((y, x))
            for q in ((y + 1, x), (y - 1, x), (y, x + 1), (y, x - 1)):
                if q in left:
                    left.remove(q)
                    todo.append(q)
        out.append(group)
    return out


def near(v, n):
    """Pixels closest to a coordinate: two of them when it is half way."""
    f = v - np.floor(v)
    c = {int(np.floor(v + 0.5))}
    if abs(f - 0.5) < 1e-6:
        c = {int(np.floor(v)), int(np.floor(v)) + 1}
    return [i for i in c if 0 <= i < n]


def expected(S, threshold):
    S = np.asarray(S, dtype=float)
    mean, _, sd = sigma_clipped_stats(S, maxiters=3)
    Z = (S - mean) / sd
    out = []
    for g in islands(Z > threshold):
        w = np.array([S[p] for p in g])
        p = np.array(g, dtype=float)
        cy, cx = (p * w[:, None]).sum(0) / w.sum()
        sig = [Z[i, j] for i in near(cy, S.shape[0]) for j in near(cx, S.shape[1])]
        out.append((cx, cy, sig))
    return out, Z


def judge(rec, S, threshold, what, key, default=False):
    before = S.tobytes()
    with rec.guard(what):
        cat = lib.utils.find_S_local_maxima(S) if default else lib.utils.find_S_local_maxima(S, threshold=threshold)
        rec.eval(key)
        rec.check(S.tobytes() == before, "touched", what + ": the image changed")
        want, Z = expected(S, threshold)
        got = [tuple(float(v) for v in c) for c in cat]
        if not rec.check(len(got) == len(want), "number", "%s: %d detections for %d islands" % (what, len(got), len(want))):
            return
        left = list(got)
        for cx, cy, sig in want:
            d = [(abs(x - cx) + abs(y - cy), k) for k, (x, y, s) in enumerate(left)]
            k = min(d)[1]
            x, y, s = left.pop(k)
            if not rec.check(abs(x - cx) < 1e-3 and abs(y - cy) < 1e-3, "place", "%s: an island at %.4f, %.4f is reported at %.4f, %.4f" % (what, cx, cy, x, y)):
                return
            rec.check(min(abs(s - v) for v in sig) < 1e-3 * (1 + abs(s)), "significance", "%s: significance of %.4f, not %s" % (what, s, sig))
        rec.outcome(len(got))


def place(shape, h, w, k):
    ny, nx = shape[0] - h, shape[1] - w
    return [(ny // 2, nx // 2), (0, 0), (ny, nx), (0, nx // 2), (ny // 2, nx), (ny, 3)][k % 6]


def cases(tier):
    out = []
    n = 64 if tier == "quick" else 1024
    for s in range(n):
        out.append(dict(kind="binary", shape=(4, 4) if tier == "quick" else (4, 5), shard=s, shards=n))
    for s in range(24):
        out.append(dict(kind="levels", shard=s, shards=24))
    out += [dict(kind="pairs"), dict(kind="forms"), dict(kind="ramps")]
    return out


def run(case, rec):
    globals()[case["kind"]](case, rec)


def binary(case, rec):
    h, w = case["shape"]
    total = 2 ** (h * w)
    for bits in range(case["shard"], total, case["shards"]):
        k = bits // case["shards"]
        shape = FRAMES[k % 3]
        th = (2.5, 5.0, 10.0, 30.0)[(k // 3) % 4]
        S = noise(shape, k % 5)
        m = np.array([(bits >> i) & 1 for i in range(h * w)], bool).reshape(h, w)
        y, x = place(shape, h, w, k // 12)
        # some brighter than others
        amp = 60.0 + 13.0 * (np.arange(h * w).reshape(h, w) * (k % 4) % 5)
        S[y: y + h, x: x + w][m] = amp[m]
        judge(rec, S, th, "pattern %s at %s of %s, threshold %s" % (m.astype(int).tolist(), (y, x), shape, th), (bits, shape, th, y, x), default=th == 2.5)
        if len(rec.violations) > 8:
            break
    rec.sample(dict(case, pattern=m.astype(int).tolist()))


def levels(case, rec):
    """Below the threshold, above it, and far above."""
    for i, lv in enumerate(itertools.product((0, 1, 2), repeat=9)):
        if i % case["shards"] != case["shard"]:
            continue
        k = i // case["shards"]
        shape = FRAMES[k % 3]
        S = noise(shape, k % 7, 0.7)
        a = np.array(lv).reshape(3, 3)
        y, x = place(shape, 3, 3, k // 3)
        box = S[y: y + 3, x: x + 3]
        box[a == 1] = 4.0
        box[a == 2] = 200.0
        judge(rec, S, 12.0, "levels %s at %s of %s" % (a.tolist(), (y, x), shape), (lv, shape, y, x))
        if len(rec.violations) > 8:
            break
    rec.sample(dict(case, levels=a.tolist()))


def pairs(case, rec):
    for (dy, dx), (h, w), (h2, w2) in itertools.product(itertools.product(range(-6, 7), repeat=2), ((1, 1), (2, 3), (3, 1)), ((1, 1), (2, 2))):
        shape = (40, 37)
        S = noise(shape, 3)
        S[17: 17 + h, 16: 16 + w] = 80.0
        S[17 + dy: 17 + dy + h2, 16 + dx: 16 + dx + w2] = 95.0
        judge(rec, S, 6.0, "islands of %s and %s at a distance of %s" % ((h, w), (h2, w2), (dy, dx)), (dy, dx, h, w, h2, w2))
    rec.sample(dict(case))


def forms(case, rec):
    for k, (dt, lay, size) in enumerate(itertools.product(("f8", "f4", ">f8", ">f4", "i4"), ("C", "F", "strided", "frozen"), (3.5, 5, 8))):
        for shape in FRAMES:
            S = np.round(40 * noise(shape, 3)) if dt == "i4" else noise(shape, 3)
            S[5:8, 7] = 50.0 * (40 if dt == "i4" else 1)
            S[15, 2:6] = 70.0 * (40 if dt == "i4" else 1)
            S = S.astype(dt)
            if lay == "F":
                S = np.asfortranarray(S)
            elif lay == "strided":
                b = np.zeros((S.shape[0] * 2, S.shape[1] * 2), dt)
                b[::2, ::2] = S
                S = b[::2, ::2]
            elif lay == "frozen":
                S.flags.writeable = False
            judge(rec, S, size, "%s %s image %s, threshold %s" % (dt, lay, shape, size), (dt, lay, size, shape))
    for shape in FRAMES:
        for seed in range(5):
            S = noise(shape, seed)
            judge(rec, S, 3.0, "noise %d of %s" % (seed, shape), ("noise", shape, seed))
            judge(rec, S * 1e-5, 1.0, "faint noise %d of %s" % (seed, shape), ("faint", shape, seed))
    rec.sample(dict(case))


def ramps(case, rec):
    """Islands just below and just above the threshold."""
    for th, seed, shape in itertools.product((2.5, 4.0, 7.0, 15.0), range(4), FRAMES):
        S = noise(shape, seed, 0.5)
        S[10, 10] = 1000.0
        m, _, sd = sigma_clipped_stats(S, maxiters=3)
        for f in (0.9, 0.97, 0.99, 1.01, 1.03, 1.1):
            T = S.copy()
            T[10, 10] = m + th * sd * f
            T[3, 3] = m - 3 * th * sd
            judge(rec, T, th, "island of %.2f of a threshold of %s" % (f, th), (th, seed, shape, f))
    rec.sample(dict(case))

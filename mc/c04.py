"""C04: the PSF basis is the shortest one that keeps the information asked for."""
import numpy as np
from scipy import ndimage

from mc import lib

LEVEL = "exploration"
RULE = (
    "evaluation = one basis and its fields for one image and accepted loss, compared with the "
    "reference decomposition; losses are enumerated just above, just below and between all the cuts "
    "of the image's spectrum; distinct = (image, loss)"
)
BOUNDS = {
    "quick": "11 images (10 to 30 stars) and 4 with more than 250 stars; 3 losses per cut, every cut up to 12 components and every third beyond",
    "thorough": "22 images, 5 losses per cut, every cut",
}
CASE_TIMEOUT = 500

IMAGES = {
    "uniform": (dict(n=48, seed=1, step=9), {}),
    "variable": (dict(n=48, seed=2, step=8, off=7, var=0.7), dict(stamp_shape=(7, 7))),
    "noisy": (dict(n=48, seed=3, step=8, off=7, noise=40.0), dict(stamp_shape=(7, 7))),
    "nonsquare": (dict(n=40, m=64, seed=4, step=9, var=0.5), dict(stamp_shape=(7, 7))),
    "oblong": (dict(n=56, m=48, seed=5, step=8, off=7, var=0.5), dict(stamp_shape=(9, 5))),
    "even": (dict(n=48, seed=6, step=9, var=0.5), dict(stamp_shape=(6, 6))),
    "smooth": (dict(n=48, seed=7, step=8, off=7, var=0.5), dict(stamp_shape=(7, 7), smooth_psf=True)),
    "strict": (dict(n=108, seed=8, step=16, off=10, var=0.3), dict(stamp_shape=(7, 7), strict_star_pick=True)),
    "masked": (dict(n=48, seed=9, step=8, off=7, var=0.5), dict(stamp_shape=(7, 7))),
    "gain": (dict(n=48, seed=10, step=9, var=0.6), dict(gain=2.5)),
    "wide": (dict(n=72, seed=11, step=12, sig=2.0, sigx=1.4, var=0.3), {}),
}
MANY = (dict(n=10 * 27 + 2, seed=12, step=10, off=6, sig=1.1, var=0.3), dict(stamp_shape=(5, 5)))


def cases(tier):
    seeds = [0] if tier == "quick" else [0, 100]
    out = []
    for s in seeds:
        for name in IMAGES:
            for which in ("above", "below", "between") if tier == "quick" else ("above", "below", "between", "near", "exact"):
                out.append(dict(image=name, seed=s, which=which, all=tier == "thorough"))
        out += [dict(image="many", seed=t, which="above", all=tier == "thorough") for t in ([s] if s else [0, 11, 15, 16])]
    return out


def build(case):
    scene, kw = MANY if case["image"] == "many" else IMAGES[case["image"]]
    scene = dict(scene, seed=scene["seed"] + case["seed"])
    d = lib.scene(**scene)
    if case["image"] == "masked":
        d[20:23, 20:22] = np.nan
        d[3, 30] = 80000
    return lib.pi.SingleImage(d, **kw)


def reference_fields(V, k, pos, x, y):
    """Cubic surfaces fitted to the star weights, evaluated at (x, y)."""
    s = float(max(x.max(), y.max(), 1))

    def design(a, b):
        a, b = np.ravel(a) / s, np.ravel(b) / s
        return np.stack([a**i * b**j for i in range(4) for j in range(4 - i)], axis=1)

    D = design(pos[:, 0], pos[:, 1])
    out = []
    for i in range(k):
        z = V[:, V.shape[1] - 1 - i]
        c = np.linalg.lstsq(D, z, rcond=None)[0]
        out.append((design(x, y) @ c).reshape(x.shape))
    return out


def run(case, rec):
    many = case["image"] == "many"
    im = build(case)
    n = im.n_sources
    shape = im.stamp_shape
    M = np.array([im.db.load(j)[0] for j in range(n)])
    rec.check(M.shape == (n,) + tuple(shape), "stamps", "stamps of shape %s for %s" % (M.shape, shape))
    F = M.reshape(n, -1)
    rec.check(np.allclose(F.sum(axis=1), 1), "stamps", "stamps without unit sum")
    if many:
        rec.check(n > 250, "few", "only %d sources" % n)
        C = F @ F.T
    else:
        c = F - F.mean(axis=1, keepdims=True)
        C = c @ c.T / (F.shape[1] - 1)
    rec.check(lib.close(im.cov_matrix, C, 1e-9), "cov", "covariance: %s" % lib.dist(im.cov_matrix, C))
    w, V = im.eigenv
    rec.check(lib.close(V @ np.diag(w) @ V.T, C, 1e-9) and lib.close(V.T @ V, np.eye(n), 1e-9)
              and bool(np.all(np.diff(w) >= -1e-12 * abs(w).max())), "eigen", "not the eigen decomposition")
    power = np.abs(w)[::-1] / np.abs(w).sum()
    lost = 1 - np.cumsum(power)
    ncut = len([p for p in power if p > 1e-7])
    xg, yg = np.meshgrid(np.linspace(0, im.data.shape[0] - 1, 9), np.linspace(0, im.data.shape[1] - 1, 9), indexing="ij")
    pos = np.asarray(im.stamps_pos)
    rec.check(len(pos) == n, "positions", "%d positions for %d stamps" % (len(pos), n))
    ks = list(range(1, ncut + 1))
    if many:
        ks = [1, 2, 3, 5, n - 1]
    elif not case["all"]:
        ks = [k for k in ks if k <= 12 or k % 3 == 0]
    todo = []
    for k in ks:
        hi = lost[k - 2] if k > 1 else 1.0
        lo = max(lost[k - 1], 0.0)
        gap = hi - lo
        if gap < 1e-8:
            continue
        todo.append((k, {"above": lo + 1e-3 * gap, "below": hi - 1e-3 * gap, "between": (lo + hi) / 2,
                         "near": lo + 1e-6 * gap, "exact": hi - 1e-6 * gap}[case["which"]]))
    if case["which"] == "above":
        todo.append((None, 0.0))
        todo.append((1, 1.0))
    for t, (k, L) in enumerate(todo):
        fresh = many or t % 2 == 0  # a new image and the one already asked
        si = im if (many or not fresh) else build(case)
        with rec.guard("loss %r" % L):
            a, b = si.get_variable_psf(L)
            rec.eval((case["image"], case["seed"], L))
            if L == 0.0:
                rec.check(ncut <= len(b) <= n, "size", "loss 0 keeps %d of %d components" % (len(b), n))
                k = len(b)
            if not rec.check(len(b) == k, "size", "loss %.6g: %d components instead of %d" % (L, len(b), k)):
                continue
            rec.check(len(a) == k, "fields", "%d fields for %d components" % (len(a), k))
            Vs = V if si is im else si.eigenv[1]
            for i in range(k):
                v = Vs[:, n - 1 - i]
                p = np.tensordot(v, M, axes=(0, 0))
                q = np.asarray(b[i])
                if case["image"] == "smooth":
                    p = ndimage.gaussian_filter(p, 1.5, mode="nearest", truncate=4.0)
                if k == 1:
                    p = p / p.sum()
                ok = lib.close(q, p, 1e-6, 1e-12)
                if not rec.check(ok, "component", "loss %.6g: component %d of %d: %s" % (L, i, k, lib.dist(q, p))):
                    break
            if k == 1:
                rec.check(a[0] is None, "fields", "a field for a single component")
            else:
                if n >= 10:
                    want = reference_fields(Vs, k, pos, xg, yg)
                    for i in range(k):
                        got = a[i](xg, yg)
                        if not rec.check(lib.close(got, want[i], 1e-5), "fields",
                                         "loss %.6g: field %d: %s" % (L, i, lib.dist(got, want[i]))):
                            break
    rec.sample(dict(case=case, sources=n, stamp=list(shape), losses=[float("%.4g" % L) for _, L in todo[:6]]))

"""C09: relative zero points are right for any set of star catalogs."""
import itertools

import numpy as np
import sep

from mc import lib

LEVEL = "exploration"
RULE = (
    "evaluation = one call of transparency (or one coadd or subtraction that uses it) compared with the "
    "mean magnitude differences of the stars common to all images; distinct = (catalogs, history of calls)"
)
BOUNDS = {
    "quick": "every presence of 3 stars in 2 images x all 36 orders; of 3 stars in 3 images x 27 orders; of 2 stars in 4 images x 16 orders; 5 displacements and 4 kinds of neighbours; a separate master; "
             "every history of 3 calls over the 9 ordered choices of 3 shared images; real scaled frames, 2 to 4 images",
    "thorough": "as quick with 4 stars in 2 images, 3 stars in 4 images (4096 presences x 16 orders), and histories of 4 calls",
}
TOL = 2e-4
STARS = [(12.0, 15.0, 2500.0), (40.0, 18.0, 900.0), (20.0, 50.0, 7000.0), (55.0, 52.0, 1500.0)]
RATIO = [1.0, 2.5, 0.3, 1.2]
_dtype = None


def dtype():
    global _dtype
    if _dtype is None:
        d = lib.scene(40, step=12, off=8, bg=0).astype("<f4")
        _dtype = sep.extract(d, 30.0).dtype
    return _dtype


def catalog(rows):
    c = np.zeros(len(rows), dtype=dtype())
    for r, (x, y, f) in zip(c, rows):
        r["x"], r["y"], r["flux"], r["npix"] = x, y, f, 20
    return c


_cls = []


def image(cat):
    if not _cls:
        class Image(lib.pi.SingleImage):
            """An image reduced to its catalog."""

            def __init__(self, cat):
                self._cat = cat

            @property
            def best_sources(self):
                return self._cat

            def update_sources(self, new_sources=None):
                if new_sources is not None:
                    self._cat = new_sources

        _cls.append(Image)
    return _cls[0](cat)


def scatter(i, s):
    """A small difference for each star in each image."""
    return 1 + 0.07 * ((3 * i + 5 * s) % 4)


def rows_of(i, present, order, d=(0.3, -0.2), extra=()):
    rows = []
    for s in order:
        if s in present:
            x, y, f = STARS[s]
            rows.append((x + d[0] * i, y + d[1] * i, f * RATIO[i] * scatter(i, s)))
    return rows + list(extra)


def expected(present, n):
    """Magnitudes relative to the first image, or None without common stars."""
    common = set.intersection(*[set(p) for p in present])
    if not common:
        return None
    return np.array([np.mean([-2.5 * np.log10(RATIO[i] * scatter(i, s) / (RATIO[0] * scatter(0, s))) for s in common]) for i in range(n)])


def subsets(k):
    return [s for r in range(1, k + 1) for s in itertools.combinations(range(k), r)]


def judge(rec, zps, want, what, n=None):
    zps = np.asarray(zps, dtype=float)
    if not rec.check(zps.shape == (n or len(want),), "shape", "%s: %s zero points" % (what, zps.shape)):
        return False
    if want is None:
        want = np.zeros(len(zps))
    d = zps - zps[0]
    return rec.check(np.all(np.isfinite(zps)) and np.max(np.abs(d - want)) < TOL, "zp", "%s: relative zero points %s, expected %s" % (what, np.round(d, 5), np.round(want, 5)))


def mags(rec, out, cats, present, what):
    """zero point + mean magnitude must be the least squares fit."""
    common = sorted(set.intersection(*[set(p) for p in present]))
    zps, mm = out
    if not common:
        return
    if not rec.check(np.shape(mm) == (len(common),), "meanmags", "%s: %s mean magnitudes for %d stars" % (what, np.shape(mm), len(common))):
        return
    n = len(present)
    m = np.array([[-2.5 * np.log10(STARS[s][2] * RATIO[i] * scatter(i, s)) + 20 for s in common] for i in range(n)])
    best = m.mean(1)[:, None] + m.mean(0)[None, :] - m.mean()
    fit = np.asarray(zps)[:, None] + np.sort(np.asarray(mm))[None, :]
    best = np.sort(best, axis=1)
    rec.check(np.max(np.abs(fit - best)) < 5e-3, "meanmags", "%s: zero points and mean magnitudes do not add up" % what)


def cases(tier):
    out = []
    t = tier == "thorough"
    for n, k in [(2, 3), (3, 3), (4, 2)] + ([(2, 4), (4, 3)] if t else []):
        for s in range(8 if not t else 32):
            out.append(dict(kind="presence", n=n, k=k, shard=s, shards=8 if not t else 32))
    for n in (2, 3, 4):
        out.append(dict(kind="place", n=n))
    for s in range(8):
        out.append(dict(kind="master", shard=s, shards=8))
    for s in range(8):
        out.append(dict(kind="history", depth=4 if t else 3, shard=s, shards=8))
    for s in range(4):
        out.append(dict(kind="real", shard=s, shards=4))
    return out


def orders(n, k):
    if (n, k) == (2, 3):
        per = list(itertools.permutations(range(k)))
    elif k == 4:
        per = [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (1, 3, 0, 2)]
    elif (n, k) == (3, 3):
        per = [(0, 1, 2), (2, 1, 0), (1, 2, 0)]
    elif k == 3:
        per = [(0, 1, 2), (2, 0, 1)]
    else:
        per = [(0, 1), (1, 0)]
    return list(itertools.product(per, repeat=n))


def call(imgs, **kw):
    return lib.utils.transparency(imgs, **kw)


def presence(case, rec):
    n, k = case["n"], case["k"]
    todo = list(itertools.product(itertools.product(subsets(k), repeat=n), orders(n, k)))
    for present, order in todo[case["shard"]:: case["shards"]]:
        what = "stars %s in the orders %s" % (present, order)
        with rec.guard(what):
            imgs = [image(catalog(rows_of(i, present[i], order[i]))) for i in range(n)]
            out = call(imgs)
            rec.eval((n, k, present, order))
            if judge(rec, out[0], expected(present, n), what, n):
                mags(rec, out, None, present, what)
        if len(rec.violations) > 10:
            break
    rec.sample(dict(present=present, order=order))


def place(case, rec):
    """Displacements and neighbours."""
    n = case["n"]
    every = tuple(range(4))
    for d in [(0, 0), (0.4, 0), (0, -0.4), (0.4, 0.4), (-0.4, 0.3), (0.6, 0.2)]:
        far = np.hypot(*d) * (n - 1) > 1.95
        for kind in ("none", "lone", "close", "closer", "pair"):
            for which in range(n):
                if kind == "none" and which:
                    continue
                x, y, f = STARS[1]
                extra = {
                    "none": [],
                    "lone": [(33.0, 33.0, 5e4), (60.0, 5.0, 10.0)],
                    # next to a star, but not the nearest one, brighter and fainter
                    "close": [(x + d[0] * which + 1.2, y + d[1] * which, 9e4)],
                    "closer": [(x + d[0] * which - 1.1, y + d[1] * which + 1.1, 30.0)],
                    "pair": [(33.0, 33.0, 5e4), (33.5, 33.0, 4e4)],
                }[kind]
                if kind in ("close", "closer") and (np.hypot(*d) * (n - 1) > 0.5):
                    continue
                if far:
                    continue
                for first in (False, True):
                    rows = [rows_of(i, every, every, d, extra if i == which else ()) for i in range(n)]
                    if first:
                        rows[which] = rows[which][::-1]
                    what = "%d images displaced by %s, %s neighbours in image %d" % (n, d, kind, which)
                    with rec.guard(what):
                        out = call([image(catalog(r)) for r in rows])
                        rec.eval((n, d, kind, which, first))
                        judge(rec, out[0], expected([every] * n, n), what, n)
    # displaced farther than the radius nothing is common
    for d in [(2.6, 0), (0, 3.0), (2.0, 2.0), (-5.0, 1.0)]:
        with rec.guard("too far"):
            imgs = [image(catalog(rows_of(i, every, every, d))) for i in range(n)]
            out = call(imgs)
            rec.eval((n, d))
            judge(rec, out[0], None, "%d images displaced by %s" % (n, d), n)
    # a star is left out when it is too far in a single image
    for which in range(1, n):
        for s in range(4):
            rows = [rows_of(i, every, every) for i in range(n)]
            x, y, f = rows[which][s]
            rows[which][s] = (x + 4.0, y, f * 3)
            with rec.guard("one star away"):
                out = call([image(catalog(r)) for r in rows])
                rec.eval((n, which, s))
                pr = [every] * n
                pr[which] = tuple(q for q in every if q != s)
                judge(rec, out[0], expected(pr, n), "star %d displaced in image %d of %d" % (s, which, n), n)
    rec.sample(case)


def master(case, rec):
    todo = []
    for n in (2, 3, 4):
        k = 3 if n < 4 else 2
        for present in itertools.product(subsets(k), repeat=n):
            for rev in range(2):
                todo.append((n, k, present, rev))
    for n, k, present, rev in todo[case["shard"]:: case["shards"]]:
        what = "master apart, stars %s%s" % (present, " reversed" if rev else "")
        with rec.guard(what):
            order = range(k - 1, -1, -1) if rev else range(k)
            imgs = [image(catalog(rows_of(i, present[i], order if i % 2 else range(k)))) for i in range(n)]
            rest = imgs[1:]
            out = call(rest, master=imgs[0])
            rec.eval((n, present, rev, "master"))
            judge(rec, out[0], expected(present, n), what, n)
            rec.check(rest == imgs[1:], "list", what + ": the list given was changed")
            out = call(rest, master=imgs[0])
            rec.eval((n, present, rev, "master again"))
            judge(rec, out[0], expected(present, n), what + ", again", n)
    rec.sample(case)


def history(case, rec):
    """Calls over shared images, in every order, one after the other."""
    sets = [((0, 1, 2), (0, 2), (0, 1)), ((1, 2), (0, 1, 2), (2, 1, 0)), ((0,), (1,), (0, 1))]
    choices = [p for r in (2, 3) for p in itertools.permutations(range(3), r)]
    fresh = {}

    def make(si):
        return [image(catalog(rows_of(i, sets[si][i], ((2, 0, 1), (0, 1, 2), (1, 2, 0))[i]))) for i in range(3)]

    for si in range(len(sets)):
        for c in choices:
            pr = [sets[si][i] for i in c]
            common = set.intersection(*[set(p) for p in pr])
            if common:
                m = np.array([np.mean([-2.5 * np.log10(RATIO[i] * scatter(i, s)) for s in common]) for i in c])
                # relative magnitudes of the very same stars in each image
                fresh[si, c] = m - m[0]
            else:
                fresh[si, c] = None
    todo = [(si, h) for si in range(len(sets)) for h in itertools.product(choices, repeat=case["depth"])]
    for si, h in todo[case["shard"]:: case["shards"]]:
        with rec.guard("history %s" % (h,)):
            imgs = make(si)
            for j, c in enumerate(h):
                lst = [imgs[i] for i in c]
                out = call(lst)
                rec.eval((si, h[: j + 1]))
                if not judge(rec, out[0], fresh[si, c], "catalogs %s, calls %s" % (sets[si], h[: j + 1]), len(c)):
                    break
                rec.check(all(a is imgs[i] for a, i in zip(lst, c)), "list", "the list given was changed")
        if len(rec.violations) > 10:
            break
    rec.sample(dict(history=h))


def real(case, rec):
    """Frames which are copies of one another times a number."""
    ratios = [1.0, 2.0, 0.5, 3.3, 0.8]
    todo = [c for n in (2, 3, 4) for c in itertools.product(range(len(ratios)), repeat=n) if n < 4 or c[0] == 0 and c[1] < 3]
    base = lib.scene(48, 56, seed=31, step=10, off=8, noise=2, bg=60).astype("<f4")
    for c in todo[case["shard"]:: case["shards"]]:
        what = "copies times %s" % ([ratios[i] for i in c],)
        with rec.guard(what):
            imgs = [lib.pi.SingleImage(base * np.float32(ratios[i]), stamp_shape=(7, 7)) for i in c]
            want = -2.5 * np.log10([ratios[i] / ratios[c[0]] for i in c])
            for again in range(2):
                out = call(imgs)
                rec.eval((c, again))
                judge(rec, out[0], want, what + (", again" if again else ""), len(c))
            if len(c) <= 3 and max(c) < 4:
                lib.pi.coadd(imgs, align=False, inf_loss=0.1)
                got = np.array([im.zp for im in imgs])
                rec.eval((c, "coadd"))
                rec.check(np.allclose(got, [ratios[i] / ratios[c[0]] for i in c], rtol=2e-3), "flux-scale",
                          "%s: the coadd used the flux scales %s" % (what, got))
            if len(c) == 2:
                lib.pi.subtract(imgs[0], imgs[1], align=False, beta=False, shift=False, fitted_psf=False)
                got = imgs[1].zp / imgs[0].zp
                rec.eval((c, "subtract"))
                rec.check(abs(got / (ratios[c[1]] / ratios[c[0]]) - 1) < 2e-3, "flux-scale",
                          "%s: the subtraction used the flux scale %s" % (what, got))
            for im in imgs:
                im._clean()
    rec.sample(dict(case, copies=c))


def run(case, rec):
    dict(presence=presence, place=place, master=master, history=history, real=real)[case["kind"]](case, rec)

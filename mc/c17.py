"""C17: simulated PSFs and frames are what their parameters say."""
import itertools
import os

import numpy as np
from astropy.io import fits
from astropy.time import Time
from scipy import special

from mc import lib

LEVEL = "exploration"
RULE = "evaluation = one simulated PSF, pattern or frame, or one history of simulations, checked; distinct = (function, parameters or history)"
BOUNDS = {
    "quick": "PSFs: every size 1 to 45 x 11 widths x 4 ratios of widths; Airy and Sersic patterns: every size up to 41 x 8 widths or indices; rotated PSFs: 13 angles; every ordered pair and triple of "
             "points of a 5 x 5 frame; convolution of a point at every pixel; 8 kinds of noise; all histories of up to 3 of 8 simulation calls before a seeded one",
    "thorough": "as quick up to size 81, histories of up to 4 calls",
}
WIDTHS = [0.3, 0.5, 1.0, 1.6, 2.0, 2.5, 3.0, 4.2, 5.0, 7.3, 10.0]
RATIOS = [0, 1.0, 1.5, 0.6]


def cases(tier):
    top = 45 if tier == "quick" else 81
    out = [dict(kind="histories", first=first, depth=3 if tier == "quick" else 4) for first in reversed(range(len(CALLS)))]
    out += [dict(kind="rotated"), dict(kind="points"), dict(kind="frames"), dict(kind="stored")]
    for n in range(top, 0, -1):
        out.append(dict(kind="psfs", n=n))
    for n in range(1, min(top, 61) - 3):
        out.append(dict(kind="patterns", n=n))
    return out


def run(case, rec):
    globals()[case["kind"]](case, rec)


def regular(rec, a, n, what, unit=True):
    """Finite, non negative and symmetric about the center of the frame."""
    a = np.asarray(a)
    if not rec.check(a.shape == (n, n), "shape", "%s: shape %s" % (what, a.shape)):
        return False
    ok = rec.check(np.all(np.isfinite(a)), "finite", what + ": not finite")
    if ok:
        top = a.max()
        rec.check(a.min() >= 0, "negative", "%s: goes down to %g" % (what, a.min()))
        for name, b in (("upside down", a[::-1]), ("left to right", a[:, ::-1])):
            rec.check(np.max(np.abs(a - b)) <= 1e-6 * top + 1e-300, "symmetric", "%s: not the same %s, %g of %g" % (what, name, np.max(np.abs(a - b)), top))
        if unit:
            rec.check(abs(a.sum() - 1) < 1e-9, "unit", "%s: sums %s" % (what, a.sum()))
    return ok


def moments(a):
    y, x = np.mgrid[: a.shape[0], : a.shape[1]]
    s = a.sum()
    cy, cx = (a * y).sum() / s, (a * x).sum() / s
    return np.sqrt((a * (y - cy) ** 2).sum() / s), np.sqrt((a * (x - cx) ** 2).sum() / s), (a * (y - cy) * (x - cx)).sum() / s


def psfs(case, rec):
    n = case["n"]
    for w, ratio in itertools.product(WIDTHS, RATIOS):
        what = "Psf(%d, %s, %s)" % (n, w, w * ratio)
        with rec.guard(what):
            a = lib.simtools.Psf(n, w) if ratio == 0 else lib.simtools.Psf(n, w, w * ratio)
            rec.eval(("psf", n, w, ratio))
            if regular(rec, a, n, what):
                widths(rec, a, w, w * (ratio or 1), n, what)
                if ratio in (0, 1.0):
                    rec.check(np.allclose(a, a.T, rtol=1e-6), "symmetric", what + ": not round")
        if ratio == 0:
            what = "astropy_Psf(%d, %s)" % (n, w)
            with rec.guard(what):
                a = lib.simtools.astropy_Psf(n, w)
                rec.eval(("astropy", n, w))
                if regular(rec, a, n, what):
                    widths(rec, a, w, w, n, what)
                    rec.check(np.allclose(a, a.T, rtol=1e-6), "symmetric", what + ": not round")
    with rec.guard("Psf of a fractional size"):
        a = lib.simtools.Psf(n + 0.5, 2.5)
        rec.check(np.allclose(a, lib.simtools.Psf(n, 2.5)), "size", "Psf(%s, 2.5) is not the one of size %d" % (n + 0.5, n))
        rec.eval(("fraction", n))
    rec.sample(dict(case))


def widths(rec, a, wx, wy, n, what):
    """The first width is the one along the rows."""
    if min(wx, wy) < 2.0 or n < 2.9 * max(wx, wy):
        return
    sy, sx, cross = moments(a)
    for got, want in ((sy, wx), (sx, wy)):
        fwhm = 2.355 * got
        tol = 0.03 if n > 3.9 * want else 0.12
        rec.check(abs(fwhm / want - 1) < tol, "width", "%s: FWHM of %.3f instead of %.3f" % (what, fwhm, want))
    rec.check(abs(cross) < 1e-6, "symmetric", what + ": tilted")
    # and the profile is a Gaussian
    c = np.arange(n) - (n - 1) / 2.0
    s0, s1 = wx / 2.355, wy / 2.355
    g = np.exp(-c[:, None] ** 2 / 2 / s0**2 - c[None, :] ** 2 / 2 / s1**2)
    g /= g.sum()
    rec.check(np.max(np.abs(a - g)) < 0.03 * g.max(), "profile", "%s: %g away from a Gaussian" % (what, np.max(np.abs(a - g)) / g.max()))


def patterns(case, rec):
    n = case["n"]
    c = np.arange(n) - (n - 1) / 2.0
    r = np.hypot(c[:, None], c[None, :])
    for w in (0.5, 1.0, 1.7, 2.5, 4.0, 6.3, 10.0, 25.0):
        what = "airy_patron(%d, %s)" % (n, w)
        with rec.guard(what):
            a = lib.simtools.airy_patron(n, w)
            rec.eval(("airy", n, w))
            if regular(rec, a, n, what, unit=False):
                t = np.where(r > 0, r, 1) / w
                want = np.where(r > 0, (2 * special.j1(t) / t) ** 2, 1.0)
                rec.check(np.allclose(a, want, rtol=1e-6, atol=1e-12), "profile", "%s: %g away from the Airy pattern" % (what, np.max(np.abs(a - want))))
                rec.check(np.allclose(a, a.T), "symmetric", what + ": not round")
    if n < 2:
        return
    for k in (0.5, 1, 2.0, 3, 4, 5.5, 8):
        what = "gal_sersic(%d, %s)" % (n, k)
        with rec.guard(what):
            a = lib.simtools.gal_sersic(n, k)
            rec.eval(("sersic", n, k))
            if regular(rec, a, n, what, unit=False):
                re = (n - 1) / 6.0
                want = np.where(r <= 4 * re, np.exp(-(1.999 * k - 0.327) * (r / re) ** (1.0 / k)), 0)
                edge = np.abs(r - 4 * re) < 1e-9
                rec.check(np.allclose(a[~edge], want[~edge], rtol=1e-6, atol=1e-12), "profile", "%s: %g away from the profile" % (what, np.max(np.abs(a - want))))
                rec.check(np.allclose(a, a.T), "symmetric", what + ": not round")
    rec.sample(dict(case))


def rotated(case, rec):
    for n, (wx, wy) in itertools.product((20, 31, 40), ((4.0, 2.5), (3.0, 6.0))):
        base = lib.simtools.Psf(n, wx, wy)
        for theta in (0, 1, 15, 30, 45, 60, 90, 105, 135, 150, 180, 270, 360):
            what = "Psf(%d, %s, %s, %s)" % (n, wx, wy, theta)
            with rec.guard(what):
                a = lib.simtools.Psf(n, wx, wy, theta)
                rec.eval(("rotated", n, wx, theta))
                rec.check(np.all(np.isfinite(a)) and abs(a.sum() - 1) < 1e-9, "unit", "%s: sums %s" % (what, a.sum()))
                rec.check(np.max(np.abs(a - a[::-1, ::-1])) < 1e-3 * a.max(), "symmetric", what + ": not the same upside down")
                rec.check(a.min() > -1e-3 * a.max(), "negative", "%s: goes down to %g of %g" % (what, a.min(), a.max()))
                sy, sx, cross = moments(a)
                s0, s1, t = wx / 2.355, wy / 2.355, np.deg2rad(theta)
                vy, vx = s0**2 * np.cos(t) ** 2 + s1**2 * np.sin(t) ** 2, s0**2 * np.sin(t) ** 2 + s1**2 * np.cos(t) ** 2
                rec.check(abs(sy**2 / vy - 1) < 0.12 and abs(sx**2 / vx - 1) < 0.12, "width", "%s: widths %.3f, %.3f instead of %.3f, %.3f" % (what, sy, sx, vy**0.5, vx**0.5))
                c = abs((s0**2 - s1**2) * np.sin(t) * np.cos(t))
                rec.check(abs(abs(cross) - c) < 0.1 * max(c, 0.5), "tilt", "%s: tilt %.3f instead of %.3f" % (what, cross, c))
                if theta in (0, 180, 360):
                    rec.check(a.shape == base.shape and np.allclose(a, base, atol=1e-6), "rotation", what + ": not the one without rotation")
    rec.sample(dict(case))


def points(case, rec):
    n = 5
    cells = list(itertools.product(range(n), range(n)))
    forms = [list, tuple, iter, lambda p: zip(*[list(x) for x in zip(*p)]), lambda p: np.array(p), lambda p: [(x + 0.4, y + 0.9) for x, y in p]]
    todo = [p for k in (1, 2) for p in itertools.permutations(cells, k)] + list(itertools.permutations(cells[::3], 3))
    for i, p in enumerate(todo):
        form = forms[i % len(forms)]
        for w in (None, [10.0 * (j + 1) for j in range(len(p))], np.array([3.0, 0.5, 7.0][: len(p)]), [16777217.0, 1 / 3.0, -1e-9][: len(p)], (123456789, 7, 2)[: len(p)], np.array([1e300, 1e-300, 0.1][: len(p)])):
            what = "points %s with weights %s" % (p, w)
            with rec.guard(what):
                m = lib.simtools.delta_point(n, center=False, xy=form(list(p)), weights=w)
                rec.eval(("points", p, repr(w)))
                want = np.zeros((n, n))
                for j, (x, y) in enumerate(p):
                    want[x, y] = 1.0 if w is None else w[j]
                rec.check(m.shape == (n, n) and np.array_equal(m, want), "points", "%s: got %s" % (what, np.argwhere(m != 0).tolist()))
        if len(rec.violations) > 8:
            return
    for n in range(1, 30):
        with rec.guard("centered point"):
            m = lib.simtools.delta_point(n)
            rec.eval(("center", n))
            p = np.argwhere(m != 0)
            rec.check(len(p) == 1 and m.sum() == 1 and np.all(np.abs(p[0] - (n - 1) / 2.0) <= 0.5), "points", "the point at the center of %d is at %s" % (n, p.tolist()))
    for sizes in itertools.product((1, 2, 3), repeat=3):
        for k in (1, 2, 3):
            arrays = [np.arange(s) * 10 + j for j, s in enumerate(sizes[:k])]
            with rec.guard("cartesian product"):
                got = lib.simtools.cartesian_product(arrays)
                rec.eval(("product", sizes, k))
                rec.check([tuple(g) for g in got.tolist()] == list(itertools.product(*[a.tolist() for a in arrays])), "product", "product of %s is %s" % (arrays, got.tolist()))
    # a point seen through a PSF stays where it is and keeps its flux
    n = 40
    for psf, x, y in itertools.product((11, 12), range(8, 32, 3), range(8, 32, 3)):
        with rec.guard("convolution"):
            k = lib.simtools.Psf(psf, 2.4)
            m = lib.simtools.delta_point(n, center=False, xy=[(x, y)], weights=[50.0])
            c = lib.simtools.convol_gal_psf_fft(m, k)
            rec.eval(("convolution", psf, x, y))
            p = np.unravel_index(np.argmax(c), c.shape)
            what = "point at %s through a PSF of size %d" % ((x, y), psf)
            rec.check(c.shape == m.shape and abs(c.sum() - 50) < 1e-3, "flux", "%s: flux of %s, shape %s" % (what, c.sum(), c.shape))
            rec.check(max(abs(p[0] - x), abs(p[1] - y)) <= (0 if psf % 2 else 1), "place", "%s: peak at %s" % (what, p))
    rec.sample(dict(points=todo[-1]))


def frames(case, rec):
    """A frame is its sources seen through the PSF, the noise asked for and the bias."""
    N = 64
    pts = [(15, 20), (40, 33), (50, 12)]
    m = lib.simtools.delta_point(N, center=False, xy=pts, weights=[1000.0, 3000.0, 2000.0])
    d = lib.digest(m)
    for fx, fy, SN, pdf, bias in itertools.product((3.0, 4.4), (0, 5.0), (10.0, 100.0), ("gaussian", "poisson"), (0.0, 100.0)):
        what = "image of FWHM %s, %s, SN %s, %s noise, bias %s" % (fx, fy, SN, pdf, bias)
        with rec.guard(what):
            got = lib.simtools.image(m, N, 1, fx, SN, Y_FWHM=fy, bkg_pdf=pdf, seed=8, bias=bias)
            rec.eval((fx, fy, SN, pdf, bias))
            clean = lib.simtools.convol_gal_psf_fft(m, lib.simtools.Psf(5 * max(fx, fy), fx, fy, 0))
            b = clean.max()
            rest = got - clean - bias
            if not rec.check(got.shape == (N, N) and np.all(np.isfinite(got)), "shape", what + ": shape %s" % (got.shape,)):
                continue
            mean, sd = (0.0, b / SN) if pdf == "gaussian" else (b / SN, np.sqrt(b / SN))
            rec.check(abs(rest.mean() - mean) < 5 * sd / N, "noise", "%s: noise of mean %.3f instead of %.3f" % (what, rest.mean(), mean))
            rec.check(abs(rest.std() / sd - 1) < 0.1, "noise", "%s: noise of %.3f instead of %.3f" % (what, rest.std(), sd))
            rec.check(lib.digest(m) == d, "touched", what + ": the sources changed")
    for N, nstars, thetas in itertools.product((80, 101), (8, 20, 40), ([0, 45, 105, 150], [0, 0, 0, 0], [10, 20, 30, 40])):
        what = "sim_varpsf(%d, thetas=%s, N=%d)" % (nstars, thetas, N)
        with rec.guard(what):
            t = list(thetas)
            f = lib.simtools.sim_varpsf(nstars, thetas=t, N=N, seed=3)
            rec.eval((N, nstars, tuple(thetas)))
            rec.check(f.shape == (2 * N, 2 * N) and np.all(np.isfinite(f)), "shape", "%s: shape %s" % (what, f.shape))
            rec.check(t == thetas, "touched", what + ": the angles given changed")
            for i, j in itertools.product((0, 1), (0, 1)):
                q = f[i * N: (i + 1) * N, j * N: (j + 1) * N]
                sd = 1.4826 * np.median(np.abs(q - np.median(q)))
                rec.check(q.max() - np.median(q) > 10 * sd and abs(np.median(q) - 200) < 8 * sd, "stars", "%s: no stars in quadrant %s" % (what, (i, j)))
    rec.sample(dict(case))


def stored(case, rec):
    tmp = lib.SCRATCH
    a = np.arange(30.0).reshape(5, 6)
    for i, dt, t in itertools.product((0, 3, 12), ("f4", "f8", "i4"), (2459000.5, 2459000.75, Time("2020-06-01T10:20:30", scale="utc"))):
        what = "store_fits of %s, number %d" % (dt, i)
        with rec.guard(what):
            x = a.astype(dt)
            p = lib.simtools.store_fits(x, t, 30.0, i, 25.5, path=tmp)
            rec.eval((i, dt, str(t)))
            with fits.open(p) as f:
                h = f[0].header
                rec.check(np.array_equal(f[0].data, x), "stored", what + ": pixels differ")
                jd = t.jd if isinstance(t, Time) else t
                rec.check(abs(h["JD"] - jd) < 1e-8 and h["EXPTIME"] == 30.0 and h["ZERO_P"] == 25.5, "stored", what + ": header differs")
                tt = Time(jd, format="jd", scale="utc")
                rec.check(h["DATE-OBS"] == tt.iso[:10] and h["TIME-OBS"][:8] == tt.iso[11:19], "stored", "%s: date %s %s" % (what, h["DATE-OBS"], h["TIME-OBS"]))
            rec.check(os.path.dirname(p) == tmp and os.path.basename(p) == "image00%d.fits" % i, "stored", what + ": stored as " + p)
            os.remove(p)
    rec.sample(dict(case))


def _m(n=40):
    return lib.simtools.delta_point(n, center=False, xy=[(10, 12), (25, 30)], weights=[500.0, 900.0])


CALLS = [
    ("image seed 1", lambda: lib.simtools.image(_m(), 40, 1, 3.0, 20, seed=1)),
    ("image seed 2", lambda: lib.simtools.image(_m(), 40, 1, 3.0, 20, seed=2)),
    ("image seed 0", lambda: lib.simtools.image(_m(), 40, 1, 3.0, 20, seed=0)),
    ("gaussian seed 1", lambda: lib.simtools.image(_m(), 40, 1, 3.0, 20, bkg_pdf="gaussian", seed=1)),
    ("frame seed 1", lambda: lib.simtools.sim_varpsf(8, N=66, seed=1)),
    ("frame seed 0", lambda: lib.simtools.sim_varpsf(8, N=66, seed=0)),
    ("image", lambda: lib.simtools.image(_m(), 40, 1, 3.0, 20)),
    ("frame", lambda: lib.simtools.sim_varpsf(8, N=66)),
    ("numpy", lambda: np.random.random(3)),
]
SEEDED = 6


def histories(case, rec):
    want = [lib.digest(f()) for _, f in CALLS[:SEEDED]]
    if case["first"] == 0:
        for i, j in itertools.combinations(range(SEEDED), 2):
            rec.check(want[i] != want[j], "seeds", "%s and %s give the same" % (CALLS[i][0], CALLS[j][0]))
    for k in range(1, case["depth"] + 1):
        for rest in itertools.product(range(len(CALLS)), repeat=k - 1):
            h = (case["first"],) + rest
            # the answer of each seeded call was checked as the end of a shorter history
            names = [CALLS[i][0] for i in h]
            with rec.guard("history %s" % names):
                for i in h:
                    out = CALLS[i][1]()
                rec.eval(("history", h))
                rec.trans(len(h))
                if h[-1] < SEEDED:
                    rec.check(lib.digest(out) == want[h[-1]], "reproducible", "the result depends on what was simulated before, after %s" % names)
        if len(rec.violations) > 8:
            return
    rec.sample(dict(case, history=names))

"""C06: every bad pixel is masked and the mask only grows by its rule."""
import os

import numpy as np
from astropy.io import fits

from mc import lib

LEVEL = "exploration"
RULE = (
    "evaluation = one image built with bad pixels, its whole mask compared with the reference "
    "automaton; distinct = (pattern, place, cause, way the mask is given)"
)
BOUNDS = {
    "quick": "all 512 patterns of a 3x3 neighbourhood x 9 places x 3 causes and x 3 places x 6 more causes; all pairs of causes at 24 displacements; 13 ways to give image and mask x 19 pixel values at and around the limits x 3 gains x 3 thresholds",
    "thorough": "all 512 patterns x 9 places x 9 causes; the rest on three frame shapes",
}
N, M = 26, 28
PLACES = [(0, 0), (0, 12), (0, M - 3), (11, 0), (11, 12), (11, M - 3), (N - 3, 0), (N - 3, 12), (N - 3, M - 3)]
CAUSES = ["nan", "sat", "user", "inf", "-inf", "neg", "userint", "userfits", "mixed"]


def frame(n=N, m=M, seed=3):
    return 100 + 3 * np.random.default_rng(seed).standard_normal((n, m))


def grow(mask):
    mask = mask.copy()
    for _ in range(7):
        p = np.pad(mask, 1, mode="symmetric").astype(int)
        c = sum(p[i: i + mask.shape[0], j: j + mask.shape[1]] for i in range(3) for j in range(3))
        mask = mask | (c > 2)
    return mask


def want(values, gain, user=None):
    with np.errstate(all="ignore"):
        v = values.astype("<f4") * np.float32(gain)
        bad = ~np.isfinite(v) | (v > 65000.0) | (v < -50.0)
    if user is not None:
        bad = bad | user
    return v, bad, grow(bad)


def cases(tier):
    out = []
    for cause in CAUSES:
        places = PLACES if tier == "thorough" or cause in ("nan", "sat", "user") else PLACES[0:1] + PLACES[4:6]
        for p in places:
            for s in range(2):
                out.append(dict(kind="pattern", cause=cause, place=list(p), shard=s))
    for a in CAUSES[:6]:
        out.append(dict(kind="pair", cause=a))
    for way in WAYS:
        for shape in [(N, M)] if tier == "quick" else [(N, M), (40, 20), (18, 50)]:
            out.append(dict(kind="way", way=way, shape=list(shape)))
    return out


VAL = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "sat": 65001.0, "neg": -51.0}


def verify(rec, im, v, bad, full, what, kept=True):
    got = np.asarray(im.mask)
    if not rec.check(got.shape == full.shape and got.dtype == bool, "shape", "%s: mask of shape %s type %s" % (what, got.shape, got.dtype)):
        return False
    ok = rec.check(not np.any(bad & ~got), "missed", "%s: bad pixels not masked at %s" % (what, np.argwhere(bad & ~got)[:4].tolist()))
    ok = rec.check(np.array_equal(got, full), "grown", "%s: mask differs at %s (%d masked, %d expected)"
                   % (what, np.argwhere(got != full)[:4].tolist(), got.sum(), full.sum())) and ok
    if kept:
        ok = rec.check(np.array_equal(im.data.data[~full], v[~full]), "values", "%s: pixel values changed" % what) and ok
    return ok


def run(case, rec):
    SI = lib.pi.SingleImage
    kw = dict(stamp_shape=(7, 7))
    if case["kind"] == "pattern":
        i0, j0 = case["place"]
        cause = case["cause"]
        for bits in range(case["shard"], 512, 2):
            pat = np.array([bits >> k & 1 for k in range(9)], bool).reshape(3, 3)
            d = frame()
            user = None
            spot = np.zeros(d.shape, bool)
            spot[i0: i0 + 3, j0: j0 + 3] = pat
            arg = dict(kw)
            if cause in VAL:
                d[spot] = VAL[cause]
            elif cause == "mixed":
                k = np.flatnonzero(spot)
                causes = ["nan", "sat", "neg", "inf", "user"]
                user = np.zeros(d.shape, bool)
                for q, f in enumerate(k):
                    c = causes[(q + bits) % 5]
                    if c == "user":
                        user.flat[f] = True
                    else:
                        d.flat[f] = VAL[c]
                arg["mask"] = user
            else:
                user = spot
                if cause == "user":
                    arg["mask"] = spot.copy()
                elif cause == "userint":
                    arg["mask"] = spot.astype(int) * 3
                else:
                    path = os.path.join(lib.SCRATCH, "m%d.fits" % os.getpid())
                    fits.writeto(path, spot.astype("int16") * 16, overwrite=True)
                    arg["mask"] = path
            v, bad, full = want(d, 1.0, user)
            with rec.guard("pattern %d at %s by %s" % (bits, case["place"], cause)):
                im = SI(d, **arg)
                rec.eval((cause, case["place"], bits))
                verify(rec, im, v, bad, full, "pattern %s at %s by %s" % (pat.astype(int).tolist(), case["place"], cause))
        rec.sample(dict(case, pattern=pat.astype(int).tolist(), masked=int(full.sum())))
    elif case["kind"] == "pair":
        for b in CAUSES[:6]:
            for dy in range(-2, 3):
                for dx in range(-2, 3):
                    if (dy, dx) == (0, 0):
                        continue
                    d = frame()
                    user = np.zeros(d.shape, bool)
                    for c, (y, x) in ((case["cause"], (12, 12)), (b, (12 + dy, 12 + dx)), (b, (13 + dy, 12))):
                        if c == "user":
                            user[y, x] = True
                        else:
                            d[y, x] = VAL[c]
                    arg = dict(kw)
                    if user.any():
                        arg["mask"] = user
                    v, bad, full = want(d, 1.0, user)
                    with rec.guard("pair %s %s" % (case["cause"], b)):
                        im = SI(d, **arg)
                        rec.eval((case["cause"], b, dy, dx))
                        verify(rec, im, v, bad, full, "%s and %s at %s" % (case["cause"], b, (dy, dx)))
        rec.sample(case)
    else:
        ways(case, rec)


WAYS = ["array", "array+bool", "array+int", "array+fits", "array+fitsgood", "array-noguess",
        "primary", "primary+bool", "list", "list+ext", "list+extgood", "file", "file+ext", "file-noextend",
        "file+bool", "file+fits", "masked", "file-noguess"]
VALUES = [65000.0, 65000.5, 64999.0, 65536.0, 1e6, 1e30, -50.0, -49.5, -50.5, -51.0, -1e5, 0.0, 1.0,
          np.nan, np.inf, -np.inf, 32500.0, 32500.5, -25.5]


def ways(case, rec):
    way = case["way"]
    SI = lib.pi.SingleImage
    shape = tuple(case["shape"])
    n = 0
    for gain in (1.0, 2.0, 0.5):
        for thresh in (None, 1, 40):
            t = 16 if thresh is None else thresh
            for value in VALUES:
                for flags in ((), (0,), (t - 1,), (t,), (t + 5,)):
                    hasmask = "+" in way or way == "masked"
                    if flags and not hasmask:
                        continue
                    if flags and ("bool" in way or way == "masked") and flags[0] not in (0, t):
                        continue
                    n += 1
                    d = frame(*shape, seed=4).astype("<f4")
                    d[5, 6] = d[5, 7] = d[6, 7] = value
                    d[0, shape[1] - 1] = value
                    m = np.zeros(shape, dtype="int16")
                    if flags:
                        m[12, 3:6] = flags[0]
                        m[shape[0] - 1, 0] = flags[0]
                    user = None
                    if hasmask:
                        if "bool" in way or way == "masked" or "int" in way:
                            user = m != 0
                        elif "good" in way:
                            m = np.where(m > 0, 0, t + 1).astype("int16") if not flags else np.where(m > 0, m, t + 1).astype("int16")
                            user = m <= t
                        else:
                            user = m >= t
                    v, bad, full = want(d, gain, user)
                    what = "%s, gain %s, value %s, mask value %s, threshold %s" % (way, gain, value, flags, thresh)
                    with rec.guard(what):
                        im = give(SI, way, d, m, gain, thresh)
                        rec.eval((way, shape, gain, thresh, repr(value), flags))
                        verify(rec, im, v, bad, full, what)
    rec.sample(dict(case, images=n))


def give(SI, way, d, m, gain, thresh):
    kw = dict(stamp_shape=(7, 7), gain=gain)
    if thresh is not None:
        kw["maskthresh"] = thresh
    base, _, mk = way.partition("+")
    guess = True
    if base.endswith("-noguess"):
        base, guess = base[:-8], False
        kw["guessmask"] = False
    path = os.path.join(lib.SCRATCH, "w%d" % os.getpid())
    if mk == "bool":
        kw["mask"] = m != 0
    elif mk == "int":
        kw["mask"] = m
    elif mk.startswith("fits"):
        fits.writeto(path + "m.fits", m, overwrite=True)
        kw["mask"] = path + "m.fits"
    if base == "array":
        return SI(d, **kw)
    if base == "masked":
        return SI(np.ma.MaskedArray(d, mask=m != 0), **kw)
    hdu = fits.PrimaryHDU(d)
    if base == "primary":
        return SI(hdu, **kw)
    hl = [hdu]
    if mk.startswith("ext"):
        hl.append(fits.ImageHDU(m))
        hdu.header["EXTEND"] = True
    hl = fits.HDUList(hl)
    if base == "list":
        return SI(hl, **kw)
    if base == "file-noextend" and "EXTEND" in hdu.header:
        del hdu.header["EXTEND"]
    hl.writeto(path + ".fits", overwrite=True)
    return SI(path + ".fits", **kw)

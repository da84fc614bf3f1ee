"""C07: the same pixels in any container give the same image."""
import hashlib
import itertools
import os

import numpy as np
from astropy.io import fits

from mc import lib

LEVEL = "exploration"
RULE = (
    "evaluation = one image built from a container (or with a crop or border), compared in data, mask, "
    "background and stars with the plain array of the same pixels; distinct = (container, type, gain, crop, border)"
)
BOUNDS = {
    "quick": "20 numeric types and byte orders x 16 containers and layouts x 8 gain sources; all 256 crops and all 256 border widths of 0 to 3 on each side x 3 to 5 containers, with and without a mask; 81 x 81 crops after borders of 0 to 2",
    "thorough": "as quick, on three frame shapes, crops and borders of 0 to 4",
}

TYPES = ["u1", "i1", "<i2", ">i2", "<u2", ">u2", "<i4", ">i4", "<u4", ">u4", "<i8", ">i8", "<u8",
         "<f2", "<f4", ">f4", "<f8", ">f8", "f16", "?"]
ARRAYS = ["array", "fortran", "strided", "flipped", "readonly", "masked", "nomask", "transposed"]
HDUS = ["primary", "list", "list-ext", "file", "file-ext", "opened", "opened-primary", "opened-update"]
GAINS = [None, 1, 2, 1.5, "header", "header-int", "header+arg", "header+one"]


def frame(shape, wide=True, seed=1):
    """Small whole numbers, so that every type holds the same pixels."""
    d = lib.scene(*shape, seed=seed, bg=20, amp=40 if not wide else 3000, noise=2, step=9, off=6, sig=1.2)
    d = np.round(d).clip(0, 120 if not wide else 60000)
    return d


def hsh(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def cases(tier):
    out = []
    shapes = [[46, 52]] if tier == "quick" else [[46, 52], [60, 40], [41, 41]]
    for s in shapes:
        for t in TYPES:
            out.append(dict(kind="container", type=t, shape=s))
        w = range(4) if tier == "quick" else range(5)
        for a, b in itertools.product(w, w):
            out.append(dict(kind="crop", rows=[a, b], width=len(w), shape=s))
            out.append(dict(kind="border", rows=[a, b], width=len(w), shape=s))
        for a, b in itertools.product(range(3), range(3)):
            out.append(dict(kind="both", rows=[a, b], shape=s))
    return out


class Given:
    """A container with the same pixels, which can tell if it was touched."""

    def __init__(self, how, d, tag, gain=None, mask=None):
        self.how, self.path, self.keep = how, os.path.join(lib.SCRATCH, "g%d_%s.fits" % (os.getpid(), tag)), []
        self.mask = None
        hdr = fits.Header()
        if gain is not None:
            hdr["GAIN"] = gain
        hdr["OBJECT"] = "field"
        m = np.zeros(d.shape, "u1") if mask is None else mask.astype("u1") * 16
        if how == "array":
            self.img = d.copy()
        elif how == "fortran":
            self.img = np.asfortranarray(d)
        elif how == "strided":
            self.big = np.repeat(np.repeat(d, 2, 0), 3, 1)
            self.big[1::2] = 77
            self.img = self.big[::2, ::3]
        elif how == "flipped":
            self.big = d[::-1, ::-1].copy()
            self.img = self.big[::-1, ::-1]
        elif how == "transposed":
            self.big = d.T.copy()
            self.img = self.big.T
        elif how == "readonly":
            self.img = d.copy()
            self.img.setflags(write=False)
        elif how == "masked":
            self.img = np.ma.MaskedArray(d.copy(), mask=m.astype(bool))
        elif how == "nomask":
            self.img = np.ma.MaskedArray(d.copy())
        elif how == "primary":
            self.img = fits.PrimaryHDU(d.copy(), header=hdr)
        elif how in ("list", "list-ext"):
            hl = [fits.PrimaryHDU(d.copy(), header=hdr)]
            if how == "list-ext":
                hl.append(fits.ImageHDU(m.copy()))
                hl[0].header["EXTEND"] = True
            self.img = fits.HDUList(hl)
        else:
            hl = [fits.PrimaryHDU(d.copy(), header=hdr)]
            if how == "file-ext":
                hl.append(fits.ImageHDU(m.copy()))
                hl[0].header["EXTEND"] = True
            fits.HDUList(hl).writeto(self.path, overwrite=True)
            if how.startswith("opened"):
                self.opened = fits.open(self.path, mode="update" if how == "opened-update" else "readonly")
                self.img = self.opened[0] if how == "opened-primary" else self.opened
            else:
                self.img = self.path
        self.before = self.look()

    def look(self):
        x = self.img
        if isinstance(x, str):
            return hsh(x)
        if isinstance(x, np.ma.MaskedArray):
            return lib.digest(x.data), lib.digest(np.ma.getmaskarray(x)), x.mask is np.ma.nomask
        if isinstance(x, np.ndarray):
            return lib.digest(x), lib.digest(self.big) if hasattr(self, "big") else ""
        if isinstance(x, fits.HDUList):
            return tuple((lib.digest(h.data), repr(h.header)) for h in x)
        return lib.digest(x.data), repr(x.header)

    def done(self):
        now = self.look()
        same = now == self.before
        if hasattr(self, "opened"):
            self.opened.close()
            # an array saved on closing would show a change made in place
            with fits.open(self.path) as f:
                same = same and lib.digest(f[0].data) == (self.before[0][0] if isinstance(self.before[0], tuple) else self.before[0])
        return same


def view(im):
    out = dict(data=np.asarray(im.data.data, dtype=float), mask=np.array(im.mask, dtype=bool),
               background=np.asarray(im.background, dtype=float), rms=np.array([float(im.var)]))
    b = im.best_sources
    out["stars"] = np.array([[r["x"], r["y"], r["flux"], r["npix"]] for r in b], dtype=float)
    return out


def compare(rec, got, ref, what):
    for k in ref:
        a, b = got[k], ref[k]
        ok = lib.close(a, b, rtol=2e-6) if k != "stars" else (a.shape == b.shape and np.allclose(a, b, rtol=1e-4, atol=1e-4))
        if not rec.check(ok, "differs:" + k, "%s: %s differs from the plain array (%s)" % (what, k, lib.dist(a, b))):
            return


def build(x, **kw):
    return lib.pi.SingleImage(x, stamp_shape=(7, 7), **kw)


def container(case, rec):
    t = case["type"]
    wide = t not in ("u1", "i1", "<f2", "?")
    d = frame(case["shape"], wide)
    if t == "?":
        d = (d > 30).astype(float)
    elif wide and np.dtype(t).kind == "f":
        d = (d + 0.25).astype("<f4").astype("<f8")
        d[20, 30] = np.nan
        d[21, 31] = 70000.5
    elif wide and np.dtype(t).itemsize > 2:
        d[21, 31] = 70000
    d16 = d.astype(t)
    refs = {}
    for how in ARRAYS + HDUS:
        if how in HDUS and t in ("i1", "<f2", "f16", "?", "<u8"):
            continue
        for gain in GAINS:
            header = None
            arg = gain
            if isinstance(gain, str):
                if how in ARRAYS:
                    continue
                header = {"header": 1.75, "header-int": 3, "header+arg": 9.0, "header+one": 3.0}[gain]
                arg = {"header+arg": 1.25, "header+one": 1}.get(gain)
            eff = arg if arg is not None else header if header is not None else 1.0
            what = "%s of %s, gain %s" % (how, t, gain)
            if eff not in refs:
                try:
                    refs[eff] = view(build(d.astype("<f4"), gain=eff))
                except Exception as e:  # a frame in which nothing can be found
                    refs[eff] = type(e)
            with rec.guard(what):
                g = Given(how, d16, "c", gain=header)
                try:
                    im = build(g.img, gain=arg)
                    got = view(im)
                except Exception as e:
                    rec.check(refs[eff] is type(e), "exception", "%s: %s: %s" % (what, type(e).__name__, str(e)[:150]))
                    rec.eval((tuple(case["shape"]), t, how, gain))
                    continue
                rec.eval((tuple(case["shape"]), t, how, gain))
                if isinstance(refs[eff], type):
                    rec.violate("accepted", what + ": accepted although the plain array is refused")
                    continue
                if gain is None or gain == "header":
                    im.get_variable_psf(0.1)
                    im.s_hat_comp
                compare(rec, got, refs[eff], what)
                rec.check(im.gain == eff, "gain", "%s: gain is %s" % (what, im.gain))
                rec.check(g.done(), "touched", what + ": the input was modified")
                if header is not None and hasattr(im.header, "get"):
                    rec.check(im.header.get("OBJECT") == "field" and im.header.get("GAIN") == header, "header", what + ": header lost")
                im._clean()
    rec.sample(dict(case, gains=len(refs)))


def crops(case, rec):
    shape = tuple(case["shape"])
    d = frame(shape, seed=2).astype("<f4")
    d[22, 20:22] = np.nan
    user = np.zeros(shape, bool)
    user[12, 10:13] = True
    user[:6, 30] = True
    user[30, -6:] = True
    a, b = case["rows"]
    w = range(case["width"])
    for c, e in itertools.product(w, w):
        sl = (slice(a, shape[0] - b), slice(c, shape[1] - e))
        ref, refm = view(build(d[sl].copy())), view(build(d[sl].copy(), mask=user[sl].copy()))
        for how in ("array", "fortran", "primary", "list", "file", "arraymask", "list-ext", "file-ext", "arraymaskcut", "masklist"):
            if how == "file" and (a + b + c + e) % 2:
                continue
            what = "%s with crop %s" % (how, ((a, b), (c, e)))
            with rec.guard(what):
                kw = dict(crop=((a, b), (c, e)))
                masked = how in ("arraymask", "arraymaskcut", "list-ext", "file-ext", "masklist")
                if how in ("arraymask", "arraymaskcut", "masklist"):
                    kw["mask"] = user[sl].copy() if how == "arraymaskcut" else user.copy()
                    if how == "masklist":
                        kw["crop"] = [[a, b], [c, e]]
                    g = Given("array", d, "k")
                else:
                    g = Given(how, d, "k", mask=user if masked else None)
                im = build(g.img, **kw)
                rec.eval((shape, how, a, b, c, e))
                compare(rec, view(im), refm if masked else ref, what)
                rec.check(g.done(), "touched", what + ": the input was modified")
                if "mask" in kw:
                    rec.check(np.array_equal(kw["mask"], user[sl] if how == "arraymaskcut" else user), "touched-mask", what + ": the mask given was modified")
    rec.sample(case)


def borders(case, rec):
    inner = frame(case["shape"], seed=3).astype("<f4")
    inner[0, 5] = inner[-1, 7] = inner[9, 0] = inner[8, -1] = 25.0
    # zeros inside, or on part of an edge, are no border
    inner[17] = 0
    inner[:, 25] = 0
    inner[0, 10:20] = 0
    # a single negative pixel is no border either
    inner[-1], inner[:, 0] = 0, 0
    inner[-1, 7] = inner[9, 0] = -20.0
    user = np.zeros(inner.shape, bool)
    user[12, 10:13] = True
    user[0, 0] = user[0, 1] = user[1, 1] = True
    a, b = case["rows"]
    w = range(case["width"])
    ref, refm = view(build(inner.copy())), view(build(inner.copy(), mask=user.copy()))
    for c, e in itertools.product(w, w):
        d = np.pad(inner, ((a, b), (c, e)))
        m = np.pad(user, ((a, b), (c, e)))
        for how in ("array", "primary", "list", "file", "arraymask", "list-ext", "off"):
            if how == "file" and (a + b + c + e) % 2:
                continue
            what = "%s with a border of %s" % (how, ((a, b), (c, e)))
            with rec.guard(what):
                kw = dict(borders=True)
                if how == "arraymask":
                    kw["mask"] = m.copy()
                if how == "off":
                    im = lib.pi.SingleImage(d.copy(), stamp_shape=(7, 7))
                    rec.eval((how, a, b, c, e))
                    rec.check(im.data.shape == d.shape and np.array_equal(im.data.data, d), "cut", what + ": cut without being asked")
                    continue
                g = Given(how if how != "arraymask" else "array", d, "b", mask=m if how == "list-ext" else None)
                im = build(g.img, **kw)
                rec.eval((how, a, b, c, e))
                compare(rec, view(im), refm if "mask" in kw or how == "list-ext" else ref, what)
                rec.check(g.done(), "touched", what + ": the input was modified")
    rec.sample(case)


def both(case, rec):
    inner = frame(case["shape"], seed=4).astype("<f4")
    a, b = case["rows"]
    cache = {}
    for c, e in itertools.product(range(3), repeat=2):
        d = np.pad(inner, ((a, b), (c, e)))
        for p, q, r, s in itertools.product(range(3), repeat=4):
            if (p, q, r, s) not in cache:
                sl = (slice(p, inner.shape[0] - q), slice(r, inner.shape[1] - s))
                cache[p, q, r, s] = view(build(inner[sl].copy()))
            what = "border %s then crop %s" % (((a, b), (c, e)), ((p, q), (r, s)))
            with rec.guard(what):
                im = build(d, borders=True, crop=((p, q), (r, s)), gain=None)
                rec.eval((a, b, c, e, p, q, r, s))
                compare(rec, view(im), cache[p, q, r, s], what)
    rec.sample(case)


def run(case, rec):
    dict(container=container, crop=crops, border=borders, both=both)[case["kind"]](case, rec)

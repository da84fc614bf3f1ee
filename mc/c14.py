"""C14: a stored image reads back with the same pixels and mask."""
import itertools
import os
import pathlib
import tempfile

import numpy as np
from astropy.io import fits

from mc import lib

LEVEL = "exploration"
RULE = "evaluation = one image stored and read back; distinct = (type, values, mask, layout, destination)"
BOUNDS = {
    "quick": "16 data types x 4 mask kinds x 6 memory layouts x 5 shapes x 7 destinations; all 512 masks of 3x3 pixels for 4 types; "
             "frames of 4 types read back as images in 3 ways with every pair of masked pixels of a lattice",
    "thorough": "as quick with all 512 masks for all types and layouts, a finer lattice",
}
TYPES = ["i1", "u1", "<i2", ">i2", "<u2", ">u2", "<i4", "<u4", ">u4", "<i8", "<f4", ">f4", "<f8", ">f8", "c8", "c16"]
LAYOUTS = ["C", "F", "strided", "reversed", "frozen", "view"]
SHAPES = [(3, 4), (1, 1), (1, 5), (5, 1), (8, 3)]
DESTS = ["none", "new", "existing", "pathlib", "bigger", "link", "nowhere"]
MASKS = [None, "nomask", "none", "some", "all", "hard", "row"]


def values(dt, shape):
    t = np.dtype(dt)
    n = shape[0] * shape[1]
    if t.kind in "iu":
        i = np.iinfo(t)
        v = np.array([0, 1, i.max, i.min, 7, 100, i.max // 3, i.min // 2, 17], dtype=t)
        v = np.resize(v, n)
    else:
        v = np.resize(np.array([0, -1.5, 3.25, np.nan, 1e30, -np.inf, 7.0, -1e-8, 65001.0]), n).astype(t)
        if t.kind == "c":
            v = v + 1j * np.resize(np.array([1.0, 2.0, -3.0]), n).astype(t)
            v[~np.isfinite(v.real)] = 2.5 + 1j
    return v.reshape(shape).astype(t)


def layout(a, how):
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros((a.shape[0] * 2, a.shape[1] * 3), dtype=a.dtype)
        b[::2, ::3] = a
        return b[::2, ::3]
    if how == "reversed":
        return a[::-1, ::-1].copy()[::-1, ::-1]
    if how == "frozen":
        a = a.copy()
        a.flags.writeable = False
        return a
    if how == "view":
        b = np.zeros((a.shape[0] + 2, a.shape[1] + 2), dtype=a.dtype)
        b[1:-1, 1:-1] = a
        return b[1:-1, 1:-1]
    return a.copy()


def masked(a, kind):
    if kind is None:
        return a
    m = np.zeros(a.shape, dtype=bool)
    if kind == "all":
        m[:] = True
    elif kind in ("some", "hard"):
        m.flat[::3] = True
    elif kind == "row":
        m[0] = True
    elif isinstance(kind, tuple):
        m.flat[:] = kind
    if kind == "nomask":
        return np.ma.MaskedArray(a, np.ma.nomask)
    return np.ma.MaskedArray(a, m, hard_mask=kind == "hard", fill_value=1)


def equal(x, y):
    return x.shape == y.shape and bool(np.all((x == y) | ((x != x) & (y != y))))


def one(rec, tmp, dt, shape, kind, lay, dest, key):
    what = "%s %s, mask %s, %s layout, to %s" % (dt, shape, kind, lay, dest)
    with rec.guard(what):
        a = values(dt, shape)
        x = masked(layout(a, lay), kind)
        isma = isinstance(x, np.ma.MaskedArray)
        want_mask = np.ma.getmaskarray(x).copy() if isma else None
        state = (np.asarray(x).tobytes(), x.dtype.str, x.strides, x.flags.writeable, isma and x.hardmask)
        path = os.path.join(tmp, "image.fits")
        other = os.path.join(tmp, "other.fits")
        with open(other, "wb") as f:
            f.write(b"leave me")
        if dest in ("existing", "bigger"):
            n = 4 if dest == "existing" else 60
            fits.HDUList([fits.PrimaryHDU(np.ones((n, n))), fits.ImageHDU(np.ones((n, n)))]).writeto(path, overwrite=True)
        aim = os.path.join(tmp, "aim.fits")
        if dest == "link":
            fits.PrimaryHDU(np.ones((4, 4))).writeto(aim)
        if dest in ("link", "nowhere"):
            os.symlink(aim, path)
        if dest == "none":
            got = lib.utils.store_img(x)
            hdus = got if isinstance(got, fits.HDUList) else [got]
            files = os.listdir(tmp)
            rec.check(sorted(files) == ["other.fits"], "files", "%s: leaves files %s" % (what, files))
            # written by the user afterwards
            fits.HDUList([h.copy() for h in hdus]).writeto(path)
        else:
            got = lib.utils.store_img(x, pathlib.Path(path) if dest == "pathlib" else path)
            rec.check(got is None or isinstance(got, (fits.HDUList, fits.PrimaryHDU)), "answer", what + ": returns %r" % type(got))
            files = [f for f in os.listdir(tmp) if f != "aim.fits"]
            rec.check(sorted(files) == ["image.fits", "other.fits"], "files", "%s: leaves files %s" % (what, files))
        rec.eval(key)
        with open(other, "rb") as f:
            rec.check(f.read() == b"leave me", "files", what + ": touches another file")
        state2 = (np.asarray(x).tobytes(), x.dtype.str, x.strides, x.flags.writeable, isma and x.hardmask)
        rec.check(state2 == state, "touched", what + ": the array stored changed")
        if isma:
            rec.check(np.array_equal(np.ma.getmaskarray(x), want_mask), "touched", what + ": the mask stored changed")
        real = a.real
        if isma:
            with np.errstate(all="ignore"):
                real = real.astype("f4")
        with fits.open(path) as ff:
            rec.check(len(ff) == (2 if isma else 1), "extensions", "%s: %d extensions" % (what, len(ff)))
            back = ff[0].data
            ok = back is not None and equal(np.asarray(back), real)
            rec.check(ok, "pixels", "%s: pixels read back as %s, not %s" % (what, None if back is None else back.ravel()[:9], real.ravel()[:9]))
            if isma and len(ff) > 1:
                rec.check(equal(np.asarray(ff[1].data) != 0, want_mask), "mask", "%s: mask reads back as %s" % (what, ff[1].data.ravel()[:9]))
        os.remove(path)


def cases(tier):
    out = []
    for i in range(len(TYPES)):
        out.append(dict(kind="types", type=i))
    for i in range(len(TYPES)) if tier == "thorough" else (0, 4, 10, 15):
        out.append(dict(kind="masks", type=i, layouts=LAYOUTS if tier == "thorough" else ["C", "F"]))
    for i in range(4):
        out.append(dict(kind="images", type=i, step=9 if tier == "quick" else 5))
    return out


def run(case, rec):
    with tempfile.TemporaryDirectory(dir=lib.SCRATCH) as tmp:
        globals()[case["kind"]](case, rec, tmp)


def types(case, rec, tmp):
    dt = TYPES[case["type"]]
    for kind, lay, shape, dest in itertools.product(MASKS, LAYOUTS, SHAPES, DESTS):
        # the destination only matters together with the mask
        if dest not in ("none", "new") and (lay != "C" or shape != (3, 4)):
            continue
        for f in os.listdir(tmp):
            os.remove(os.path.join(tmp, f))
        one(rec, tmp, dt, shape, kind, lay, dest, (dt, shape, kind, lay, dest))
        if len(rec.violations) > 8:
            break
    rec.sample(dict(type=dt, mask=kind, layout=lay, shape=shape, dest=dest))


def masks(case, rec, tmp):
    dt = TYPES[case["type"]]
    for lay in case["layouts"]:
        for bits in itertools.product((False, True), repeat=9):
            for f in os.listdir(tmp):
                os.remove(os.path.join(tmp, f))
            one(rec, tmp, dt, (3, 3), bits, lay, "new" if sum(bits) % 2 else "none", (dt, bits, lay))
            if len(rec.violations) > 8:
                return
    rec.sample(dict(type=dt, masks=512))


def images(case, rec, tmp):
    """The file stored is an image with the same mask."""
    dt = ["<f4", "<f8", ">f4", "<i4"][case["type"]]
    shape = (44, 50)
    base = np.round(lib.scene(*shape, seed=3)).astype(dt)
    spots = [(y, x) for y in range(2, shape[0] - 2, case["step"]) for x in range(3, shape[1] - 3, case["step"])]
    for a, b in itertools.product(spots[::2], spots[1::3]):
        m = np.zeros(shape, dtype=bool)
        m[a] = m[b] = True
        what = "%s frame with masked pixels %s" % (dt, [a, b])
        with rec.guard(what):
            x = np.ma.MaskedArray(base.copy(), m.copy())
            path = os.path.join(tmp, "frame.fits")
            lib.utils.store_img(x, path)
            hdus = lib.utils.store_img(x)
            direct = lib.pi.SingleImage(np.where(m, np.nan, base.astype("f8")))
            for name, src in (("file", path), ("HDUs", hdus)):
                im = lib.pi.SingleImage(src, maskthresh=1)
                rec.eval((dt, a, b, name))
                rec.check(np.array_equal(im.mask, direct.mask) and im.mask[a] and im.mask[b], "image:mask", "%s: mask from the %s has %d pixels" % (what, name, im.mask.sum()))
                rec.check(np.array_equal(im.data.data, base.astype("f4")), "image:pixels", "%s: pixels from the %s differ" % (what, name))
            im = lib.pi.SingleImage(path, mask=os.path.join(tmp, "mask.fits") if mask_file(tmp, m) else None, maskthresh=1)
            rec.eval((dt, a, b, "mask file"))
            rec.check(np.array_equal(im.mask, direct.mask), "image:mask", "%s: mask from its own file has %d pixels" % (what, im.mask.sum()))
        if len(rec.violations) > 8:
            break
    rec.sample(dict(type=dt, masked=[a, b]))


def mask_file(tmp, m):
    path = os.path.join(tmp, "mask.fits")
    if os.path.exists(path):
        os.remove(path)
    lib.utils.store_img(m.astype("u1"), path)
    return True

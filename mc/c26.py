"""C26: the matched filter of an image is its correlation with its PSF."""
import itertools

import numpy as np

from mc import lib

LEVEL = "exploration"
RULE = (
    "evaluation = the matched filtered image and the PSF norms of one image compared with sums over pixels, or with those of other zero point; "
    "distinct = (frame, information loss, zero point, what is compared)"
)
BOUNDS = {
    "quick": "12 frames (sizes odd and even, tall and wide, masked pixels, round, elongated and varying PSFs, smoothed PSFs, stamps of 3 sizes) x 5 losses x 4 zero points, in both orders",
    "thorough": "36 frames x 8 losses x 6 zero points",
}
SHAPES = [(56, 60), (61, 53), (52, 66), (59, 59)]
LOSSES = [0.5, 0.2, 0.05, 0.01, 1e-4, 0.1, 0.02, 0.9]
ZPS = [1.0, 2.5, 0.37, 40.0, 1e-3, 7.0]


def image(k, smooth=False):
    shape = SHAPES[k % 4]
    var, sigx = [(0.0, None), (0.7, None), (0.0, 1.7), (0.4, 1.2)][(k // 4 + k) % 4]
    p = lib.scene(*shape, seed=130 + k, sig=1.3, sigx=sigx, var=var, step=10, off=8)
    b = np.zeros(shape, dtype=bool)
    if k % 3 == 1:
        b[20:23, 30:32] = b[41, 11] = True
    size = (9, 7, 11)[k % 3]
    return lib.pi.SingleImage(p, mask=b, stamp_shape=(size, size), smooth_psf=k % 5 == 4)


def moved(psf, shape, c):
    """The PSF in a frame, centered at the origin with the displacement c."""
    n, m = shape
    ky, kx = np.fft.fftfreq(n), np.fft.fftfreq(m)
    pad = np.zeros(shape)
    pad[: psf.shape[0], : psf.shape[1]] = psf
    # dense Fourier matrices, not the FFT of the code
    Fy = np.exp(-2j * np.pi * np.outer(ky, np.arange(n)))
    Fx = np.exp(-2j * np.pi * np.outer(kx, np.arange(m)))
    hat = Fy @ pad @ Fx.T * np.exp(2j * np.pi * (ky[:, None] * c[0] + kx[None, :] * c[1]))
    return hat


def correlation(f, hat):
    n, m = f.shape
    ky, kx = np.fft.fftfreq(n), np.fft.fftfreq(m)
    Fy = np.exp(-2j * np.pi * np.outer(ky, np.arange(n)))
    Fx = np.exp(-2j * np.pi * np.outer(kx, np.arange(m)))
    s = (Fy @ f @ Fx.T) * hat.conj()
    return (Fy.conj().T @ s @ Fx.conj()) / (n * m)


def com(p):
    y, x = np.mgrid[: p.shape[0], : p.shape[1]]
    return (p * y).sum() / p.sum(), (p * x).sum() / p.sum()


def smoothed(f, p):
    """The coefficient field convolved with a component, reflected at the edges."""
    n, m = f.shape
    h, w = p.shape[0] // 2, p.shape[1] // 2
    g = np.pad(f, ((h, h), (w, w)), mode="symmetric")
    out = np.zeros(f.shape)
    for i in range(p.shape[0]):
        for j in range(p.shape[1]):
            out += p[i, j] * g[2 * h - i: 2 * h - i + n, 2 * w - j: 2 * w - j + m]
    return out


def cases(tier):
    return [dict(frame=k, tier=tier) for k in range(36 if tier == "thorough" else 12)]


def run(case, rec):
    k, t = case["frame"], case["tier"] == "thorough"
    losses, zps = (LOSSES, ZPS) if t else (LOSSES[:5], ZPS[:4])
    for loss in losses:
        what = "frame %d, loss %g" % (k, loss)
        with rec.guard(what):
            im = image(k)
            a, basis = im.get_variable_psf(loss)
            img, shape = im.interped, im.data.shape
            x, y = np.mgrid[: shape[0], : shape[1]]
            c = com(basis[0])
            if a[0] is None:
                want = correlation(img, moved(basis[0], shape, c))
                norm = None
                rec.check(len(basis) == 1, "basis", what + ": %d components without fields" % len(basis))
            else:
                fields = [f(x, y) for f in a]
                norm = sum(smoothed(f, p) for f, p in zip(fields, basis))
                want = sum(correlation(img * f / norm, moved(p, shape, c)) for f, p in zip(fields, basis))
            rec.check(np.abs(want.imag).max() < 1e-3 * np.abs(want.real).max(), "scene", what + ": the reference is not real")
            want = want.real / np.sqrt(shape[0] * shape[1]) / im.var**2
            nrm = im.normal_image
            if norm is not None:
                rec.check(lib.close(nrm, norm, 1e-6), "normalisation", "%s: the normalisation is not the convolution of the fields, %s" % (what, lib.dist(nrm, norm)))
            else:
                inner = nrm[8:-8, 8:-8]
                rec.check(nrm.shape == shape and np.allclose(inner, 1, atol=1e-6), "normalisation", "%s: the normalisation of one component is %s to %s" % (what, inner.min(), inner.max()))
            rec.eval((k, loss, "normalisation"))
            for order in (list(zps), list(zps)[::-1]):
                im = image(k) if order[0] != zps[0] else im
                im.get_variable_psf(loss)
                for zp in order:
                    im.zp = zp
                    s = im.s_component
                    hat = im.s_hat_comp
                    rec.eval((k, loss, zp, order[0]))
                    w = "%s, zero point %g" % (what, zp)
                    if not rec.check(s.shape == shape and np.isrealobj(s), "shape", w + ": matched filter of shape %s, %s" % (s.shape, s.dtype)):
                        continue
                    rec.check(lib.close(s, zp * want, 1e-5), "filter", "%s: matched filter is not the correlation, %s" % (w, lib.dist(s, zp * want)))
                    back = np.fft.ifft2(hat, norm="ortho").real
                    rec.check(lib.close(back, zp * want, 1e-5), "filter", "%s: the transform is not the one of the correlation, %s" % (w, lib.dist(back, zp * want)))
            stars(rec, what, im, s)
            powers(rec, what, im, basis)
            im._clean()
        if len(rec.violations) > 8:
            return
    rec.sample(case)


def stars(rec, what, im, s):
    """It peaks at the stars."""
    n, m = s.shape
    for row in im.best_sources:
        y, x = int(round(row["y"])), int(round(row["x"]))
        if min(y, x) < 5 or y > n - 6 or x > m - 6 or im.mask[y - 5: y + 6, x - 5: x + 6].any():
            continue
        box = s[y - 4: y + 5, x - 4: x + 5]
        p = np.array(np.unravel_index(np.argmax(box), box.shape)) - 4
        rec.check(np.abs(p).max() <= 1, "stars", "%s: the peak of the star at %s is %s pixels away" % (what, (y, x), p))
    rec.eval()


def powers(rec, what, im, basis):
    shape = im.data.shape
    q = np.asarray(im.psf_hat_sqnorm())
    n = shape[0] * shape[1]
    want = sum(np.abs(moved(p, shape, (0, 0))) ** 2 for p in basis) / n
    rec.check(lib.close(q, want, 1e-6), "power", "%s: squared norm of the transform of the PSF, %s" % (what, lib.dist(q, want)))
    p = np.asarray(im.p_sqnorm())
    c = np.array(im.stamp_shape) / 2.0
    ky, kx = np.fft.fftfreq(shape[0]), np.fft.fftfreq(shape[1])
    turned = want * np.exp(-2j * np.pi * (ky[:, None] * c[0] + kx[None, :] * c[1]))
    Fy = np.exp(2j * np.pi * np.outer(np.arange(shape[0]), ky))
    Fx = np.exp(2j * np.pi * np.outer(np.arange(shape[1]), kx))
    auto = (Fy @ turned @ Fx.T) / np.sqrt(n)
    rec.check(lib.close(p, auto, 1e-6), "power", "%s: squared norm of the PSF is not its autocorrelation, %s" % (what, lib.dist(p, auto)))
    at = np.unravel_index(np.argmax(p.real), shape)
    rec.check(max(abs(at[0] - c[0]), abs(at[1] - c[1])) <= 0.5, "power", "%s: the autocorrelation peaks at %s, not at the middle of the stamps %s" % (what, at, c))
    rec.eval()

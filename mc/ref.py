"""Reference models of the combinations, written straight from the papers."""
import numpy as np
from scipy import ndimage

EPS = np.finfo(np.float64).eps


def fft(a, shape=None):
    return np.fft.fft2(a, s=shape, norm="ortho")


def ifft(a):
    return np.fft.ifft2(a, norm="ortho")


def shift(f, d):
    """Multiply a transform by the phase of a displacement d (rows, columns)."""
    n, m = f.shape
    u = np.fft.fftfreq(n)[:, None]
    v = np.fft.fftfreq(m)[None, :]
    return f * np.exp(-2j * np.pi * (u * d[0] + v * d[1]))


def com(a):
    a = np.asarray(a, dtype=float)
    y, x = np.mgrid[: a.shape[0], : a.shape[1]]
    s = a.sum()
    return (a * y).sum() / s, (a * x).sum() / s


def match(mcat, cat, radius=2.0):
    """index in cat of the mutual nearest neighbour of each master star."""
    if len(cat) == 0 or len(mcat) == 0:
        return [None] * len(mcat)
    d = np.hypot(mcat["x"][:, None] - cat["x"][None, :], mcat["y"][:, None] - cat["y"][None, :])
    out = []
    for i in range(len(mcat)):
        j = int(np.argmin(d[i]))
        ok = d[i, j] < radius and int(np.argmin(d[:, j])) == i
        out.append(j if ok else None)
    return out


def flux_scales(cats, first_matched=True):
    """Flux scale of each catalog relative to the first, from the common stars.

    The star which heads the first catalog is left out when first_matched is
    False.
    """
    m = cats[0]
    common = []
    pairs = [match(m, c) for c in cats[1:]]
    for i in range(len(m)):
        if all(p[i] is not None for p in pairs):
            common.append(i)
    if not common:
        return np.ones(len(cats)), 0
    out = [1.0]
    for p, c in zip(pairs, cats[1:]):
        r = [np.log10(c["flux"][p[i]] / m["flux"][i]) for i in common]
        out.append(10 ** np.mean(r))
    return np.array(out), len(common)


def smooth_field(img, a, basis):
    out = np.zeros(img.shape)
    for f, b in zip(a, basis):
        out += ndimage.convolve(f, b)
    return out


def matched(img, zp, inf_loss):
    """Transform of the matched filtered image, from a fresh image."""
    a, basis = img.get_variable_psf(inf_loss)
    var = img.var
    data = img.interped
    shape = data.shape
    c = com(basis[0])
    if a[0] is None:
        s = fft(data) * fft(basis[0], shape).conj()
        s = shift(s, c)
    else:
        x, y = np.mgrid[: shape[0], : shape[1]]
        fields = [f(x, y) for f in a]
        nrm = smooth_field(data, fields, basis)
        s = np.zeros(shape, dtype=complex)
        for f, p in zip(fields, basis):
            s += shift(fft(data * f / nrm) * fft(p, shape).conj(), c)
    return zp / var**2 * s


def psf_power(img, zp, inf_loss):
    _, basis = img.get_variable_psf(inf_loss)
    shape = img.data.shape
    return (zp / img.var) ** 2 * sum(np.abs(fft(p, shape)) ** 2 for p in basis)


def coadd(imgs, zps, inf_loss):
    S = sum(matched(im, z, inf_loss) for im, z in zip(imgs, zps))
    P = np.sqrt(sum(psf_power(im, z, inf_loss) for im, z in zip(imgs, zps)))
    side = max(im.stamp_shape[0] for im in imgs)
    Pr = np.fft.ifft2(shift(P, (side, side)))
    Pr = Pr / Pr.sum()
    R = np.fft.ifft2(S / P)
    mask = np.zeros(imgs[0].data.shape, dtype=bool)
    for im in imgs:
        mask |= np.ma.getmaskarray(im.data)
    return R, Pr, mask


def gauss_frame(params, shape):
    """Gaussian in the middle of a frame, sampled at the pixel centers."""
    sx, sy, th = params
    y, x = np.mgrid[: shape[0], : shape[1]]
    dx, dy = x - shape[1] / 2.0, y - shape[0] / 2.0
    ct, st = np.cos(th), np.sin(th)
    a = 0.5 * (ct**2 / sx**2 + st**2 / sy**2)
    b = 0.5 * np.sin(2 * th) * (1 / sx**2 - 1 / sy**2)
    c = 0.5 * (st**2 / sx**2 + ct**2 / sy**2)
    return np.exp(-(a * dx**2 + b * dx * dy + c * dy**2))


def psf_of(img, inf_loss, fitted):
    a, p = img.get_variable_psf(inf_loss)
    if fitted:
        g = p[1]
        par = (float(g.x_stddev.value), float(g.y_stddev.value), float(g.theta.value))
        g = gauss_frame(par, img.data.shape)
        return g / g.sum()
    return p[0] / p[0].sum()


class Sub:
    """The proper subtraction of two images for a flux ratio b and a shift."""

    def __init__(self, ref, new, zps, inf_loss, fitted):
        self.ref, self.new = ref, new
        self.zr, self.zn = zps
        self.b0 = self.zn / self.zr
        shape = self.shape = ref.data.shape
        pr, pn = psf_of(ref, inf_loss, fitted), psf_of(new, inf_loss, fitted)
        self.sr, self.sn = ref.var, new.var
        cr, cn = com(pr), com(pn)
        fr, fn = fft(pr, shape), fft(pn, shape)
        fr[fr.real == 0] = EPS
        fn[fn.real == 0] = EPS
        self.fr, self.fn, self.cr, self.cn = fr, fn, cr, cn
        self.Hr = shift(fn * fft(ref.interped), (-cn[0], -cn[1]))
        self.Hn = shift(fr * fft(new.interped), (-cr[0], -cr[1]))

    def __call__(self, b=None, d=(0.0, 0.0)):
        b = self.b0 if b is None else b
        sr, sn, fr, fn = self.sr, self.sn, self.fr, self.fn
        norm = sn**2 * np.abs(fr) ** 2 + sr**2 * np.abs(fn) ** 2 * b**2
        Hr = self.Hr if tuple(d) == (0.0, 0.0) else shift(self.Hr, d)
        Dh = (self.Hn - b * Hr) / np.sqrt(norm)
        D = ifft(Dh)
        zd = b / np.sqrt(sr**2 * b**2 + sn**2)
        Ph = fr * fn * b / (np.sqrt(norm) * zd)
        P = ifft(Ph).real
        # the center of the PSF in a frame without edges
        pk = np.unravel_index(np.argmax(P), P.shape)
        y, x = np.mgrid[: P.shape[0], : P.shape[1]]
        y = (y - pk[0] + P.shape[0] // 2) % P.shape[0] - P.shape[0] // 2
        x = (x - pk[1] + P.shape[1] // 2) % P.shape[1] - P.shape[1] // 2
        c = pk[0] + (P * y).sum() / P.sum(), pk[1] + (P * x).sum() / P.sum()
        if abs(c[0] - pk[0]) > 30 or abs(c[1] - pk[1]) > 30:
            c = pk
        S = ifft(shift(zd * Dh * Ph.conj(), c))
        kr = ifft(shift(self.zn * fr.conj() * b * np.abs(fn) ** 2 / norm, self.cr))
        kn = ifft(shift(self.zn * fn.conj() * np.abs(fr) ** 2 / norm, self.cn))
        V = 0
        for im, k in ((self.new, kn), (self.ref, kr)):
            V = V + np.fft.ifft2(np.fft.fft2(im.data.filled(0) + 1.0) * np.fft.fft2(k**2))
        return D, P, S, (S / np.sqrt(V)).real

"""C13: coadd follows the proper coaddition formula in any order of the images."""
import itertools

import numpy as np

from mc import lib, ref

LEVEL = "exploration"
RULE = (
    "evaluation = one coadd of the real code compared with the reference implementation, with the coadd of the same "
    "images in other order or with the one it must be related to; distinct = (list, loss, workers, relation)"
)
BOUNDS = {
    "quick": "all lists (order and repetitions included) of 1 to 3 images from an alphabet of 6 (flux, noise, seeing, varying PSF, masks), 2 losses, "
             "1 or 2 workers; 4 equal images; 3 frame shapes; arrays and masked arrays; a source at a lattice of positions",
    "thorough": "as quick with an alphabet of 8, lists of up to 4, 3 losses",
}
SHAPES = [(56, 60), (60, 52), (51, 51)]
#          flux noise sig  sigx  var mask
LETTERS = [(1.0, 3, 1.3, None, 0.0, None),
           (2.2, 3, 1.3, None, 0.0, (slice(22, 24), slice(11, 14))),
           (1.0, 8, 1.2, 1.5, 0.0, None),
           (0.5, 3, 1.7, None, 0.0, (slice(40, 41), slice(20, 24))),
           (1.0, 3, 1.2, None, 0.5, None),
           (1.5, 4, 1.1, None, 0.7, (slice(22, 23), slice(13, 16))),
           (3.0, 12, 1.4, None, 0.0, None),
           (1.0, 2, 1.6, 1.3, 0.3, None)]
LOSS = [0.02, 0.5, 0.1]
STAMPS = [9, 7, 11, 9, 13, 9, 7, 11]


def pixels(k, shape, extra=None, step=10, off=8):
    flux, noise, sig, sigx, var, mask = LETTERS[k]
    p = lib.scene(*shape, step=step, off=off, seed=20 + k, flux=flux, noise=noise, sig=sig, sigx=sigx, var=var, bg=60 + 20 * k)
    m = np.zeros(shape, dtype=bool)
    if mask:
        m[mask] = True
    if extra:
        amp, y, x = extra
        yy, xx = np.mgrid[: shape[0], : shape[1]]
        p = p + amp * flux * np.exp(-((yy - y) ** 2 / sig**2 + (xx - x) ** 2 / (sigx or sig) ** 2) / 2)
    return p, m


def image(k, shape, extra=None, *a):
    p, m = pixels(k, shape, extra, *a)
    return lib.pi.SingleImage(np.ma.MaskedArray(p, m), stamp_shape=(STAMPS[k], STAMPS[k]))


def lists(tier):
    n, k = (6, 3) if tier == "quick" else (8, 4)
    out = []
    for size in range(1, k + 1):
        for c in itertools.combinations_with_replacement(range(n), size):
            out.append(c)
    return out


def cases(tier):
    out = []
    n = len(lists(tier))
    per = 3 if tier == "quick" else 4
    for s in range(0, n, per):
        out.append(dict(kind="formula", tier=tier, first=s, last=min(s + per, n)))
    out += [dict(kind="relations", image=k, shape=s) for k in range(6) for s in range(3)]
    for s in range(4):
        out.append(dict(kind="sources", shard=s, shards=4, step=4 if tier == "quick" else 2))
    return out


def run(case, rec):
    globals()[case["kind"]](case, rec)


def same(rec, got, want, what, key, rtol=1e-6):
    for g, w, n in zip(got[:2], want[:2], ("image", "psf")):
        rec.check(lib.close(np.asarray(g), w, rtol), key + ":" + n, "%s: %s differs, %s" % (what, n, lib.dist(g, w)))
    rec.check(np.array_equal(np.asarray(got[2], bool), want[2]), key + ":mask", what + ": mask differs")


def formula(case, rec):
    todo = lists(case["tier"])
    for i in range(case["first"], case["last"]):
        letters = todo[i]
        shape = SHAPES[i % 3]
        losses = LOSS[:2] if case["tier"] == "quick" else LOSS
        for li, loss in enumerate(losses):
            first = None
            for order in sorted(set(itertools.permutations(letters))):
                workers = 1 + (i + li + sum(order[:1])) % 2
                what = "images %s of %s, loss %s, %d workers" % (list(order), shape, loss, workers)
                with rec.guard(what):
                    imgs = [image(k, shape) for k in order]
                    got = lib.pi.coadd(imgs, align=False, inf_loss=loss, n_procs=workers)
                    rec.eval((order, shape, loss, "formula"))
                    if not rec.check(len(got) == 3, "shape", what + ": %d results" % len(got)):
                        continue
                    fresh = [image(k, shape) for k in order]
                    z, n = ref.flux_scales([f.best_sources for f in fresh])
                    true = np.array([flux_of(k) / flux_of(order[0]) for k in order])
                    rec.check(n > 2 and np.max(np.abs(np.log(z / true))) < 0.45, "scene", "%s: %d common stars, flux scales %s, not %s" % (what, n, z, true))
                    want = ref.coadd(fresh, z, loss)
                    same(rec, got, want, what, "formula")
                    rec.check(np.all(np.isfinite(got[0])) and np.all(np.isfinite(got[1])), "finite", what + ": not finite")
                    rec.check(abs(np.sum(got[1]) - 1) < 1e-9, "unit", what + ": PSF sums %s" % np.sum(got[1]))
                    if first is None:
                        first = got
                    else:
                        rec.eval((order, shape, loss, "order"))
                        same(rec, got, first, what + ", in other order", "order", 1e-4)
                    for im in imgs + fresh:
                        im._clean()
                if len(rec.violations) > 8:
                    return
    rec.sample(dict(images=list(letters), shape=shape, losses=losses))


def flux_of(k):
    flux, noise, sig, sigx, var, mask = LETTERS[k]
    # the mean of the squared width over the frame
    s2 = np.mean([(sig * (1 + var * y / 56.0)) * (sigx or sig * (1 + var * y / 56.0)) for y in range(8, 49, 10)])
    if sigx and var:
        s2 = sigx * np.mean([sig * (1 + var * y / 56.0) for y in range(8, 49, 10)])
    return flux * s2


def relations(case, rec):
    for k, shape, loss in itertools.product([case["image"]], [SHAPES[case["shape"]]], LOSS[:2]):
        with rec.guard("copies of image %d" % k):
            one = lib.pi.coadd([image(k, shape)], align=False, inf_loss=loss, n_procs=1)
            for n, w in ((2, 1), (3, 2), (4, 3)):
                what = "%d copies of image %d of %s, loss %s" % (n, k, shape, loss)
                got = lib.pi.coadd([image(k, shape) for _ in range(n)], align=False, inf_loss=loss, n_procs=w)
                rec.eval((k, shape, loss, n))
                same(rec, got, (np.asarray(one[0]) * np.sqrt(n), one[1], np.asarray(one[2], bool)), what, "copies")
        # the images may come as arrays: then the stamps are of the default shape
        with rec.guard("containers of image %d" % k):
            (p, m), (q, mq) = pixels(k, shape), pixels((k + 2) % 6, shape)
            def arr(x, y):
                return np.where(y, np.nan, x)
            want = lib.pi.coadd([lib.pi.SingleImage(arr(p, m)), lib.pi.SingleImage(arr(q, mq))], align=False, inf_loss=loss, n_procs=1)
            for form in ("arrays", "images and arrays", "masked"):
                x = [arr(p, m), arr(q, mq)]
                if form == "masked":
                    x = [np.ma.masked_invalid(v) for v in x]
                if form == "images and arrays":
                    x[0] = lib.pi.SingleImage(x[0])
                got = lib.pi.coadd(x, align=False, inf_loss=loss, n_procs=1)
                rec.eval((k, shape, loss, form))
                same(rec, got, want, "%s of %s, loss %s" % (form, shape, loss), "containers")
    rec.sample(dict(relations=["copies", "containers"]))


def sources(case, rec):
    """A source in the images stays where it is."""
    shape = (66, 70)
    step, off = 17, 9
    todo = []
    stars = [(cy, cx) for cy in range(off, shape[0] - off + 1, step) for cx in range(off, shape[1] - off + 1, step)]
    for letters in ((0, 2), (1, 3, 4)):
        for y in range(6, shape[0] - 6, case["step"]):
            for x in range(6, shape[1] - 6, case["step"]):
                todo.append((letters, y, x))
    for letters, y, x in todo[case["shard"]:: case["shards"]]:
        near = min((y - cy - 0.3) ** 2 + (x - cx - 0.3) ** 2 for cy, cx in stars)
        if near < 49:
            continue
        what = "source at %s in images %s" % ((y, x), letters)
        with rec.guard(what):
            got = lib.pi.coadd([image(k, shape, (2000.0, y, x), step, off) for k in letters], align=False, inf_loss=0.5, n_procs=2)
            rec.eval((letters, y, x))
            d = np.real(got[0])
            box = d[y - 3: y + 4, x - 3: x + 4]
            p = np.unravel_index(np.argmax(box), box.shape)
            sd = 1.4826 * np.median(np.abs(d - np.median(d)))
            rec.check(max(abs(p[0] - 3), abs(p[1] - 3)) <= 1, "place", "%s: its peak is at %s" % (what, (y + p[0] - 3, x + p[1] - 3)))
            rec.check(box.max() > 10 * sd, "place", "%s: its peak is only %.1f sigma" % (what, box.max() / sd))
        if len(rec.violations) > 8:
            return
    rec.sample(dict(case, letters=letters))

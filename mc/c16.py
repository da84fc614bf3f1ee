"""C16: plots draw every component with the caller's options."""
import copy
import itertools
import os

import numpy as np

from mc import lib

LEVEL = "exploration"
RULE = "evaluation = one plotting call whose figure was inspected; distinct = (plot, number of components, axes, options)"
BOUNDS = {
    "quick": "every number of components from 1 to 26 x (own panels, 7 ways to give axes) x 8 sets of options for the basis and the coefficients; "
             "dispatch by name of all names; the image plot and the plots of S and R for 7 data types, masks, files and notebook; real images at 4 losses",
    "thorough": "as quick up to 60 components",
}
OPTS = [
    {},
    dict(cmap="magma"),
    dict(interpolation="bilinear", origin="lower"),
    dict(vmin=-1.0, vmax=2.0),
    dict(cmap_kw=dict(shrink=0.5)),
    dict(cmap_kw=dict(orientation="horizontal")),
    dict(alpha=0.5, cmap="viridis", cmap_kw={}),
    dict(vmax=1000.0, aspect="auto"),
]
ISO = [None, {}, dict(colors="red"), dict(linewidths=3.0, alpha=0.9)]


class Fake:
    """An image with as many components as one likes."""

    def __init__(self, n, shape=(7, 9), frame=(11, 13)):
        r = np.random.default_rng(n)
        self.basis = [r.random(shape) + k for k in range(n)]
        self.frame = frame
        self.coef = [(k + 1.0, 0.3 * k, r.random()) for k in range(n)]
        self.fields = [None] if n == 1 else [self.field(c) for c in self.coef]
        self.asked = []
        self.data = np.ma.MaskedArray(r.random(frame), mask=r.random(frame) > 0.9)

    @staticmethod
    def field(c):
        return lambda x, y: c[0] + c[1] * x - c[2] * y + 0.01 * c[0] * x * y

    def get_variable_psf(self, inf_loss=None, shape=None):
        self.asked.append((inf_loss, shape))
        return [list(self.fields), list(self.basis)]

    def get_afield_domain(self):
        return np.mgrid[: self.frame[0], : self.frame[1]]


def cases(tier):
    top = 26 if tier == "quick" else 60
    out = []
    for n in sorted(range(1, top + 1), reverse=True):
        out.append(dict(kind="panels", n=n))
    for n in range(1, 9):
        out.append(dict(kind="given", n=n))
    out += [dict(kind="dispatch"), dict(kind="frames"), dict(kind="real")]
    return out


def run(case, rec):
    import matplotlib.pyplot as plt

    try:
        globals()[case["kind"]](case, rec, plt)
    finally:
        plt.close("all")


def shown(ax):
    return [np.asarray(i.get_array()) for i in ax.images]


def inspect(rec, plt, axs, want, what, opts, coef, iso=None):
    """The first axes have the components, in order, and the rest nothing."""
    flat = list(np.ravel(np.array(axs, dtype=object)))
    if not rec.check(len(flat) >= len(want), "panels", "%s: %d panels for %d components" % (what, len(flat), len(want))):
        return
    for k, w in enumerate(want):
        ims = shown(flat[k])
        if not rec.check(len(ims) == 1, "drawn", "%s: panel %d has %d images" % (what, k, len(ims))):
            return
        rec.check(ims[0].shape == w.shape and np.allclose(ims[0], w, rtol=1e-9), "drawn", "%s: panel %d is not component %d" % (what, k, k))
        im = flat[k].images[0]
        if "cmap" in opts:
            rec.check(im.get_cmap().name == opts["cmap"], "options", "%s: color map %s" % (what, im.get_cmap().name))
        if "origin" in opts:
            rec.check(im.origin == opts["origin"], "options", "%s: origin %s" % (what, im.origin))
        if "alpha" in opts:
            rec.check(im.get_alpha() == opts["alpha"], "options", "%s: alpha %s" % (what, im.get_alpha()))
        if "aspect" in opts:
            rec.check(flat[k].get_aspect() == opts["aspect"], "options", "%s: aspect %s" % (what, flat[k].get_aspect()))
        if "interpolation" in opts:
            rec.check(im.get_interpolation() == opts["interpolation"], "options", "%s: interpolation %s" % (what, im.get_interpolation()))
        lim = im.get_clim()
        for j, name in enumerate(("vmin", "vmax")):
            if name in opts:
                rec.check(lim[j] == opts[name], "options", "%s: %s is %s in panel %d" % (what, name, lim[j], k))
            elif not coef:
                rec.check(np.isclose(lim[j], (w.min(), w.max())[j]), "limits", "%s: %s is %s in panel %d" % (what, name, lim[j], k))
        if coef and not ("vmin" in opts or "vmax" in opts):
            rec.check(lim[0] < np.median(w) < lim[1], "limits", "%s: limits %s of panel %d leave its values out" % (what, lim, k))
        bar = im.colorbar
        if rec.check(bar is not None, "colorbar", "%s: panel %d has no color bar" % (what, k)):
            o = (opts.get("cmap_kw") or {}).get("orientation", "vertical")
            rec.check(bar.orientation == o, "options", "%s: color bar of panel %d is %s" % (what, k, bar.orientation))
        has = [c for c in flat[k].collections]
        rec.check(bool(has) == (iso is not None), "iso", "%s: %d contours in panel %d" % (what, len(has), k))
        if iso and has and "linewidths" in iso:
            rec.check(np.all(np.asarray(has[0].get_linewidths()) == iso["linewidths"]), "options", what + ": width of the contours")
        if iso is not None and has:
            a = iso.get("alpha", 0.5)
            rec.check(has[0].get_alpha() == a, "options", "%s: alpha of the contours is %s" % (what, has[0].get_alpha()))
            c = np.asarray(has[0].get_edgecolor())[0][:3]
            if "linewidths" not in iso:
                rec.check(np.allclose(c, (1, 0, 0) if iso.get("colors") == "red" else (0, 0, 0)), "options", "%s: color of the contours is %s" % (what, c))
        rec.check(bool(flat[k].get_title()), "title", "%s: panel %d has no title" % (what, k))
    for k in range(len(want), len(flat)):
        rec.check(not flat[k].images, "drawn", "%s: panel %d has an image, without component" % (what, k))


def call(rec, plt, fake, coef, what, axs=None, opts=None, iso=None, **kw):
    opts = copy.deepcopy(opts or {})
    frozen = copy.deepcopy(opts)
    before = [lib.digest(b) for b in fake.basis]
    p = lib.plot.Plot(fake)
    if iso is not None and not coef:
        kw = dict(kw, iso=True, iso_kw=copy.deepcopy(iso))
        frozen_iso = copy.deepcopy(iso)
    out = (p.autopsf_coef if coef else p.autopsf)(axs=axs, **opts, **kw)
    rec.check(opts == frozen, "touched", "%s: the options given became %s" % (what, opts))
    if iso is not None and not coef:
        rec.check(kw["iso_kw"] == frozen_iso, "touched", "%s: the options of the contours became %s" % (what, kw["iso_kw"]))
    rec.check([lib.digest(b) for b in fake.basis] == before, "touched", what + ": the basis changed")
    return out


def wanted(fake, coef):
    if not coef:
        return fake.basis
    return [f(*fake.get_afield_domain()) for f in fake.fields]


def panels(case, rec, plt):
    n = case["n"]
    nopts = len(OPTS) if n <= 6 else 2
    for coef, k in itertools.product((False, True), range(nopts)):
        fake = Fake(n)
        opts = OPTS[(k + n) % len(OPTS)]
        iso = ISO[(k + n) % len(ISO)] if not coef else None
        what = "%s of %d components, %s, contours %s" % ("coefficients" if coef else "basis", n, opts, iso)
        plt.close("all")
        if coef and n == 1:
            try:
                call(rec, plt, fake, True, what, opts=opts)
                rec.violate("refuse", what + ": drawn all the same")
            except lib.plot.NoDataToPlot as e:
                rec.check(isinstance(e, ValueError), "refuse", what + ": not a ValueError")
            except Exception as e:  # noqa
                rec.violate("refuse", "%s: %s" % (what, type(e).__name__))
            rec.eval((coef, n, k))
            continue
        with rec.guard(what):
            out = call(rec, plt, fake, coef, what, opts=opts, iso=iso, inf_loss=0.01 * n, shape=(n, n))
            rec.eval((coef, n, k))
            rec.check(fake.asked == [(0.01 * n, (n, n))], "options", "%s: the PSF was asked with %s" % (what, fake.asked))
            inspect(rec, plt, out, wanted(fake, coef), what, opts, coef, iso)
            flat = list(np.ravel(np.array(out, dtype=object)))
            rec.check(len(plt.get_fignums()) == 1, "figure", "%s: %d figures" % (what, len(plt.get_fignums())))
            if n == 1:
                rec.check(len(flat) == 1, "panels", "%s: %d panels for one component" % (what, len(flat)))
            rec.check(len({a.get_figure().number for a in flat}) == 1, "figure", what + ": in several figures")
    rec.sample(dict(case))


def given(case, rec, plt):
    n = case["n"]
    for coef in (False, True):
        if coef and n == 1:
            continue
        for form in ("array", "list", "more", "grid", "figures", "single", "few"):
            fake = Fake(n)
            opts = OPTS[(n + len(form)) % len(OPTS)]
            what = "%s of %d components in axes given as %s, %s" % ("coefficients" if coef else "basis", n, form, opts)
            plt.close("all")
            if form == "few":
                for m in range(1, n):
                    axs = plt.figure().subplots(1, m)
                    try:
                        call(rec, plt, fake, coef, what, axs=axs)
                        rec.violate("refuse", "%s, %d of them: drawn all the same" % (what, m))
                    except ValueError:
                        pass
                    except Exception as e:  # noqa
                        rec.violate("refuse", "%s: %s" % (what, type(e).__name__))
                    rec.eval((coef, n, form, m))
                continue
            with rec.guard(what):
                if form == "array":
                    axs = plt.figure().subplots(1, n)
                elif form == "list":
                    axs = list(np.ravel(plt.figure().subplots(n, 1)))
                elif form == "more":
                    axs = plt.figure().subplots(1, n + 3)
                elif form == "grid":
                    axs = plt.figure().subplots(2, (n + 1) // 2 + 1)
                elif form == "figures":
                    axs = [plt.figure().subplots() for _ in range(n)]
                else:
                    if n > 1:
                        continue
                    axs = plt.figure().subplots()
                figs = plt.get_fignums()
                plt.figure()  # the current one is another figure
                out = call(rec, plt, fake, coef, what, axs=axs, opts=opts)
                rec.eval((coef, n, form))
                rec.check(out is axs or list(np.ravel(np.array(out, dtype=object))) == list(np.ravel(np.array(axs, dtype=object))), "answer", what + ": other axes are returned")
                inspect(rec, plt, axs, wanted(fake, coef), what, opts, coef)
                rec.check(not plt.gcf().axes or plt.gcf().number in figs, "figure", what + ": also drawn in the current figure")
    rec.sample(dict(case))


def dispatch(case, rec, plt):
    fake = Fake(3)
    names = [None, "imshow", "autopsf", "autopsf_coef"]
    for name in names:
        plt.close("all")
        with rec.guard("plot(%r)" % name):
            out = lib.plot.Plot(fake)(name) if name else lib.plot.Plot(fake)()
            rec.eval(("dispatch", name))
            ims = [shown(a) for a in np.ravel(np.array(out, dtype=object))]
            w = {"autopsf": fake.basis, "autopsf_coef": wanted(fake, True)}.get(name, [fake.data])
            rec.check(len(ims) >= len(w) and all(len(i) == 1 and i[0].shape == x.shape and np.allclose(i[0], x) for i, x in zip(ims, w)), "dispatch", "plot(%r) draws something else" % name)
    bad = ["_si", "__init__", "si", "nothing", "Imshow", "DEFAULT_PLOT", "autopsf ", "__class__", ""]
    for name in bad:
        plt.close("all")
        if name == "":
            continue
        try:
            lib.plot.Plot(fake)(name)
            rec.violate("dispatch", "plot(%r) is accepted" % name)
        except ValueError:
            pass
        except Exception as e:  # noqa
            rec.violate("dispatch", "plot(%r): %s" % (name, type(e).__name__))
        rec.eval(("dispatch", name))
    for opts in ({}, dict(origin="upper"), dict(cmap="magma", vmin=0.1), dict(alpha=0.3)):
        for ax in (None, 1):
            plt.close("all")
            what = "image plot with %s, axes %s" % (opts, ax)
            with rec.guard(what):
                axs = plt.figure().subplots() if ax else None
                if ax:
                    plt.figure()
                kw = dict(opts)
                out = lib.plot.Plot(fake).imshow(ax=axs, **kw)
                rec.eval(("imshow", repr(opts), ax))
                rec.check(axs is None or out is axs, "answer", what + ": other axes are returned")
                im = out.images[0]
                rec.check(np.ma.allequal(im.get_array(), fake.data), "drawn", what + ": not the image")
                rec.check(np.array_equal(np.ma.getmaskarray(im.get_array()), fake.data.mask), "drawn", what + ": not the mask of the image")
                rec.check(im.origin == opts.get("origin", "lower"), "options", "%s: origin %s" % (what, im.origin))
                if "cmap" in opts:
                    rec.check(im.get_cmap().name == "magma" and im.get_clim()[0] == 0.1, "options", what + ": options are lost")
    rec.sample(dict(names=names, refused=bad))


def frames(case, rec, plt):
    """plot_S and plot_R."""
    r = np.random.default_rng(5)
    base = 10 + 40 * r.random((20, 24))
    drawn = []
    plt.close("all")
    real = plt.imshow

    def spy(a, *args, **kw):
        drawn.append((np.array(a), kw))
        return real(a, *args, **kw)

    path = os.path.join(lib.SCRATCH, "plot.png")
    for which, dt, mask, nbook, save in itertools.product("SR", ["f4", "f8", ">f4", "i4", "c8", "c16", "u2"], (False, True), (False, True), (False, True)):
        if which == "S" and dt[0] == "c":
            continue
        a = base.astype(dt)
        if dt[0] == "c":
            a = a + 1j * a
        if mask:
            a = np.ma.MaskedArray(a, np.zeros(a.shape, bool))
        what = "plot_%s of %s, masked %s, notebook %s, file %s" % (which, dt, mask, nbook, save)
        d = lib.digest(np.asarray(a))
        drawn.clear()
        plt.close("all")
        plt.imshow = spy
        try:
            with rec.guard(what):
                fn = lib.plot.plot_S if which == "S" else lib.plot.plot_R
                fn(a, path=path if save else None, nbook=nbook)
                rec.eval((which, dt, mask, nbook, save))
                rec.check(lib.digest(np.asarray(a)) == d, "touched", what + ": the image changed")
                if rec.check(len(drawn) == 1, "drawn", "%s: %d images" % (what, len(drawn))):
                    got, kw = drawn[0]
                    want = np.asarray(a).real if which == "S" else np.log10(np.asarray(a).real)
                    rec.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-5), "drawn", what + ": another image")
                    if which == "S":
                        rec.check(kw.get("vmin") < np.median(want) < kw.get("vmax"), "limits", "%s: limits %s, %s" % (what, kw.get("vmin"), kw.get("vmax")))
                if save:
                    ok = os.path.exists(path) and os.path.getsize(path) > 1000
                    if rec.check(ok, "file", what + ": no file"):
                        os.remove(path)
                if nbook:
                    n = sum(len(plt.figure(i).axes) > 0 and bool(plt.figure(i).axes[0].images) for i in plt.get_fignums())
                    rec.check(n == 1, "figure", "%s: %d figures with an image" % (what, n))
                else:
                    n = sum(bool(x.images) for i in plt.get_fignums() for x in plt.figure(i).axes)
                    rec.check(n == 0, "figure", what + ": the figure stays open")
        finally:
            plt.imshow = real
    rec.sample(dict(case))


def real(case, rec, plt):
    p = lib.scene(80, 84, seed=3, var=0.6)
    for loss in (0.3, 0.05, 0.01, 0.002):
        for coef in (False, True):
            plt.close("all")
            what = "%s of a real image, loss %s" % ("coefficients" if coef else "basis", loss)
            with rec.guard(what):
                im = lib.pi.SingleImage(p.copy(), stamp_shape=(9, 9))
                a, basis = lib.pi.SingleImage(p.copy(), stamp_shape=(9, 9)).get_variable_psf(loss)
                if coef and len(basis) == 1:
                    continue
                out = im.plot("autopsf_coef" if coef else "autopsf", inf_loss=loss)
                rec.eval((loss, coef))
                rec.more("components of real images", len(basis))
                want = basis if not coef else [f(*np.mgrid[:80, :84]) for f in a]
                inspect(rec, plt, out, want, what, {}, coef)
                fresh = im.get_variable_psf(loss)[1]
                rec.check(all(np.array_equal(x, y) for x, y in zip(fresh, basis)), "touched", what + ": the basis changed")
    rec.sample(dict(case))

"""C12: every subtraction mode honours its options and survives a failed fit."""
import itertools

import numpy as np
from scipy.optimize import OptimizeResult

from mc import lib, ref

LEVEL = "fault_enumeration"
RULE = (
    "evaluation = one subtraction of the real code under one answer of the optimizer (or with the real one), compared "
    "with the reference at that answer; distinct = (options, masks, containers, answer)"
)
BOUNDS = {
    "quick": "all 16 combinations of scale fit, shift fit, iterative and PSF kind x up to 4 masks x 4 containers x every answer of a menu of up to 11, "
             "of which 3 are failures, also smoothed; recovery by the real optimizer of 4 scales x 9 displacements (3 in some modes); 30 pairs of different shapes",
    "thorough": "as quick with two more frame shapes, all smoothing x containers, 7 scales x 25 displacements",
}
CASE_TIMEOUT = 600
SHAPES = [(56, 60), (52, 70), (64, 51)]
MODES = list(itertools.product((True, False), (True, False), (True, False), (True, False)))  # beta, shift, iterative, fitted
MASKS = ["none", "ref", "new", "both"]
FORMS = ["image", "array", "masked", "mixed"]
B = [0.35, 1.0, 2.2]
D = [(0.3, -0.4), (-0.9, 0.9), (0.0, 0.6), (0.0, 0.0)]


class Answer:
    def __init__(self, ok, b, d):
        self.ok, self.b, self.d = ok, b, d

    def __repr__(self):
        return "%s %s %s" % ("fitted" if self.ok else "failed", self.b, self.d)


def menu(beta, shift):
    """The answers of the optimizer that make a difference in a mode."""
    bad = [Answer(False, 3.1, (0.5, -0.6)), Answer(False, 0.1, (-0.9, 0.9)), Answer(False, 1.0, (0.0, 0.0))]
    if beta and shift:
        return [Answer(True, b, d) for b, d in zip(B + [1.6], D)] + [Answer(True, b, D[0]) for b in B[1:]] + [Answer(True, B[2], (0.7, 0.0))] + bad
    if beta:
        return [Answer(True, b, (0.8, 0.8)) for b in B + [7.0]] + bad
    if shift:
        return [Answer(True, 5.0, d) for d in D] + [Answer(True, 5.0, (0.7, 0.0))] + bad
    return [Answer(True, 5.0, (0.8, 0.8)), bad[0]]


class Stub:
    """An optimizer that gives the answer it was told."""

    def __init__(self, answer):
        self.answer, self.calls, self.problem = answer, 0, None

    def _result(self, x, cost):
        a = self.answer
        return OptimizeResult(x=x, success=a.ok, cost=cost, fun=np.array([cost]), status=1 if a.ok else 0, message="", nfev=1, nit=1,
                              jac=np.zeros((1, np.size(x))), grad=np.zeros(np.size(x)), optimality=0.0, active_mask=np.zeros(np.size(x), int))

    def _cost(self, fun, x):
        c = np.asarray(fun(x))
        if not np.all(np.isfinite(c)):
            self.problem = "cost at %s is %s" % (x, c)
        return float(np.sum(c))

    def least_squares(self, real, fun, x0, *args, **kw):
        self.calls += 1
        n = np.size(x0)
        full = [self.answer.b] + list(self.answer.d)
        x = np.array({1: full[:1], 2: full[1:], 3: full}[n], dtype=float)
        return self._result(x, self._cost(fun, x))

    def minimize_scalar(self, real, fun, *args, **kw):
        self.calls += 1
        return self._result(self.answer.b, self._cost(fun, self.answer.b))


def pixels(which, shape, mask, flux=1.4, d=(0.0, 0.0), amp=3000.0):
    p = lib.scene(*shape, seed=70 + which, sig=1.5 if which else 1.2, sigx=1.3, flux=flux * 1.2 / 1.5 if which else 1.0, noise=3, amp=amp,
                  bg=80 if which else 120, shift=d if which else (0.0, 0.0))
    m = np.zeros(shape, dtype=bool)
    if which == 0 and mask in ("ref", "both"):
        m[22:24, 10:14] = True
    if which == 1 and mask in ("new", "both"):
        m[12, 40:43] = True
        m[22, 11] = True
    return p, m


def give(form, which, p, m, smooth):
    """What subtract is given, in a new copy."""
    SI = lib.pi.SingleImage
    if form == "image" or (form == "mixed" and which == 0):
        return SI(np.ma.MaskedArray(p.copy(), m.copy()), stamp_shape=(9, 9), smooth_psf=smooth)
    if form == "masked" or form == "mixed":
        return np.ma.MaskedArray(p.copy(), m.copy())
    out = p.copy()
    out[m] = np.nan
    return out


def model(given, fitted, smooth):
    """The image that subtract works with, or one like it."""
    SI = lib.single_image.SingleImageGaussPSF if fitted else lib.pi.SingleImage
    if isinstance(given, lib.pi.SingleImage):
        if not fitted:
            return given
        given = given.data
    return SI(given.copy(), smooth_psf=smooth)


def state(x):
    if isinstance(x, lib.pi.SingleImage):
        return lib.digest(x.data.data), lib.digest(x.data.mask), lib.digest(x.mask)
    if isinstance(x, np.ma.MaskedArray):
        return lib.digest(x.data), lib.digest(np.ma.getmaskarray(x))
    return (lib.digest(x),)


def cases(tier):
    out = []
    for s in range(1 if tier == "quick" else 3):
        for mode in range(len(MODES)):
            for form in FORMS:
                out.append(dict(kind="answers", shape=s, tier=tier, mode=mode, form=form, smooth=False))
                if form == "array" or tier == "thorough":
                    out.append(dict(kind="answers", shape=s, tier=tier, mode=mode, form=form, smooth=True))
    for mode in range(len(MODES)):
        b, s, i, f = MODES[mode]
        if b or s:
            for k in range(4 if tier == "quick" else 7):
                out.append(dict(kind="recover", mode=mode, scale=k, step=1 if tier == "quick" else 0))
    out.append(dict(kind="shapes"))
    return out


def run(case, rec):
    globals()[case["kind"]](case, rec)


def kwargs(mode):
    b, s, i, f = mode
    return dict(align=False, beta=b, shift=s, iterative=i, fitted_psf=f, inf_loss=0.6)


def answers(case, rec):
    mode, form, shape, smooth = MODES[case["mode"]], case["form"], SHAPES[case["shape"]], case["smooth"]
    beta, shift, iterative, fitted = mode
    masks = MASKS
    if smooth:
        masks = MASKS[:1]
    elif fitted and case["tier"] == "quick":  # every form with every mask over the modes
        masks = [MASKS[(case["mode"] + FORMS.index(form)) % 4], MASKS[(case["mode"] // 2 + FORMS.index(form)) % 4], "both"]
    for mask in dict.fromkeys(masks):
        pm = [pixels(w, shape, mask) for w in (0, 1)]
        what0 = "beta=%s shift=%s iterative=%s fitted_psf=%s, %s, mask %s%s" % (*mode, form, mask, ", smoothed" if smooth else "")
        with rec.guard(what0):
            x, y = [model(give(form, w, *pm[w], smooth), fitted, smooth) for w in (0, 1)]
            z, n = ref.flux_scales([x.best_sources, y.best_sources])
            rec.check(n >= 4 and abs(z[1] / 1.4 - 1) < 0.15, "scene", "%s: flux ratio %.3f of %d stars" % (what0, z[1], n))
            r = ref.Sub(x, y, (1.0, z[1]), 0.6, fitted)
            union = x.mask | y.mask
            rec.check(mask == "none" or union[22, 11] or union[12, 41], "mask", what0 + ": no mask")
        for k, ans in enumerate(menu(beta, shift)):
            what = "%s, optimizer %s" % (what0, ans)
            lib.reset()
            stub = Stub(ans)
            lib.Env.least_squares, lib.Env.minimize_scalar = stub.least_squares, stub.minimize_scalar
            try:
                with rec.guard(what):
                    a, b = [give(form, w, *pm[w], smooth) for w in (0, 1)]
                    before = [state(a), state(b)]
                    got = lib.pi.subtract(a, b, smooth_psf=smooth, **kwargs(mode))
                    rec.eval((case["shape"], mode, form, smooth, mask, k))
                    rec.check([state(a), state(b)] == before, "touched", what + ": the images given changed")
                    rec.check(stub.problem is None, "cost", "%s: %s" % (what, stub.problem))
                    if beta or shift:
                        if not stub.calls:
                            rec.more("answers that were not asked for")
                            continue
                        rec.more("answers given")
                    ok = ans.ok and (beta or shift)
                    bb = ans.b if ok and beta else None
                    dd = ans.d if ok and shift else (0.0, 0.0)
                    judge(rec, got, r, bb, dd, union, what)
                    rec.outcome((mode, bb, dd))
                    for im in (a, b):
                        if isinstance(im, lib.pi.SingleImage):
                            im._clean()
            finally:
                lib.reset()
        if len(rec.violations) > 8:
            break
    rec.sample(dict(case, mode=what0, answers=[repr(a) for a in menu(beta, shift)]))


def judge(rec, got, r, bb, dd, union, what):
    if not rec.check(len(got) == 4, "shape", "%s: %d results" % (what, len(got))):
        return
    Dd, P, S, M = got
    want = r(bb, dd)
    for g, w, n in ((np.asarray(Dd), want[0], "difference"), (P, want[1], "psf"), (S, want[3], "significance")):
        rec.check(lib.close(g, w, 1e-6), n, "%s: %s is not the one of b=%s d=%s, %s" % (what, n, bb or "photometric", dd, lib.dist(g, w)))
    rec.check(np.array_equal(np.asarray(M, bool), union), "mask", what + ": mask is not the union of the masks")


SCALES = [0.4, 2.5, 30.0, 0.06, 1.0, 8.0, 0.15]


def recover(case, rec):
    mode = MODES[case["mode"]]
    beta, shift, iterative, fitted = mode
    flux = SCALES[case["scale"]]
    lattice = (-0.4, 0.0, 0.4) if case["step"] else (-0.6, -0.3, 0.0, 0.3, 0.6)
    places = list(itertools.product(lattice, lattice)) if shift else [(0.0, 0.0)]
    if case["step"] and (iterative or not fitted):
        places = places[::4]  # the same path as when it is not iterative
    if flux < 0.1:  # hardly any star: only the scale is well defined
        places = [(0.0, 0.0)]
    shape = (70, 64)
    amp = 3000.0 if flux < 5 else 1200.0
    if flux < 0.1:
        amp = 9000.0
    for d in places:
        what = "beta=%s shift=%s iterative=%s fitted_psf=%s, scale %s displaced %s" % (*mode, flux, d)
        pm = [pixels(w, shape, "none", flux, d, amp) for w in (0, 1)]
        seen = []

        def spy(real, *a, **k):
            out = real(*a, **k)
            seen.append(out)
            return out

        lib.reset()
        lib.Env.least_squares = lib.Env.minimize_scalar = spy
        try:
            with rec.guard(what):
                x, y = [model(give("array" if fitted else "image", w, *pm[w], False), fitted, False) for w in (0, 1)]
                z, n = ref.flux_scales([x.best_sources, y.best_sources])
                a, b = [give("array" if fitted else "image", w, *pm[w], False) for w in (0, 1)]
                got = lib.pi.subtract(a, b, **kwargs(mode))
                rec.eval((mode, flux, d))
                rec.check(n >= 1 and abs(z[1] / flux - 1) < 0.1, "scene", "%s: flux ratio %.3f of %d stars" % (what, z[1], n))
                r = ref.Sub(x, y, (1.0, z[1]), 0.6, fitted)
                best = np.abs(r(flux if beta else None, d)[0].real).max()
                left = np.abs(np.real(got[0])).max()
                star = max(np.abs(x.interped).max() / x.var, np.abs(y.interped).max() / y.var)
                rec.check((shift and flux < 0.1) or left < max(1.7 * best, 0.03 * star), "residual", "%s: %.3g of the stars is left, %.3g at the right parameters, of %.3g" % (what, left, best, star))
                for s in seen:
                    rec.check(s.success or flux < 0.1, "fit", what + ": the fit fails")
                    full = np.atleast_1d(s.x)
                    bb = full[0] if beta else None
                    dd = full[-2:] if shift else (0.0, 0.0)
                    judge(rec, got, r, bb if s.success else None, dd if s.success else (0.0, 0.0), x.mask | y.mask, what)
                    if beta and s.success:
                        rec.check(abs(bb / flux - 1) < (0.1 if fitted else 0.15), "scale", "%s: scale of %.4f" % (what, bb))
                    if shift and flux > 0.1 and fitted:  # the others depend on the centroid of the stamps
                        rec.check(np.max(np.abs(np.array(dd) - d)) < 0.12, "displacement", "%s: displacement of %s" % (what, dd))
        finally:
            lib.reset()
        if len(rec.violations) > 8:
            break
    rec.sample(dict(case, mode=mode, flux=flux))


def shapes(case, rec):
    some = [(56, 60), (60, 56), (56, 56), (60, 60), (56, 61), (55, 60)]
    for s1, s2 in itertools.permutations(some, 2):
        for mode in (MODES[0], MODES[-1]):
            what = "shapes %s and %s, mode %s" % (s1, s2, mode)
            a, b = lib.scene(*s1, seed=1), lib.scene(*s2, seed=2)
            try:
                lib.pi.subtract(a, b, **kwargs(mode))
            except ValueError:
                pass
            except Exception as e:  # noqa
                rec.violate("refuse", "%s: %s instead of ValueError" % (what, type(e).__name__))
            else:
                rec.violate("refuse", what + ": subtracted all the same")
            rec.eval((s1, s2, mode))
    rec.sample(dict(shapes=some))

"""C02: threads working on different images do not disturb each other."""
import numpy as np

from mc import lib, sched

LEVEL = "model_checking"
RULE = (
    "evaluation = one complete execution of two real threads under one enumerated schedule; "
    "distinct = (pair of programs, first thread, preemption point)"
)
BOUNDS = {
    "quick": "4 pairs of programs, at most 1 preemption, at the first execution of every line of the package",
    "thorough": "8 pairs of programs, at most 1 preemption, at the first four executions of every line of the package",
}
ASSUMPTIONS = [
    "scheduling points are the lines of the package; the compiled libraries are atomic for the scheduler",
    "CPython with the GIL",
]
CASE_TIMEOUT = 500


def frame(seed, **kw):
    k = dict(seed=seed, step=9, off=7, var=0.5 if seed % 2 else 0.0)
    k.update(kw)
    # threads with frames of one shape, and of two
    return lib.scene(34, 34 if seed % 2 else 38, **k)


def si(seed, **kw):
    return lib.pi.SingleImage(frame(seed), stamp_shape=(7, 7), **kw)


def p_build(seed):
    def body():
        d = frame(seed)
        d[5, 6] = np.nan
        with lib.pi.SingleImage(d, stamp_shape=(7, 7)) as im:
            a, b = im.get_variable_psf(0.05)
            return [np.array(b), im.cov_matrix, im.s_component, im.interped, im.mask,
                    im.get_psf_xy(12, 20), im.normal_image]

    return body


def p_auto(seed):
    def body():
        im = lib.pi.SingleImage(frame(seed))
        return [np.sort(im.best_sources["flux"]), np.array(im.stamp_shape), im.background,
                np.array(im.get_variable_psf(0.3)[1])]

    return body


def p_coadd(seed):
    def body():
        r, p, m = lib.pi.coadd([si(seed), si(seed + 2)], align=False, inf_loss=0.1, n_procs=1)
        return [r, p, m]

    return body


def p_sub(seed):
    def body():
        d, p, s, m = lib.pi.subtract(si(seed), si(seed + 2), beta=False, shift=False, fitted_psf=False)
        return [d, p, s, m]

    return body


def p_gauss(seed):
    def body():
        im = lib.single_image.SingleImageGaussPSF(frame(seed), stamp_shape=(7, 7))
        _, (render, model) = im.get_variable_psf()
        return [render, np.array(model.parameters)]

    return body


def p_sim(seed):
    def body():
        m = lib.simtools.delta_point(20, center=False, xy=[(5, 6), (11, 9)], weights=[3.0, 4.0])
        return [lib.simtools.image(m, 20, 1, 3, 10.0, bkg_pdf="gaussian", seed=seed),
                lib.simtools.Psf(11, 3)]

    return body


def p_find(seed):
    def body():
        im = si(seed)
        cat = lib.utils.find_S_local_maxima(frame(seed), threshold=4)
        return [np.array(cat), im.bkg_sub_img.filled(0), np.array([len(c) for c in lib.utils.chunk_it(list(range(7)), 3)])]

    return body


PAIRS = {
    "build-build": (p_build, 1, p_build, 2),
    "auto-build": (p_auto, 4, p_build, 6),
    "coadd-sub": (p_coadd, 1, p_sub, 7),
    "gauss-auto": (p_gauss, 2, p_auto, 5),
    "sub-sub": (p_sub, 1, p_sub, 5),
    "coadd-coadd": (p_coadd, 2, p_coadd, 5),
    "gauss-build": (p_gauss, 3, p_build, 5),
    "sim-find": (p_sim, 3, p_find, 6),
}
QUICK = ["build-build", "auto-build", "coadd-sub", "sim-find"]


def cases(tier):
    out = []
    for name in QUICK if tier == "quick" else PAIRS:
        for s in range(16):
            out.append(dict(pair=name, shard=s, shards=16, times=1 if tier == "quick" else 4))
    return out


_alone = {}


def run(case, rec):
    f, s1, g, s2 = PAIRS[case["pair"]]
    if case["pair"] not in _alone:
        with rec.guard("alone"):
            _alone[case["pair"]] = (f(s1)(), g(s2)())
    if case["pair"] not in _alone:
        return
    alone = _alone[case["pair"]]

    def once(plan, **kw):
        c, res = sched.run_bodies([f(s1), g(s2)], plan, **kw)
        for i in (0, 1):
            if res[i] is None or res[i][0] != "ok":
                rec.violate("exception", "%s, schedule %s: thread %d fails: %s"
                            % (case["pair"], plan, i, res[i] and res[i][1]), res[i] and res[i][2])
                return c, False
            for j, (x, y) in enumerate(zip(res[i][1], alone[i])):
                if not lib.close(x, y, 1e-9):
                    rec.violate("disturbed", "%s, schedule %s: result %d of thread %d differs: %s"
                                % (case["pair"], plan, j, i, lib.dist(x, y)))
                    return c, False
        return c, True

    plans = []
    for s in (0, 1):
        c, ok = once({"start": s}, record=True)
        if not ok:
            return
        t = [t for t in c.threads if t.id == s][0]
        seen = {}
        for k, loc in enumerate(t.locs):
            seen[loc] = seen.get(loc, 0) + 1
            if seen[loc] <= case["times"]:
                plans.append({"start": s, "switches": [(s, k + 1, 1 - s)]})
    for plan in plans[case["shard"]:: case["shards"]]:
        c, ok = once(plan)
        rec.eval((case["pair"], plan) if c.taken else None)
        rec.state((case["pair"], plan))
        rec.trans(sum(t.count for t in c.threads))
        rec.trace()
        rec.more("stalls", c.stalls)
        rec.outcome((case["pair"], ok))
        if not ok and len(rec.violations) > 3:
            break
    rec.more("points", len(plans) if case["shard"] == 0 else 0)
    rec.sample(dict(pair=case["pair"], plan=plans[case["shard"]] if plans else None))

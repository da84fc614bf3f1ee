"""C01: the coadd does not depend on the number of workers or their schedule."""
import numpy as np

from mc import lib, ref, sched

LEVEL = "model_checking"
RULE = (
    "evaluation = one complete coadd of the real code, under one worker count or one "
    "enumerated schedule of its workers, compared with the sequential reference model; "
    "distinct = (image list, workers, schedule executed)"
)
BOUNDS = {
    "quick": "every (number of images 1..6, workers 1..images+2); every schedule with at most 1 preemption, at any "
             "line executed (2 image lists) or at the first two executions of any line (2 more)",
    "thorough": "every (images 1..9, workers 1..images+3); schedules with at most 1 preemption at any "
                "line for 8 lists, and at most 2 preemptions at the first two executions of every line",
}
ASSUMPTIONS = [
    "scheduling points are the lines of the package: switches inside one line or one numpy call are not explored",
    "CPython with the GIL",
]
CASE_TIMEOUT = 400

LISTS = {
    # name: (indices of the images, workers)
    "pair": ([0, 1], 2),
    "same": ([0, 0], 2),
    "three": ([0, 1, 2], 3),
    "chunks": ([0, 1, 2, 3], 2),
    "mixed": ([1, 0, 1], 2),
    "dup3": ([2, 2, 2], 3),
    "pairmask": ([3, 2], 2),
    "five": ([0, 1, 2, 3, 4], 2),
}
INF = 0.05


def image(i, small=True):
    n, m = (40, 46)
    d = lib.scene(n, m, seed=10 + i, step=8, off=6, var=0.5 if i % 2 else 0.0,
                  flux=[1.0, 1.7, 0.6, 1.2, 0.9, 1.4, 0.8, 1.1, 1.0][i], noise=3 + i)
    if i == 2:
        d[10 + i, 4:6] = np.nan
        d[30, 30:33] = 70000.0
    if i == 3:
        d[20:22, 17:20] = -400.0
    return lib.pi.SingleImage(d, stamp_shape=(7, 7))


def cases(tier):
    out = []
    top = 6 if tier == "quick" else 9
    for n in range(1, top + 1):
        out.append(dict(kind="workers", n=n, procs=list(range(1, n + (3 if tier == "quick" else 4)))))
    names = ["pair", "same", "three", "chunks"] if tier == "quick" else list(LISTS)
    for name in names:
        shards = 8
        for s in range(shards):
            out.append(dict(kind="sched", list=name, bound=1, shard=s, shards=shards,
                            every=tier == "thorough" or name in ("pair", "same")))
    if tier == "thorough":
        for name in ["pair", "same", "mixed"]:
            for s in range(32):
                out.append(dict(kind="sched", list=name, bound=2, shard=s, shards=32, every=False))
    return out


_ref = {}


def reference(idx):
    key = tuple(idx)
    if key not in _ref:
        imgs = [image(i) for i in idx]
        z, _ = ref.flux_scales([im.best_sources for im in imgs])
        _ref[key] = ref.coadd(imgs, z, INF)
    return _ref[key]


def verdict(rec, out, idx, what):
    R, P, M = reference(idx)
    r, p, m = out
    ok = rec.check(lib.close(r, R, 1e-7), "coadd", "%s: R differs: %s" % (what, lib.dist(r, R)))
    ok &= rec.check(lib.close(p, P, 1e-7), "psf", "%s: P differs: %s" % (what, lib.dist(p, P)))
    ok &= rec.check(np.shape(m) == M.shape and np.array_equal(np.asarray(m, bool), M),
                    "mask", "%s: mask differs" % what)
    rec.outcome((np.round(np.abs(r).sum(), 4), int(np.sum(m))))
    return ok


def make(idx):
    made = {}
    return [made.setdefault(i, None) or made.__setitem__(i, image(i)) or made[i] for i in idx]


def run(case, rec):
    if case["kind"] == "workers":
        idx = list(range(case["n"]))
        for p in case["procs"]:
            for lst in (idx, idx[::-1]):
                with rec.guard("coadd of %d with %d workers" % (len(lst), p)):
                    out = lib.pi.coadd(make(lst), align=False, inf_loss=INF, n_procs=p)
                    rec.eval(("w", tuple(lst), p))
                    rec.trans()
                    rec.trace()
                    rec.state(("w", tuple(lst), p))
                    verdict(rec, out, lst, "%s, %d workers" % (lst, p))
        rec.sample(case)
        return

    idx, procs = LISTS[case["list"]]

    def once(plan, expect, **kw):
        imgs = make(idx)
        where = {}
        for k, im in enumerate(imgs):
            where.setdefault(id(im), k)

        def key(frame):
            found = []
            for v in frame.f_locals.values():
                for x in v if isinstance(v, (list, tuple)) else [v]:
                    if id(x) in where:
                        found.append(where[id(x)])
            return tuple(found)

        return sched.run_pool(
            lambda: lib.pi.coadd(imgs, align=False, inf_loss=INF, n_procs=procs),
            expect, plan, key, **kw)

    def safe(plan, expect, **kw):
        with rec.guard("schedule %s" % plan):
            return once(plan, expect, **kw)
        return None

    first = safe({"start": 0}, procs, record=True)
    if first is None:
        return
    verdict(rec, first[1], idx, "no preemption")
    k = len(first[0].threads)
    lens, locs = [], []
    for s in range(k):  # the points of a thread when it runs first
        r = safe({"start": s}, k, record=True)
        if r is None:
            return
        t = [t for t in r[0].threads if t.id == s][0]
        lens.append(t.count)
        locs.append(t.locs)
        rec.more("points", t.count if case["shard"] == 0 else 0)

    def firsts(l, n=2):
        seen = {}
        out = []
        for i, x in enumerate(l):
            seen[x] = seen.get(x, 0) + 1
            if seen[x] <= n:
                out.append(i + 1)
        return out

    plans = []
    if case["bound"] == 1:
        for s in range(k):
            for c in range(1, lens[s] + 1) if case["every"] else firsts(locs[s]):
                for u in range(k):
                    if u != s:
                        plans.append({"start": s, "switches": [(s, c, u)]})
    else:
        for s in range(k):
            for c in firsts(locs[s]):
                for u in range(k):
                    if u != s:
                        for c2 in firsts(locs[u]):
                            plans.append({"start": s, "switches": [(s, c, u), (u, c2, s)]})
    for plan in plans[case["shard"]:: case["shards"]]:
        r = safe(plan, k)
        if r is None:
            break
        c, out = r
        rec.eval((case["list"], plan) if c.taken else None)
        rec.trace()
        rec.trans(sum(t.count for t in c.threads))
        for i, (tid, cnt, u) in enumerate(plan["switches"]):
            rec.state((case["list"], plan["start"], tuple(plan["switches"][: i + 1])))
        rec.more("stalls", c.stalls)
        if not verdict(rec, out, idx, "%s, schedule %s" % (case["list"], plan)):
            # the same schedule again must fail again
            again = safe(plan, k)
            rec.violations[-1]["detail"] += " replayed: %s" % (again is not None)
            if len(rec.violations) > 3:
                break
    rec.sample(dict(list=case["list"], plan=plans[case["shard"]] if plans else None, points=lens))

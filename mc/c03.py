"""C03: what an image answers does not depend on what was asked before.

Explicit-state search over the real object: a state is a live image, a
transition one call on a clone of it, states are merged when every attribute of
the object is bit for bit the same.  The oracle is a fresh image that is given
the same settings and asked only that question.
"""
import copy
import hashlib

import numpy as np

from mc import lib

LEVEL = "model_checking"
RULE = (
    "evaluation = one answer compared with the answer of a fresh image; distinct = "
    "(image, state reached, question)"
)
BOUNDS = {
    "quick": "5 images; every history of the settings alphabet (12 calls) up to 5 calls (variable PSF, Gaussian) or 4 (masked, smoothed, wide), of the full alphabet (28 calls) up to 3 (masked) or 2",
    "thorough": "settings alphabet up to 8 calls (closure of the merged states), full alphabet up to 4, 7 images",
}
ASSUMPTIONS = ["two objects with identical attributes have the same future"]

LA, LB = 0.2, 0.02  # the first is the default of a new image
SETTINGS = ["psf:a", "psf:b", "setL:a", "setL:b", "setz:1", "setz:2",
            "norm", "S", "Shat", "xy", "basis", "afields"]
FULL = SETTINGS + ["psf", "interp", "interp_hat", "nsrc", "stamps", "cov", "eig",
                   "psqn", "pn", "bkg", "bkgsub", "best", "data", "mask", "psf:s", "psf:t"]
ASKED = {"s": (9, 9), "t": (8, 5)}  # shapes asked for the stamps
NOSTAMPS = {"setL", "setz", "interp", "interp_hat", "bkg", "bkgsub", "data", "mask"}
GAUSS = ["psf:a", "psf:b", "setz:1", "setz:2", "norm", "Shat", "S", "interp", "interp_hat",
         "nsrc", "stamps", "bkgsub"]


def images(tier):
    out = ["variable", "masked", "smooth", "wide", "gauss"]
    if tier == "thorough":
        out += ["single", "nonsquare"]
    return out


def make(kind):
    kw = dict(stamp_shape=(7, 7))
    cls = lib.pi.SingleImage
    if kind == "variable":
        d = lib.scene(48, seed=1, var=0.6, step=8, off=7)
    elif kind == "masked":
        d = lib.scene(48, seed=2, var=0.4, step=8, off=7)
        d[20:22, 20:22] = np.nan
        d[40, 5:9] = 70000.0
    elif kind == "smooth":
        d = lib.scene(48, seed=3, var=0.6, step=8, off=7)
        kw["smooth_psf"] = True
    elif kind == "wide":
        d = lib.scene(56, 48, seed=4, var=0.5, step=9, sig=1.6)
        kw = dict(gain=1.5)
    elif kind == "nonsquare":
        d = lib.scene(48, 60, seed=5, var=0.6, step=8, off=7)
        kw = dict(stamp_shape=(7, 9))
    elif kind == "single":
        d = lib.scene(48, seed=6, step=9, noise=0.5)
    elif kind == "gauss":
        d = lib.scene(48, seed=7, step=9)
        cls = lib.single_image.SingleImageGaussPSF
    return cls(d, **kw)


PTS = (np.array([3.0, 20.0, 41.0]), np.array([5.0, 30.0, 22.0]))


def apply(si, op, m):
    """Do op on the image and on the model of its settings: the loss, the zero
    point and what gave the shape of the stamps, asked for when they are extracted."""
    name, _, arg = op.partition(":")
    L, z, sh = m
    if sh in (None, "best") and name == "best":
        sh = "best"  # from here on the documentation lets no other shape be asked
    elif sh in (None, "best") and name not in NOSTAMPS:
        sh = arg if arg in ASKED else "own"
    if name == "psf" and arg in ASKED:
        return psf_val(si.get_variable_psf(shape=ASKED[arg])), (L, z, sh)
    if name == "setL":
        L = LA if arg == "a" else LB
        si.inf_loss = L
        return None, (L, z, sh)
    if name == "setz":
        z = float(arg)
        si.zp = z
        return None, (L, z, sh)
    if name == "psf":
        if arg:
            L = LA if arg == "a" else LB
            r = si.get_variable_psf(L)
        else:
            r = si.get_variable_psf()
        return psf_val(r), (L, z, sh)
    f = {
        "norm": lambda: si.normal_image,
        "S": lambda: si.s_component,
        "Shat": lambda: si.s_hat_comp,
        "xy": lambda: si.get_psf_xy(20.3, 31.8),
        "basis": lambda: list(si.kl_basis),
        "afields": lambda: fields(si.kl_afields),
        "interp": lambda: si.interped,
        "interp_hat": lambda: si.interped_hat,
        "nsrc": lambda: si.n_sources,
        "stamps": lambda: si.stamps_pos,
        "cov": lambda: si.cov_matrix,
        "eig": lambda: si.eigenv[0],
        "psqn": lambda: si.psf_hat_sqnorm(),
        "pn": lambda: si.p_sqnorm(),
        "bkg": lambda: si.background,
        "bkgsub": lambda: si.bkg_sub_img.filled(-1),
        "best": lambda: np.sort(si.best_sources["flux"]),
        "data": lambda: si.data.filled(-1),
        "mask": lambda: si.mask,
    }[name]
    return f(), (L, z, sh)


def fields(a):
    return [None if f is None else np.asarray(f(*PTS)) for f in a]


def psf_val(r):
    a, b = r
    out = fields(a)
    for p in b:
        out.append(p if isinstance(p, np.ndarray) else np.array(p.parameters))
    return out


def flat(v):
    return v if isinstance(v, list) else [v]


def same(a, b):
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return "%d elements instead of %d" % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if (x is None) != (y is None):
            return "element %d: %s instead of %s" % (i, type(x), type(y))
        if x is not None and not lib.close(x, y, 1e-6):
            return "element %d: %s" % (i, lib.dist(x, y))
    return None


def clone(si):
    new = object.__new__(type(si))
    memo = {id(si): new}
    for k, v in si.__dict__.items():
        try:
            new.__dict__[k] = copy.deepcopy(v, memo)
        except Exception:
            new.__dict__[k] = v
    return lib.own_files(si, new)


def dig(v, hh, depth=0):
    if isinstance(v, np.ma.MaskedArray):
        dig(np.asarray(v.data), hh)
        dig(np.ma.getmaskarray(v), hh)
    elif isinstance(v, np.ndarray):
        hh.update(repr((v.dtype, v.shape)).encode())
        hh.update(np.ascontiguousarray(v).tobytes())
    elif isinstance(v, (str, bytes, int, float, complex, bool, type(None), np.generic, slice)):
        hh.update(repr(v).encode())
    elif isinstance(v, (list, tuple)):
        hh.update(b"[%d" % len(v))
        for x in v:
            dig(x, hh, depth + 1)
    elif hasattr(v, "parameters"):
        dig(np.asarray(v.parameters), hh)
    else:
        hh.update(type(v).__name__.encode())


def canon(si, m):
    hh = hashlib.blake2b(repr(m).encode(), digest_size=12)
    for k in sorted(si.__dict__):
        hh.update(k.encode())
        if k == "dbname":
            lib.stamp_files(si, hh)
        else:
            dig(si.__dict__[k], hh)
    return hh.hexdigest()


def cases(tier):
    out = []
    for kind in images(tier):
        if tier == "quick":
            d1 = 5 if kind in ("variable", "gauss") else 4
            d2 = 3 if kind == "masked" else 2
        else:
            d1, d2 = 8, 4
        alpha = GAUSS if kind == "gauss" else SETTINGS
        full = GAUSS if kind == "gauss" else FULL
        for op in alpha:
            out.append(dict(kind=kind, first=op, alpha="settings", depth=d1))
        for op in full:
            out.append(dict(kind=kind, first=op, alpha="full", depth=d2))
    return out


_oracle = {}


def oracle(kind, op, m):
    m = (m[0], m[1], m[2] if m[2] in ASKED else None)
    if op in ("psf:s", "psf:t"):
        op = "psf"
    key = (kind, op, m)
    if key not in _oracle:
        si = make(kind)
        if m[2] in ASKED:
            si.get_variable_psf(shape=ASKED[m[2]])
        si.inf_loss, si.zp = m[:2]
        _oracle[key] = copy.deepcopy(apply(si, op, m)[0])
    return _oracle[key]


CASE_TIMEOUT = 600
MAXSTATES = {"settings": 400, "full": 400}


def run(case, rec):
    kind, depth = case["kind"], case["depth"]
    if kind == "gauss":
        alpha = GAUSS
    else:
        alpha = SETTINGS if case["alpha"] == "settings" else FULL
    root = make(kind)
    m0 = (root.inf_loss, root.zp, None)
    seen = set()
    frontier = []

    def step(si, m, hist, op):
        if m[2] == "best" and op in ("psf:s", "psf:t"):
            return
        new = clone(si)
        with rec.guard("history %s" % (hist + [op])):
            val, m2 = apply(new, op, m)
            rec.trans()
            if val is not None:
                # the settings in force are those after the call
                ref = oracle(kind, op, m2)
                rec.eval((kind, canon_key(hist), op))
                bad = same(val, ref)
                if bad:
                    rec.violate("stale:" + op.split(":")[0],
                                "%s after %s differs from a fresh image: %s" % (op, hist, bad))
            c = canon(new, m2)
            if c not in seen:
                seen.add(c)
                rec.state((kind, c))
                frontier.append((new, m2, hist + [op]))
                return
        new._clean()

    def canon_key(hist):
        return tuple(hist)

    step(root, m0, [], case["first"])
    while frontier and len(rec.violations) < 5:
        si, m, hist = frontier.pop(0)
        if len(hist) >= depth:
            continue
        for op in alpha:
            step(si, m, hist, op)
        si._clean()
    rec.trace(rec.counts["transitions"])
    rec.sample(dict(kind=kind, history=hist, states=len(seen)))

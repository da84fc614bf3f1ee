"""C08: temporary star-stamp files are private to an image and removed with it.

States are sets of live images with their files; transitions are operations of
the real code: create an image, extract its stamps, query it, leave its context
normally or by an exception, drop it without leaving.  The files are what
appears below the temporary directory of the process.
"""
import errno
import gc
import itertools
import json
import os
import shutil
import signal
import tempfile

import numpy as np

from mc import lib

LEVEL = "model_checking"
RULE = (
    "evaluation = one step of one history executed on the real code, followed by the check of all "
    "temporary files and of the answers; distinct = (history prefix, fault)"
)
BOUNDS = {
    "quick": "every history of 6 operations over 2 images and of 5 over 3; at every release in the histories of 4 "
             "over 2 images, every failing removal with 3 errors, and every subset of the files already gone; a failing write at every stamp; "
             "every interleaving of the steps of two forked processes (4 and 4) and of three (3 each)",
    "thorough": "histories of 8 over 2 images and 7 over 3; faults in the histories of 6; two forked processes with 6 steps each",
}
ASSUMPTIONS = ["two images never live at the same address in one process while both are alive"]

CLASSES = ["SingleImage", "SingleImageGaussPSF", "SingleImage"]


class Boom(Exception):
    pass


class HardBoom(BaseException):
    pass


BODY = [Boom, ValueError, KeyboardInterrupt, SystemExit, HardBoom, OSError, FileNotFoundError, GeneratorExit]


def pixels(slot):
    n, m = [(30, 30), (30, 42), (30, 30)][slot]
    return lib.scene(n, m, seed=20 + slot, step=12, off=9, var=0.5, sig=1.2 + 0.1 * slot)


def new(slot):
    return getattr(lib.single_image, CLASSES[slot])(pixels(slot), stamp_shape=(7, 7))


def ask(im):
    """What an image answers from its files, the stamps themselves included
    when they can be read."""
    # of the Gaussian kind too: its fits are slow, its stamps are what matters
    a, b = lib.pi.SingleImage.get_variable_psf(im, 0.01)
    out = [np.array(x) for x in b if isinstance(x, np.ndarray)]
    out.append(np.array(im.cov_matrix))
    n = im.n_sources
    if hasattr(im, "db"):
        out += [np.array(im.db.load(k)[0]) for k in range(n)]
    return out


_ref = {}


def reference(slot):
    if slot not in _ref:
        im = new(slot)
        _ref[slot] = ask(im)
        im._clean()
        clear()
    return _ref[slot]


def listing():
    out = {}
    for base, _, names in os.walk(lib.SCRATCH):
        for n in names:
            p = os.path.join(base, n)
            try:
                out[p] = os.stat(p).st_size
            except OSError:
                pass
    return out


_start = None


def clear():
    """Removes what a history left, so that the next one starts alike."""
    gc.collect()
    for p in listing():
        if p not in _start:
            os.unlink(p)


# ---------------------------------------------------------------------------
# the world of one history
# ---------------------------------------------------------------------------
class World:
    def __init__(self, rec, n):
        self.rec, self.n = rec, n
        self.im = [None] * n
        self.state = ["none"] * n  # none, new, used, released
        self.owned = [set() for _ in range(n)]
        self.strays = set()  # of dropped images
        self.known = set(listing())
        self.trail = []

    def legal(self):
        ops = []
        born = [s != "none" for s in self.state]
        for i in range(self.n):
            s = self.state[i]
            if s == "none":
                if all(born[:i]):
                    ops.append(("C", i))
            elif s == "released":
                ops += [("X", i), ("C", i)]
            else:
                ops += [("E", i)] if s == "new" else []
                ops += [("Q", i), ("X", i), ("R", i), ("D", i)]
        return ops

    def key(self):
        return tuple(self.state), tuple(len(o) for o in self.owned), len(self.strays)

    def fail(self, key, msg):
        self.rec.violate(key, "%s: after %s" % (msg, " ".join("%s%d" % t[:2] + ("".join(map(str, t[2:]))) for t in self.trail)))
        return False

    def step(self, op, i, *extra):
        rec = self.rec
        self.trail.append((op, i) + extra)
        rec.eval(tuple(self.trail))
        rec.trans()
        before = set(listing())
        try:
            self.do(op, i, *extra)
        except Exception as e:
            import traceback

            self.fail("exception", "unexpected %s: %s" % (type(e).__name__, str(e)[:200]))
            rec.violations[-1]["detail"] = traceback.format_exc()[-1500:]
            return False
        rec.state(self.key())
        return self.check(op, i, before)

    def do(self, op, i, what=None):
        if op == "C":
            self.im[i] = None
            self.im[i] = new(i)
            self.state[i], self.owned[i] = "new", set()
        elif op == "E":
            self.im[i].n_sources
            self.state[i] = "used"
        elif op == "Q":
            got = ask(self.im[i])
            self.state[i] = "used"
            want = reference(i)
            if len(got) != len(want) or not all(lib.close(a, b, 1e-9) for a, b in zip(got, want)):
                self.fail("answer", "image %d answers from other stamps" % i)
        elif op == "X":
            with self.im[i] as x:
                if x is not self.im[i]:
                    self.fail("enter", "the context gives another object")
            self.state[i] = "released"
        elif op == "R":
            exc = (what or Boom)("body")
            try:
                with self.im[i]:
                    raise exc
            except BaseException as e:
                if e is not exc:
                    self.fail("replaced", "the exception %r of the context became %r" % (exc, e))
            else:
                self.fail("swallowed", "the exception %r of the context was swallowed" % exc)
            self.state[i] = "released"
        elif op == "D":
            self.im[i] = None
            gc.collect()
            self.strays |= self.owned[i]
            self.state[i], self.owned[i] = "none", set()

    def check(self, op, i, before, spared=()):
        now = set(listing())
        fresh = now - before
        self.owned[i] |= fresh & now if self.state[i] in ("new", "used") else set()
        if self.state[i] == "released":
            left = {p for p in (self.owned[i] | fresh) & now if p not in spared}
            if left:
                return self.fail("left", "files of image %d left behind: %s" % (i, sorted(map(os.path.basename, left))))
            self.owned[i] = set()
        for j in range(self.n):
            gone = self.owned[j] - now
            if j != i and gone:
                return self.fail("foreign", "files of image %d lost by an operation on %d: %s" % (j, i, sorted(map(os.path.basename, gone))))
        for j in range(self.n):
            for k in range(j):
                both = self.owned[j] & self.owned[k]
                if both:
                    return self.fail("shared", "images %d and %d share %s" % (k, j, sorted(both)))
        if (self.known - now):
            return self.fail("others", "files that are no stamps were removed: %s" % sorted(self.known - now))
        return True

    def finish(self):
        """Every image still alive must be usable and then leave nothing."""
        for i in range(self.n):
            if self.state[i] in ("new", "used"):
                if not (self.step("Q", i) and self.step("X", i)):
                    break


def histories(n, depth):
    """All legal histories, of a model of the operation alphabet."""
    out = []

    def grow(trail, state):
        if len(trail) == depth:
            out.append(list(trail))
            return
        w = World.__new__(World)
        w.n, w.state = n, state
        for op, i in w.legal():
            s = list(state)
            s[i] = {"C": "new", "E": "used", "Q": "used", "X": "released", "R": "released", "D": "none"}[op]
            grow(trail + [(op, i)], s)

    grow([], ["none"] * n)
    return out


def cases(tier):
    out = []
    q = tier == "quick"
    for n, depth in ((2, 6 if q else 8), (3, 5 if q else 7)):
        shards = 16 if q else 64
        for s in range(shards):
            out.append(dict(kind="histories", images=n, depth=depth, shard=s, shards=shards))
    for s in range(8):
        out.append(dict(kind="faults", images=2, depth=4 if q else 6, shard=s, shards=8))
    out.append(dict(kind="writes"))
    out.append(dict(kind="bodies"))
    for a in range(8):
        out.append(dict(kind="fork", steps=[4, 4] if q else [6, 6], shard=a, shards=8))
        out.append(dict(kind="fork", steps=[3, 3, 3], shard=a, shards=8))
    return out


CASE_TIMEOUT = 800


def run(case, rec):
    global _start
    if _start is None:
        _start = set(listing())
        gc.collect()
        gc.freeze()
    for i in range(3):
        reference(i)
    dict(histories=run_histories, faults=run_faults, writes=run_writes, bodies=run_bodies, fork=run_fork)[case["kind"]](case, rec)


def run_histories(case, rec):
    hs = histories(case["images"], case["depth"])
    # the last steps of the creation and dropping kind say nothing more
    hs = [h for h in hs if h[-1][0] not in "CD"]
    for h in hs[case["shard"]:: case["shards"]]:
        w = World(rec, case["images"])
        if all(w.step(*t) for t in h):
            w.finish()
        rec.trace()
        del w
        clear()
        if len(rec.violations) > 5:
            break
    rec.more("histories", len(hs) if case["shard"] == 0 else 0)
    rec.sample(dict(history=h))


class Removal:
    """The k-th removal of a file fails; nothing is removed then."""

    def __init__(self, k, err):
        self.k, self.err, self.n, self.hit = k, err, 0, None
        self.real = {}

    def __enter__(self):
        for name in ("remove", "unlink"):
            real = getattr(os, name)
            self.real[name] = real

            def fn(path, *a, _real=real, **kw):
                self.n += 1
                if self.n == self.k:
                    self.hit = os.fspath(path)
                    raise OSError(self.err, os.strerror(self.err), self.hit)
                return _real(path, *a, **kw)

            setattr(os, name, fn)
        return self

    def __exit__(self, *a):
        for name, real in self.real.items():
            setattr(os, name, real)
        return False


def run_faults(case, rec):
    hs = [h for h in histories(case["images"], case["depth"]) if h[-1][0] in "XR"]
    for h in hs[case["shard"]:: case["shards"]]:
        i = h[-1][1]
        used = False
        for op, j in h[:-1]:
            if j == i:
                used = {"C": False, "E": True, "Q": True, "X": False, "R": False, "D": False}[op]
        errs = [errno.EACCES, errno.EIO, errno.EBUSY] if used else [errno.ENOENT]
        for err in errs:
            for k in (1, 2, 3):
                w = World(rec, case["images"])
                if not all(w.step(*t) for t in h[:-1]):
                    break
                files = set(w.owned[i])
                before = set(listing())
                w.trail.append(("%s!%s@%d" % (h[-1][0], errno.errorcode[err], k), i))
                rec.eval(tuple(w.trail))
                rec.trans()
                try:
                    with Removal(k, err) as f:
                        w.do(h[-1][0], i)
                except Exception as e:
                    w.fail("escaped", "a failing removal gets out of the context as %r" % e)
                    continue
                rec.more("faults", f.hit is not None)
                if w.check(h[-1][0], i, before, spared={f.hit}):
                    if f.hit is None or f.hit in files or f.hit not in before:
                        w.finish()
                    else:
                        w.fail("foreign", "tries to remove %s" % f.hit)
                rec.trace()
                del w
                clear()
        # files which are gone before
        if used:
            for pick in (1, 2, 3):
                w = World(rec, case["images"])
                if not all(w.step(*t) for t in h[:-1]):
                    break
                files = sorted(w.owned[i])
                for b, p in enumerate(files):
                    if pick >> b & 1:
                        os.unlink(p)
                w.owned[i] -= {p for b, p in enumerate(files) if pick >> b & 1}
                before = set(listing())
                w.trail.append((h[-1][0], i, "gone%d" % pick))
                rec.eval(tuple(w.trail))
                rec.trans()
                try:
                    w.do(h[-1][0], i)
                except Exception as e:
                    w.fail("escaped", "a file already gone makes the context end with %r" % e)
                    continue
                if w.check(h[-1][0], i, before):
                    w.finish()
                rec.trace()
                del w
                clear()
        if len(rec.violations) > 5:
            break
    rec.sample(dict(case, last=h))


def run_writes(case, rec):
    """Writing the k-th stamp fails; the error gets out, nothing stays, and
    the image answers as ever when asked again."""
    import tinynpydb

    for slot in range(3):
        im = new(slot)
        total = im.n_sources
        im._clean()
        for k in range(total):
            for again in (False, True):
                w = World(rec, 3)
                for i in range(slot + 1):
                    w.step("C", i)
                before = set(listing())
                real = tinynpydb.NumPyDB.dump
                count = [0]

                def dump(self, *a, **kw):
                    count[0] += 1
                    if count[0] == k + 1:
                        raise OSError(errno.ENOSPC, "no space left")
                    return real(self, *a, **kw)

                w.trail.append(("E!write%d" % k, slot))
                rec.eval(tuple(w.trail) + (again,))
                rec.trans()
                tinynpydb.NumPyDB.dump = dump
                out = None
                try:
                    if again:
                        try:
                            w.im[slot].n_sources
                        except OSError as e:
                            out = e
                    else:
                        try:
                            with w.im[slot] as im:
                                im.n_sources
                        except OSError as e:
                            out = e
                        w.state[slot] = "released"
                except Exception as e:
                    w.fail("replaced", "the failing write came out as %r" % e)
                finally:
                    tinynpydb.NumPyDB.dump = real
                if count[0] > k and (out is None or out.errno != errno.ENOSPC):
                    w.fail("swallowed", "the failing write was lost: %r" % out)
                if w.check("E", slot, before):
                    if again:
                        w.owned[slot] = set(listing()) - before
                        w.step("Q", slot) and w.step("X", slot)
                    w.finish()
                rec.trace()
                del w
                im = None
                clear()
    rec.sample(dict(case, stamps=total))


def run_bodies(case, rec):
    """Every kind of exception, at every depth of nested contexts."""
    for exc in BODY:
        for use in itertools.product((0, 1), repeat=3):
            for at in range(3):
                w = World(rec, 3)
                for i in range(3):
                    w.step("C", i)
                    if use[i]:
                        w.step("E", i)
                what = exc("body")
                w.trail.append(("nest %s %d" % (exc.__name__, at), 0))
                rec.eval(tuple(w.trail))
                rec.trans()
                try:
                    try:
                        with w.im[0]:
                            if at == 0:
                                raise what
                            with w.im[1]:
                                if at == 1:
                                    raise what
                                with w.im[2]:
                                    raise what
                    except BaseException as e:
                        if e is not what:
                            w.fail("replaced", "%r became %r" % (what, e))
                    else:
                        w.fail("swallowed", "%r was swallowed" % what)
                except Exception as e:
                    w.fail("replaced", repr(e))
                now = set(listing())
                for i in range(3):
                    left = w.owned[i] & now
                    if i <= at:
                        if left:
                            w.fail("left", "files of image %d left behind" % i)
                        w.state[i], w.owned[i] = "released", set()
                    elif left != w.owned[i]:
                        w.fail("foreign", "files of image %d lost" % i)
                w.finish()
                rec.trace()
                del w
                clear()
    rec.sample(case)


# ---------------------------------------------------------------------------
# forked processes
# ---------------------------------------------------------------------------
STEPS = {3: ["CE", "Q", "X"], 4: ["C", "E", "Q", "X"], 6: ["C", "E", "Q", "Q", "X", "CEQX"]}


def child(slot, steps, r, w):
    """Runs one step for each byte read; answers with a line each."""
    im = None
    os.setpgid(0, 0)
    try:
        for st in steps:
            if not os.read(r, 1):
                break
            res = {"step": st}
            try:
                for c in st:
                    if c == "C":
                        im = new(slot)
                    elif c == "E":
                        im.n_sources
                    elif c == "Q":
                        got = ask(im)
                        want = _ref[slot]
                        res["answer"] = len(got) == len(want) and all(lib.close(a, b, 1e-9) for a, b in zip(got, want))
                    elif c == "X":
                        with im:
                            pass
            except BaseException as e:
                res["error"] = "%s: %s" % (type(e).__name__, str(e)[:200])
            os.write(w, (json.dumps(res) + "\n").encode())
    finally:
        os._exit(0)


def interleavings(counts):
    def grow(left, acc):
        if not any(left):
            yield tuple(acc)
            return
        for i, n in enumerate(left):
            if n:
                left[i] -= 1
                acc.append(i)
                yield from grow(left, acc)
                acc.pop()
                left[i] += 1

    return grow(list(counts), [])


def run_fork(case, rec):
    progs = [STEPS[n] for n in case["steps"]]
    plans = list(interleavings(case["steps"]))
    # an image of the parent, in use while the others come and go
    base = new(2)
    base.n_sources
    for plan in plans[case["shard"]:: case["shards"]]:
        procs = []
        before = set(listing())
        for k, steps in enumerate(progs):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(w1)
                os.close(r2)
                # same pixels, so that both allocate alike
                child(0 if k < 2 else 1, steps, r1, w2)
            os.close(r1)
            os.close(w2)
            procs.append([pid, w1, os.fdopen(r2), 0])
        try:
            owned = [set() for _ in progs]
            for n, k in enumerate(plan):
                pid, w1, out, pos = procs[k]
                seen = set(listing())
                os.write(w1, b"x")
                line = out.readline()
                st = progs[k][pos]
                procs[k][3] += 1
                rec.eval(("fork", tuple(case["steps"]), plan[: n + 1]))
                rec.trans()
                rec.state(("fork", tuple(case["steps"]), tuple(p[3] for p in procs)))
                what = "%d processes, schedule %s, step %s of process %d" % (len(progs), plan[: n + 1], st, k)
                if not line:
                    rec.violate("died", what + ": process ended")
                    break
                res = json.loads(line)
                if "error" in res:
                    rec.violate("exception", "%s: %s" % (what, res["error"]))
                    break
                if res.get("answer") is False:
                    rec.violate("answer", what + ": answers from other stamps")
                    break
                now = set(listing())
                owned[k] |= now - seen
                if st.endswith("X"):
                    if owned[k] & now:
                        rec.violate("left", what + ": files left")
                        break
                    owned[k] = set()
                lost = [j for j in range(len(progs)) if j != k and owned[j] - now]
                if lost or (before - now):
                    rec.violate("foreign", what + ": files of another process lost")
                    break
        finally:
            for p in procs:
                os.close(p[1])
                p[2].close()
            for p in procs:
                try:
                    os.kill(p[0], signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(p[0], 0)
        rec.trace()
        for p in set(listing()) - before:
            os.unlink(p)
        got = ask(base)
        if not all(lib.close(a, b, 1e-9) for a, b in zip(got, reference(2))):
            rec.violate("answer", "schedule %s: the image of the parent answers from other stamps" % (plan,))
        if len(rec.violations) > 5:
            break
    base._clean()
    clear()
    rec.sample(dict(case, plan=plan))

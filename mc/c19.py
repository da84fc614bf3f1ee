"""C19: cutting a sequence in chunks loses and repeats nothing."""
import numpy as np

from mc import lib

LEVEL = "exploration"
RULE = "evaluation = one sequence cut in chunks and put together again; distinct = (length, number of chunks, kind of sequence)"
BOUNDS = {
    "quick": "every length from 0 to 80 in every number of chunks from 1 to 90, for 12 kinds of sequence; 40 lengths up to 10^12 in 21 numbers of chunks for ranges",
    "thorough": "every length from 0 to 300 in every number of chunks from 1 to 310",
}


class Thing:
    """Cannot be ordered and is only equal to itself."""

    def __init__(self, i):
        self.i = i


class Odd:
    """Comparing it fails."""

    def __init__(self, i):
        self.i = i

    def __lt__(self, other):
        raise ValueError("no order")

    __gt__ = __le__ = __ge__ = __lt__


class Lazy:
    """A sequence with nothing more than length and slices."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, k):
        return self.items[k]


KINDS = {
    "list": lambda n: list(range(n)),
    "tuple": lambda n: tuple(range(n)),
    "down": lambda n: list(range(n, 0, -1)),
    "equal": lambda n: [7] * n,
    "array": lambda n: np.arange(n) * 1.5,
    "matrix": lambda n: np.arange(3 * n).reshape(n, 3),
    "string": lambda n: "".join(chr(65 + i % 26) for i in range(n)),
    "range": lambda n: range(n),
    "things": lambda n: [Thing(i) for i in range(n)],
    "odd": lambda n: [Odd(i) for i in range(n)],
    "arrays": lambda n: [np.full((2, 2), i % 3) for i in range(n)],
    "lazy": lambda n: Lazy([(i * 7) % 5 for i in range(n)]),
}


def cases(tier):
    n, m = (80, 90) if tier == "quick" else (300, 310)
    out = [dict(kind=k, top=n, chunks=m) for k in KINDS]
    out.append(dict(kind="large"))
    out.append(dict(kind="images"))
    return out


def token(x):
    if isinstance(x, (Thing, Odd)):
        return id(x)
    if isinstance(x, np.ndarray):
        return x.tobytes()
    return x


def judge(rec, seq, num, what, key):
    with rec.guard(what):
        n = len(seq)
        out = list(lib.utils.chunk_it(seq, num))
        rec.eval(key)
        if not rec.check(len(out) == num, "number", "%s: %d pieces" % (what, len(out))):
            return
        sizes = sorted(len(p) for p in out)
        rec.check(sum(sizes) == n and sizes[-1] - sizes[0] <= 1, "sizes", "%s: pieces of %s" % (what, sizes))
        rec.check(n < num or sizes[0] > 0, "empty", what + ": empty piece")
        # they are contiguous: each piece starts where another one ends
        whole = [token(v) for v in seq]
        left = [[token(v) for v in p] for p in out if len(p)]
        if len(set(map(repr, whole))) == n:
            start = {repr(p[0]): p for p in left}
            i = 0
            while i < n:
                p = start.get(repr(whole[i]))
                if not rec.check(p is not None and p == whole[i: i + len(p)], "pieces", "%s: there is no piece that starts at element %d" % (what, i)):
                    return
                i += len(p)
        else:
            rec.check(sorted(map(repr, sum(left, []))) == sorted(map(repr, whole)), "pieces", what + ": other elements")
            text = [repr(v) for v in whole]
            for p in left:
                q = [repr(v) for v in p]
                if not rec.check(any(text[i: i + len(q)] == q for i in range(n - len(q) + 1)), "pieces", what + ": a piece is not contiguous"):
                    return


def run(case, rec):
    if case["kind"] == "large":
        for n in [10**k + d for k in (2, 3, 4, 6, 9, 12) for d in (-7, -1, 0, 1, 3)] + [2**k - 1 for k in range(30, 40)]:
            for num in (1, 2, 3, 5, 6, 7, 8, 9, 11, 13, 17, 24, 31, 49, 50, 51, 64, 90, 93, 99, 100):
                what = "%d elements in %d chunks" % (n, num)
                with rec.guard(what):
                    out = list(lib.utils.chunk_it(range(n), num))
                    rec.eval(("large", n, num))
                    out.sort(key=lambda r: r.start)
                    ok = len(out) == num and out[0].start == 0 and out[-1].stop == n and all(a.stop == b.start for a, b in zip(out[:-1], out[1:]))
                    sizes = {len(r) for r in out}
                    rec.check(ok and max(sizes) - min(sizes) <= 1, "pieces", "%s: pieces of %s" % (what, sorted(sizes)[:3]))
        rec.sample(dict(kind="large"))
        return
    if case["kind"] == "images":
        ims = [lib.pi.SingleImage(lib.scene(40, seed=k, step=12), stamp_shape=(9, 9)) for k in range(7)]
        for n in range(8):
            for num in range(1, 10):
                given = ims[:n]
                what = "%d images in %d chunks" % (n, num)
                with rec.guard(what):
                    out = list(lib.utils.chunk_it(given, num))
                    rec.eval(("images", n, num))
                    ids = [[id(x) for x in p] for p in out]
                    rec.check(len(out) == num and sorted(sum(ids, [])) == sorted(id(x) for x in given), "pieces", what + ": pieces of %s" % [len(p) for p in out])
                    rec.check(given == ims[:n], "touched", what + ": the list changed")
        rec.sample(dict(kind="images"))
        return
    make = KINDS[case["kind"]]
    for n in range(case["top"] + 1):
        seq = make(n)
        for num in range(1, case["chunks"] + 1):
            judge(rec, seq, num, "%s of %d elements in %d chunks" % (case["kind"], n, num), (case["kind"], n, num))
        judge(rec, seq, np.int64(3), "%s of %d elements in numpy's 3 chunks" % (case["kind"], n), (case["kind"], n, "np"))
        if len(rec.violations) > 8:
            break
    rec.sample(dict(case))

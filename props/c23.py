"""C23: splitting sequences into chunks."""
import numpy as np
from hypothesis import strategies as st

from properimage import operations, utils
from properimage.operations import coadd
from properimage.single_image import SingleImage
from vf.core import Check, ensure
from vf.fields import render

RULE = ("Sequences of 0 to 4000 distinct or repeated elements of comparable, incomparable and "
        "array types in lists, tuples, ranges, strings and arrays, for drawn chunk counts; every "
        "count up to the length plus five for short sequences; the chunks coadd hands to its "
        "workers. Non-trivial: more than one chunk and element.")
ASSUMPTIONS = ["the order of the chunks among themselves is free"]


class Thing:
    """Comparable with nothing."""
    __hash__ = None

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        raise TypeError("no comparison")


KINDS = ["int", "float", "down", "str", "tuple", "range", "text", "bytes", "object", "dict",
         "array", "array2", "arrays", "mixed", "none", "user", "shuffled"]


class Seq:
    """Minimal sequence: length, item and slice."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, k):
        return Seq(self.items[k]) if isinstance(k, slice) else self.items[k]


def make(kind, n, seed=0):
    """A sequence of n distinct elements and a function to number them."""
    if kind == "float":
        return [i / 7.0 for i in range(n)], lambda e: int(round(e * 7))
    if kind == "down":
        return list(range(n))[::-1], lambda e: n - 1 - e
    if kind == "shuffled":
        p = np.random.default_rng(seed).permutation(n)
        where = {int(v): k for k, v in enumerate(p)}
        return [int(v) for v in p], lambda e: where[int(e)]
    if kind == "str":
        return ["%d" % i for i in range(n)], int
    if kind == "tuple":
        return tuple(range(n)), int
    if kind == "range":
        return range(n), int
    if kind == "text":
        return "".join(chr(0x100 + i) for i in range(n)), lambda e: ord(e) - 0x100
    if kind == "bytes":
        n = min(n, 256)
        return bytes(range(n)), int
    if kind == "object":
        return [Thing(i) for i in range(n)], lambda e: e.n
    if kind == "dict":
        return [{"n": i} for i in range(n)], lambda e: e["n"]
    if kind == "array":
        return np.arange(n) * 3, lambda e: int(e) // 3
    if kind == "array2":
        return np.arange(2 * n).reshape(n, 2), lambda e: int(e[0]) // 2
    if kind == "arrays":
        return [np.full((2, 2), i) for i in range(n)], lambda e: int(e[0, 0])
    if kind == "mixed":
        return [i if i % 2 else str(i) for i in range(n)], int
    if kind == "none":
        return [(None, i) for i in range(n)], lambda e: e[1]
    if kind == "user":
        return Seq(list(range(n))), int
    return list(range(n)), int


def verify(seq, number, num, what):
    n = len(seq)
    out = utils.chunk_it(seq, num)
    ensure(isinstance(out, list), "{}: the result is a {}", what, type(out).__name__)
    ensure(len(out) == num, "{}: {} chunks", what, len(out))
    idx = [[number(e) for e in (ch.items if isinstance(ch, Seq) else ch)] for ch in out]
    ensure(sum(map(len, idx)) == n, "{}: {} elements in the chunks", what, sum(map(len, idx)))
    flat = [k for ch in sorted((c for c in idx if c)) for k in ch]
    ensure(flat == list(range(n)), "{}: chunks are not contiguous runs of the input ({}...)", what,
           [c for c in idx][:6])
    size = [len(c) for c in idx]
    ensure(max(size) - min(size) <= 1, "{}: chunk lengths {}", what, sorted(set(size)))
    if n >= num:
        ensure(min(size) > 0, "{}: an empty chunk", what)


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(0, 30), st.integers(0, 400), st.integers(0, 4000)))
    return {"kind": draw(st.sampled_from(KINDS)), "n": n, "seed": draw(st.integers(0, 999)),
            "num": draw(st.one_of(st.integers(1, 12), st.integers(1, max(1, n)),
                                  st.integers(max(1, n - 2), n + 40))),
            "np": draw(st.booleans())}


def check_split(c, rec):
    seq, number = make(c["kind"], c["n"], c["seed"])
    num = np.int64(c["num"]) if c["np"] else c["num"]
    rec.nontrivial(len(seq) > 1 and num > 1)
    rec.label(c["kind"])
    verify(seq, number, num, "%d elements (%s) in %d chunks" % (len(seq), c["kind"], num))


def check_all(c, rec):
    seq, number = make(c["kind"], c["n"])
    rec.nontrivial(c["n"] > 1)
    for num in range(1, c["n"] + 6):
        verify(seq, number, num, "%d elements (%s) in %d chunks" % (c["n"], c["kind"], num))


def check_repeats(c, rec):
    rng = np.random.default_rng(c["seed"])
    seq = [int(v) for v in rng.integers(0, c["values"], c["n"])]
    keep = list(seq)
    out = utils.chunk_it(seq, c["num"])
    rec.nontrivial(c["n"] > 1 and c["num"] > 1)
    ensure(seq == keep, "the input is modified")
    ensure(len(out) == c["num"], "{} chunks", len(out))
    ensure(sorted(e for ch in out for e in ch) == sorted(seq), "elements are lost or repeated")
    text = "," + ",".join(map(str, seq)) + ","
    for ch in out:
        ensure(not ch or "," + ",".join(map(str, ch)) + "," in text,
               "a chunk is not a run of the input")
    size = [len(ch) for ch in out]
    ensure(max(size) - min(size) <= 1, "chunk lengths {}", sorted(size))


def check_coadd(c, rec):
    """Every image reaches exactly one worker."""
    real = getattr(operations, "process_chunk_joblib", None)
    if real is None:
        rec.label("gone")
        return
    f = {"h": 60, "w": 60, "seed": 5, "nseed": 6, "sig": 1.8, "sp": 19, "noise": 3.0,
         "bg": 100.0, "snr": [60, 200]}
    seen = []

    def spy(chunk, *a, **k):
        seen.append([id(i) for i in chunk])
        return real(chunk, *a, **k)

    imgs = [SingleImage(render(f, nseed=i)) for i in range(c["n"])]
    operations.process_chunk_joblib = spy
    try:
        coadd(imgs, align=False, n_procs=c["procs"])
    finally:
        operations.process_chunk_joblib = real
    if not seen:
        rec.label("single worker")
        return
    rec.nontrivial()
    want = sorted(id(i) for i in imgs)
    ensure(sorted(k for ch in seen for k in ch) == want, "the workers got {} images of {}",
           sum(map(len, seen)), len(imgs))
    ensure(all(seen), "a worker got no image")


pairs = st.fixed_dictionaries({"n": st.integers(0, 90), "kind": st.sampled_from(
    ["int", "array", "object", "text", "arrays"])})

CHECKS = [Check("split", cases(), check_split, 4000, 100000),
          Check("all", pairs, check_all, 250, 4000),
          Check("repeats", st.fixed_dictionaries({
              "n": st.integers(0, 200), "num": st.integers(1, 40), "values": st.integers(1, 6),
              "seed": st.integers(0, 10**6)}), check_repeats, 1500, 40000),
          Check("coadd", st.fixed_dictionaries({"n": st.integers(2, 9), "procs": st.integers(
              2, 12)}), check_coadd, 60, 600)]

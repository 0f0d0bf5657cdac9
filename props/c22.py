"""C22: the score-image catalogue against a flood-fill reference."""
import numpy as np
from astropy.stats import sigma_clipped_stats
from hypothesis import strategies as st

from properimage import utils
from properimage.operations import subtract
from properimage.single_image import SingleImageGaussPSF
from vf.core import Check, ensure
from vf.fields import fields, positions, render

RULE = ("Score images of drawn shape, scale and mean with noise and planted shapes (points, boxes, "
        "rings, diagonals, plateaus, at edges and corners, positive and negative), real score "
        "images with a transient, and drawn thresholds; compared with flood fill. Non-trivial: at "
        "least one region.")
ASSUMPTIONS = ["region centres are compared when all values of the region are positive",
               "significances within 1e-9 of the threshold are not generated"]


@st.composite
def cases(draw):
    u = st.integers(0, 1000).map(lambda v: v / 1000.0)
    shape = st.fixed_dictionaries({
        "k": st.sampled_from(["point", "box", "ring", "diag", "star", "comb", "gauss"]),
        "y": u, "x": u, "a": st.integers(1, 9), "b": st.integers(1, 9),
        "v": st.integers(-20, 60), "s": st.integers(0, 999)})
    return {"h": draw(st.integers(5, 70)), "w": draw(st.integers(5, 70)),
            "seed": draw(st.integers(0, 10**6)), "shapes": draw(st.lists(shape, max_size=8)),
            "noise": draw(st.sampled_from(["normal", "normal", "uniform", "smooth", "laplace"])),
            "scale": draw(st.sampled_from([1.0, 1e-6, 3e4])),
            "mean": draw(st.sampled_from([0.0, 0.0, 0.4, 3.0])),
            "thr": draw(st.one_of(st.none(), st.integers(5, 120).map(lambda v: v / 10.0))),
            "size": draw(st.sampled_from([None, 5, 11])),
            "dtype": draw(st.sampled_from(["f8", "f8", "f4"])),
            "factor": draw(st.sampled_from([0.5, 4.0, 1024.0, 3.7, 1e-3])),
            "more": draw(st.integers(1, 50).map(lambda v: v / 10.0))}


def paint_scores(c):
    rng = np.random.default_rng(c["seed"])
    h, w = c["h"], c["w"]
    if c["noise"] == "uniform":
        s = rng.uniform(-1.7, 1.7, (h, w))
    elif c["noise"] == "laplace":
        s = rng.laplace(0, 0.7, (h, w))
    else:
        s = rng.normal(0, 1, (h, w))
    if c["noise"] == "smooth":
        s = (s + np.roll(s, 1, 0) + np.roll(s, 1, 1) + np.roll(s, (1, 1), (0, 1))) / 2
    s = s + c["mean"]
    for t in c["shapes"]:
        y, x = int(t["y"] * (h - 1)), int(t["x"] * (w - 1))
        a, b, v = t["a"], t["b"], t["v"]
        sl = (slice(y, y + a), slice(x, x + b))
        k = t["k"]
        if k == "point":
            s[y, x] += v
        elif k == "box":
            s[sl] = v
        elif k == "ring":
            keep = s[y + 1:y + a - 1, x + 1:x + b - 1].copy()
            s[sl] = v
            s[y + 1:y + a - 1, x + 1:x + b - 1] = keep
        elif k == "diag":
            for d in range(a):
                if y + d < h and x + d < w:
                    s[y + d, x + d] = v
        elif k == "comb":
            s[y:y + a:2, x:x + b] = v
            s[y:y + a, x] = v
        elif k == "star":
            s[sl] += np.random.default_rng(t["s"]).uniform(0, abs(v) + 1, s[sl].shape)
        else:
            yy, xx = np.indices(s.shape)
            s += v * np.exp(-0.5 * ((yy - y - 0.3) ** 2 + (xx - x - 0.6) ** 2) / (0.3 * a + 0.5) ** 2)
    return (s * c["scale"]).astype(c["dtype"])


def regions(above):
    """Edge-connected regions of a boolean map, by flood fill."""
    h, w = above.shape
    seen = np.zeros_like(above)
    out = []
    for y0, x0 in zip(*np.nonzero(above)):
        if seen[y0, x0]:
            continue
        seen[y0, x0] = True
        stack, reg = [(y0, x0)], []
        while stack:
            y, x = stack.pop()
            reg.append((y, x))
            for p, q in ((y - 1, x), (y + 1, x), (y, x - 1), (y, x + 1)):
                if 0 <= p < h and 0 <= q < w and above[p, q] and not seen[p, q]:
                    seen[p, q] = True
                    stack.append((p, q))
        out.append(np.array(reg))
    return out


def verify(S, thr, cat, what):
    """Match the catalogue with the reference; None if ambiguous."""
    mean, _, std = sigma_clipped_stats(S, maxiters=3)
    sig = (S.astype(float) - float(mean)) / float(std) if std else np.zeros(S.shape)
    tol = 1e-9 if S.dtype.itemsize == 8 else 1e-4
    if (np.abs(sig - thr) < tol * (1 + abs(thr))).any():
        return None
    regs = regions(sig > thr)
    ensure(len(cat) == len(regs), "{}: {} entries for {} regions above {}", what, len(cat),
           len(regs), thr)
    want, loose = [], 0
    for r in regs:
        v = S[r[:, 0], r[:, 1]].astype(float)
        if (v <= 0).any():
            loose += 1
            continue
        want.append((r[:, 0] * v).sum() / v.sum()), want.append((r[:, 1] * v).sum() / v.sum())
    want = np.array(want).reshape(-1, 2)
    left = list(range(len(cat)))
    got = np.array([[float(e[1]), float(e[0])] for e in cat]).reshape(-1, 2)
    ptol = 1e-6 if S.dtype.itemsize == 8 else 1e-3
    for cy, cx in want:
        d = np.abs(got[left] - (cy, cx)).max(axis=1) if left else np.array([])
        ensure(len(d) and d.min() < ptol, "{}: no entry at the region centred on row {}, column {} "
               "(entries {})", what, cy, cx, [list(map(float, e[:2])) for e in cat][:5])
        k = left.pop(int(d.argmin()))
        ensure(len(cat[k]) == 3, "{}: an entry has {} values", what, len(cat[k]))
        x, y, s = (float(q) for q in cat[k])
        ensure(0 <= x <= S.shape[1] - 1 + ptol and 0 <= y <= S.shape[0] - 1 + ptol,
               "{}: an entry lies outside the frame", what)
        opts = {sig[min(int(y + a), S.shape[0] - 1), min(int(x + b), S.shape[1] - 1)]
                for a in (-ptol, ptol) for b in (-ptol, ptol)}
        e = min(abs(s - o) for o in opts)
        ensure(e < 1e-6 * (1 + abs(s)) if S.dtype.itemsize == 8 else e < 1e-3 * (1 + abs(s)),
               "{}: significance {} instead of {} at {}, {}", what, s, opts, x, y)
    ensure(len(left) == loose, "{}: {} entries off every region centre", what, len(left) - loose)
    return len(regs)


def run(S, thr, size=None):
    kw = {} if thr is None else {"threshold": thr}
    if size is not None:
        kw["neighborhood_size"] = size
    keep = S.copy()
    cat = utils.find_S_local_maxima(S, **kw)
    ensure(np.array_equal(S, keep, equal_nan=True), "the score image is modified")
    return cat


def check_catalogue(c, rec):
    S = paint_scores(c)
    thr = 2.5 if c["thr"] is None else c["thr"]
    n = verify(S, thr, run(S, c["thr"], c["size"]), "catalogue")
    if n is None:
        rec.label("ambiguous")
        return
    rec.nontrivial(n > 0)
    rec.label("%d regions" % min(n, 10))
    f = c["factor"]
    a, b = run(S, c["thr"]), run(S * S.dtype.type(f), c["thr"])
    mean, _, std = sigma_clipped_stats(S, maxiters=3)
    near = np.abs((S - mean) / std - thr) < 1e-4
    if std and not near.any() and (S[(S - mean) / std > thr] > 0).all():
        ensure(len(a) == len(b), "scaling by {} changes {} entries into {}", f, len(a), len(b))
        if len(a):
            u, v = (np.array([(float(e[0]), float(e[1])) for e in q]) for q in (a, b))
            tol = 1e-6 if S.dtype.itemsize == 8 else 1e-2
            d = np.abs(u[:, None] - v[None]).max(axis=2)
            d = max(d.min(axis=0).max(), d.min(axis=1).max())
            ensure(d < tol, "scaling by {} moves entries by {}", f, d)
    high = run(S, thr + c["more"])
    verify(S, thr + c["more"], high, "higher threshold")
    ensure(len(high) == 0 or len(a) > 0, "a higher threshold adds entries to an empty catalogue")


@st.composite
def real_cases(draw):
    u = st.integers(0, 100).map(lambda v: v / 100.0)
    return {"f": draw(fields(90, 130, sp=(28, 32), snr=(60, 300))), "at": [draw(u), draw(u)],
            "thr": draw(st.sampled_from([None, 3.0, 5.0])),
            "flux": draw(st.integers(80, 300))}


def check_transient(c, rec):
    f = c["f"]
    pos = positions(f)
    y = 16 + c["at"][0] * (f["h"] - 32)
    x = 16 + c["at"][1] * (f["w"] - 32)
    if len(pos) < 8 or np.hypot(pos[:, 0] - y, pos[:, 1] - x).min() < 9:
        rec.label("crowded")
        return
    flux = c["flux"] * f["noise"] * 2 * np.pi * f["sig"] ** 2
    new = render(f, extra=[(y, x, flux)], nseed=f["nseed"] + 1)
    S = subtract(SingleImageGaussPSF(render(f)), SingleImageGaussPSF(new), beta=False,
                 shift=False)[2]
    S = np.ma.getdata(np.real(S))
    cat = run(S, c["thr"])
    verify(S, 2.5 if c["thr"] is None else c["thr"], cat, "real catalogue")
    rec.nontrivial()
    best = max(cat, key=lambda e: e[2], default=None)
    ensure(best is not None, "an empty catalogue")
    d = min(np.hypot(e[0] - x, e[1] - y) for e in cat)
    ensure(d < 2.5, "no entry within 2.5 pixels of the transient at column {:.1f}, row {:.1f}: {}",
           x, y, [tuple(map(float, e)) for e in cat][:5])
    rec.label("%d entries" % min(len(cat), 10))


CHECKS = [Check("catalogue", cases(), check_catalogue, 2500, 60000),
          Check("transient", real_cases(), check_transient, 120, 3000)]

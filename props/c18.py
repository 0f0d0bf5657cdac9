"""C18: relative transparencies against the generating flux scales."""
import numpy as np
from hypothesis import strategies as st

from properimage import utils
from properimage.operations import coadd
from properimage.single_image import SingleImage
from vf.core import Check, ensure
from vf.fields import fields, positions, render

RULE = ("Images whose catalogues are synthetic: drawn stars with drawn flux scales per image, "
        "per-star scatter, missing, spurious and shuffled entries, and images rendered with drawn "
        "scales; histories of earlier calls on subsets, permutations and masters. Non-trivial: "
        "two images with at least one common star.")
ASSUMPTIONS = ["distances within 0.001 pixels of the matching radius are not generated",
               "magnitudes are compared at the tolerance of the sparse solver"]
RADIUS = 2.0
BASE = {}


def image(cat):
    """An image with the given catalogue: rows of x, y, flux."""
    if not BASE:
        f = {"h": 72, "w": 80, "seed": 3, "nseed": 4, "sig": 1.8, "sp": 18, "noise": 3.0,
             "bg": 100.0, "snr": [60, 200]}
        BASE["pix"] = render(f)
    img = SingleImage(BASE["pix"].copy())
    real = img.best_sources
    new = np.zeros(len(cat), dtype=real.dtype)
    for n in real.dtype.names:
        if len(cat):
            new[n] = real[n][0]
    for n, col in zip(("x", "y", "flux"), np.array(cat, float).reshape(-1, 3).T):
        new[n] = col
    img.update_sources(new)
    return img


@st.composite
def cases(draw):
    n = draw(st.integers(1, 6))
    return {"stars": draw(st.integers(1, 30)), "seed": draw(st.integers(0, 10**6)),
            "scales": [draw(st.integers(50, 5000)) / 1000.0 for _ in range(n)],
            "scatter": draw(st.sampled_from([0.0, 0.0, 0.05, 0.5])),
            "jitter": draw(st.sampled_from([0.0, 0.3, 0.9, 1.3])),
            "missing": [draw(st.sampled_from([0.0, 0.0, 0.1, 0.5, 1.0])) for _ in range(n)],
            "spurious": [draw(st.integers(0, 8)) for _ in range(n)],
            "spacing": draw(st.sampled_from([12.0, 12.0, 3.0])),
            "master": draw(st.booleans()),
            "history": draw(st.lists(st.tuples(st.sampled_from(["sub", "perm", "master", "all"]),
                                               st.integers(0, 10**6)), max_size=3))}


def catalogues(c):
    """Catalogue rows of every image."""
    rng = np.random.default_rng(c["seed"])
    k = int(np.ceil(np.sqrt(c["stars"]))) or 1
    s = c["spacing"]
    base = np.array([[20 + s * (i % k), 20 + s * (i // k)] for i in range(c["stars"])], float)
    base = base.reshape(-1, 2) + rng.uniform(-0.15, 0.15, (len(base), 2)) * s / 3
    flux = 10 ** rng.uniform(2, 5, len(base))
    out = []
    for scale, miss, spur in zip(c["scales"], c["missing"], c["spurious"]):
        keep = rng.uniform(size=len(base)) >= miss
        xy = base + rng.uniform(-1, 1, base.shape) * c["jitter"] / np.sqrt(2)
        fl = flux * scale * np.exp(rng.normal(0, 1, len(flux)) * c["scatter"])
        rows = np.column_stack([xy, fl])[keep]
        far = np.column_stack([-40 - 9 * np.arange(spur), rng.uniform(0, 90, spur),
                               10 ** rng.uniform(2, 6, spur)])
        if rng.uniform() < 0.5 and spur:
            far[:, 1] = 7.0  # spurious stars common to several images
        elif spur:
            far[:, 0] -= rng.uniform(0, 1e4)
        rows = np.vstack([rows, far])
        out.append(rows[rng.permutation(len(rows))])
    return out


def match(a, b):
    """Index in a of each mutual nearest neighbour pair, as a dict a -> b."""
    if not len(a) or not len(b):
        return {}
    d = np.hypot(a[:, None, 0] - b[None, :, 0], a[:, None, 1] - b[None, :, 1])
    out = {}
    for i in range(len(a)):
        j = int(d[i].argmin())
        if d[i, j] < RADIUS and int(d[:, j].argmin()) == i:
            out[i] = j
    return out


def expected(cats):
    """Flux scales relative to the first catalogue and star magnitudes."""
    pairs = [match(cats[0], b) for b in cats[1:]]
    common = [i for i in range(len(cats[0])) if all(i in p for p in pairs)]
    # the matching must not be ambiguous
    if not common:
        return np.ones(len(cats)), None, 0
    mags = np.array([[-2.5 * np.log10(cats[0][i, 2]) for i in common]] +
                    [[-2.5 * np.log10(b[p[i], 2]) for i in common]
                     for b, p in zip(cats[1:], pairs)])
    # two-way additive model: closed-form least squares
    zp = 10 ** (-0.4 * (mags.mean(axis=1) - mags[0].mean()))
    return zp, mags.mean(axis=0), len(common)


def clear(cats):
    """No distance close to the radius, no near ties."""
    for a in cats:
        for b in cats:
            if a is b or not len(a) or not len(b):
                continue
            d = np.hypot(a[:, None, 0] - b[None, :, 0], a[:, None, 1] - b[None, :, 1])
            if (np.abs(d - RADIUS) < 1e-3).any():
                return False
    return True


def same_rows(cat, rows):
    got = np.column_stack([cat["x"], cat["y"], cat["flux"]])
    got = got[np.lexsort(got.T)]
    want = rows[np.lexsort(rows.T)]
    return got.shape == want.shape and np.array_equal(got, want)


def verify(imgs, cats, what, **kw):
    zps, mm = utils.transparency(imgs, **kw)
    want, mags, q = expected(cats)
    ensure(np.shape(zps) == want.shape, "{}: {} zero points for {} images", what, np.shape(zps),
           len(cats))
    d = np.abs(np.log(np.asarray(zps, float) / want)).max()
    ensure(np.isfinite(zps).all() and d < 2e-4, "{}: zero points {} instead of {} ({} common stars)",
           what, list(map(float, zps)), list(want), q)
    if mags is not None:
        mm = np.asarray(mm, float)
        ensure(mm.shape == mags.shape, "{}: {} mean magnitudes for {} stars", what, mm.shape, q)
        # one per common star, in the order of the master catalogue then
        mm, mags = np.sort(mm), np.sort(mags)
        d = np.abs((mm - mm.mean()) - (mags - mags.mean())).max()
        ensure(d < 1e-3, "{}: mean magnitudes differ by {}", what, d)
    return zps, q


def check_zps(c, rec):
    cats = catalogues(c)
    if not clear(cats):
        rec.label("unclear")
        return
    imgs = [image(k) for k in cats]
    n = len(imgs)
    for what, seed in c["history"]:
        rng = np.random.default_rng(seed)
        rec.label("history")
        if what == "sub":
            sel = [int(k) for k in rng.choice(n, rng.integers(1, n + 1), replace=False)]
            verify([imgs[k] for k in sel], [cats[k] for k in sel], "earlier call on a subset")
        elif what == "perm":
            sel = [int(k) for k in rng.permutation(n)]
            verify([imgs[k] for k in sel], [cats[k] for k in sel], "earlier permuted call")
        elif what == "master" and n > 1:
            k = int(rng.integers(n))
            rest = [j for j in range(n) if j != k]
            verify([imgs[j] for j in rest], [cats[k]] + [cats[j] for j in rest],
                   "earlier call with a master", master=imgs[k])
        else:
            verify(imgs, cats, "earlier call")
    if c["master"] and n > 1:
        _, q = verify(imgs[1:], cats, "with a master", master=imgs[0])
    else:
        _, q = verify(imgs, cats, "images")
    rec.nontrivial(n > 1 and q > 0)
    rec.label("%d images" % n, "no common" if not q else "common")
    for k, (im, rows) in enumerate(zip(imgs, cats)):
        ensure(same_rows(im.best_sources, rows),
               "the catalogue of image {} lost or changed stars", k)


@st.composite
def sky_cases(draw):
    n = draw(st.integers(2, 5))
    return {"f": draw(fields(90, 130, sp=(24, 30), snr=(100, 500))),
            "scales": [draw(st.integers(25, 400)) / 100.0 for _ in range(n)],
            "dbg": [draw(st.sampled_from([0.0, 50.0, 300.0])) for _ in range(n)],
            "use": draw(st.sampled_from(["zps", "master", "coadd"]))}


def check_sky(c, rec):
    f = c["f"]
    if len(positions(f)) < 9:
        return
    imgs = []
    for i, (s, b) in enumerate(zip(c["scales"], c["dbg"])):
        im = SingleImage(render(f, scale=s, dbg=b, nseed=f["nseed"] + i))
        im.strict_star_pick = False
        imgs.append(im)
    if c["use"] == "coadd":
        coadd(imgs, align=False, n_procs=1)
        zps = np.array([i.zp for i in imgs])
    elif c["use"] == "master":
        zps = utils.transparency(imgs[1:], master=imgs[0])[0]
    else:
        zps = utils.transparency(imgs)[0]
    q = [sum(any(np.hypot(a["x"] - b["x"], a["y"] - b["y"]) < 1.5 for b in i.best_sources)
             for a in imgs[0].best_sources) for i in imgs[1:]]
    if min(q) < 2 or (zps == 1).all():
        rec.label("few common")
        return
    rec.nontrivial()
    want = np.array(c["scales"]) / c["scales"][0]
    d = np.abs(np.log(zps / want)).max()
    rec.label("err %.2f" % d)
    ensure(d < 0.25, "zero points {} instead of {}", list(map(float, zps)), list(want))


CHECKS = [Check("zps", cases(), check_zps, 500, 20000),
          Check("sky", sky_cases(), check_sky, 100, 3000)]

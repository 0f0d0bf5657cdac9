"""C24: simulated kernels and source maps against closed forms."""
import itertools

import numpy as np
from hypothesis import strategies as st

from properimage import simtools as sm
from vf.core import Check, ensure

RULE = ("Kernel sizes (odd and even), widths along each axis, Sersic indices and scales, Airy "
        "widths, point positions with weights in lists, arrays and iterators; compared with "
        "closed forms. Non-trivial: more than one pixel or point.")
ASSUMPTIONS = ["full widths are accepted within 2 per cent (the code rounds the Gaussian factor)",
               "rotated kernels are only checked for unit sum"]


def half(lo, hi):
    return st.integers(int(lo * 10), int(hi * 10)).map(lambda v: v / 10.0)


def symmetric(a, what, tol=1e-9):
    sc = np.abs(a).max()
    for n, b in (("rows", a[::-1]), ("columns", a[:, ::-1])):
        ensure(np.abs(a - b).max() <= tol * sc, "{} is not symmetric along its {}", what, n)


def central(a, what):
    """The highest value is at the centre."""
    q = np.argwhere(a >= a.max() * (1 - 1e-9))
    mu = (np.array(a.shape) - 1) / 2.0
    ensure((np.abs(q - mu) <= 0.5).all(), "{} of shape {} peaks at {}", what, a.shape,
           q[0].tolist())


def width(a, axis, want, what):
    """Gaussian full width from the central profile along an axis."""
    n = a.shape[axis]
    k = a.shape[1 - axis] // 2
    line = a[:, k] if axis == 0 else a[k]
    mu = (n - 1) / 2.0
    d = np.arange(n) - mu
    ok = (np.abs(d) < 3 * want / 2.355) & (line > 0)
    if ok.sum() < 3 or len(set(np.abs(d[ok]))) < 2:
        return False
    # log of the profile is a parabola of the squared distance
    slope = np.polyfit(d[ok] ** 2, np.log(line[ok]), 1)[0]
    got = 2 * np.sqrt(2 * np.log(2)) * np.sqrt(-0.5 / slope) if slope < 0 else np.inf
    ensure(abs(got / want - 1) < 0.02, "{} has full width {:.3f} instead of {:.3f} along axis {}",
           what, got, want, axis)
    res = np.log(line[ok]) - np.polyval(np.polyfit(d[ok] ** 2, np.log(line[ok]), 1), d[ok] ** 2)
    ensure(np.abs(res).max() < 1e-6, "{} is not a Gaussian along axis {}", what, axis)
    return True


@st.composite
def psfs(draw):
    return {"N": draw(st.integers(1, 45)), "x": draw(half(1.0, 9)),
            "y": draw(st.one_of(st.just(0), half(1.0, 9))),
            "float": draw(st.booleans()), "theta": draw(st.sampled_from([0, 0, 0, 30, 90, 137.5]))}


def check_psf(c, rec):
    n = c["N"] + 0.7 if c["float"] else c["N"]
    what = "Psf(%s, %s, %s)" % (n, c["x"], c["y"])
    a = sm.Psf(n, c["x"], c["y"]) if c["y"] else sm.Psf(n, c["x"])
    ensure(a.shape == (c["N"], c["N"]), "{} has shape {}", what, a.shape)
    ensure(np.isfinite(a).all() and (a >= 0).all(), "{} is negative or not finite", what)
    ensure(abs(a.sum() - 1) < 1e-9, "{} sums to {}", what, a.sum())
    central(a, what)
    symmetric(a, what)
    y = c["y"] or c["x"]
    rec.nontrivial(width(a, 0, c["x"], what) and width(a, 1, y, what))
    ensure(np.abs(np.linalg.svd(a)[1][1:]).max(initial=0) < 1e-9 * a.max() or c["x"] != y
           or np.allclose(a, a.T, atol=1e-12), "{} is not round", what)
    # full support: nothing within four sigma of the centre is lost
    mu = (c["N"] - 1) / 2.0
    yy, xx = np.indices(a.shape)
    near = np.maximum(np.abs(yy - mu), np.abs(xx - mu)) < 4 * max(c["x"], y) / 2.355 - 1
    g = np.exp(-0.5 * (((yy - mu) / c["x"]) ** 2 + ((xx - mu) / y) ** 2) * 2.335 ** 2)
    if near.any():
        g = g / g[near].sum() * a[near].sum()
        d = np.abs(g - a)[near].max() / a.max()
        ensure(d < 0.02, "{} differs by {} of its peak from the Gaussian", what, d)
    if c["theta"]:
        b = sm.Psf(n, c["x"], c["y"], c["theta"])
        ensure(abs(b.sum() - 1) < 1e-9, "{} rotated by {} sums to {}", what, c["theta"], b.sum())
        if c["theta"] == 90:
            ensure(b.shape == a.shape and np.abs(b - a.T).max() < 1e-6 * a.max(),
                   "{} rotated by 90 degrees is not its transpose", what)


def check_astropy(c, rec):
    n = c["N"]
    what = "astropy_Psf(%d, %s)" % (n, c["x"])
    a = sm.astropy_Psf(n, c["x"])
    ensure(a.shape == (n, n), "{} has shape {}", what, a.shape)
    ensure(np.isfinite(a).all() and (a >= 0).all(), "{} is negative or not finite", what)
    ensure(abs(a.sum() - 1) < 1e-9, "{} sums to {}", what, a.sum())
    central(a, what)
    symmetric(a, what)
    ensure(np.allclose(a, a.T, atol=1e-8 * a.max()), "{} is not round", what)
    t = (np.arange(n) - (n - 1) / 2.0) / (c["x"] / 2.3548)
    g = np.exp(-0.5 * (t[:, None] ** 2 + t ** 2))
    off = np.abs(a / a.sum() - g / g.sum()).max() / (g.max() / g.sum())
    ensure(off < 0.03, "{} differs from that Gaussian by {:.3f} of its peak", what, off)
    rec.nontrivial(width(a, 0, c["x"], what) and width(a, 1, c["x"], what))


def bessel(x):
    """First order Bessel function from its integral."""
    t = (np.arange(400) + 0.5) * np.pi / 400
    return np.cos(t - np.multiply.outer(x, np.sin(t))).mean(axis=-1)


def check_airy(c, rec):
    n, w = c["N"], c["w"]
    a = sm.airy_patron(n, w)
    what = "airy_patron(%d, %s)" % (n, w)
    ensure(a.shape == (n, n), "{} has shape {}", what, a.shape)
    ensure(np.isfinite(a).all(), "{} is not finite", what)
    central(a, what)
    symmetric(a, what)
    mu = (n - 1) / 2.0
    yy, xx = np.indices(a.shape)
    r = np.hypot(yy - mu, xx - mu) / w
    g = np.ones(a.shape)
    k = r > 1e-9
    g[k] = (2 * bessel(r[k]) / r[k]) ** 2
    d = np.abs(g - a).max()
    ensure(d < 1e-7, "{} differs by {} from the Airy pattern", what, d)
    rec.nontrivial(n > 1)


def check_sersic(c, rec):
    n, k = c["N"], c["n"]
    a = sm.gal_sersic(n, k)
    what = "gal_sersic(%d, %s)" % (n, k)
    ensure(a.shape == (n, n), "{} has shape {}", what, a.shape)
    ensure(np.isfinite(a).all() and (a >= 0).all(), "{} is negative or not finite", what)
    central(a, what)
    symmetric(a, what)
    ensure(np.allclose(a, a.T, atol=1e-12), "{} is not round", what)
    mu = (n - 1) / 2.0
    yy, xx = np.indices(a.shape)
    r = np.hypot(yy - mu, xx - mu)
    re = (n - 1) / 6.0
    want = np.where(r <= 4 * re, np.exp(-(1.999 * k - 0.327) * (r / re) ** (1.0 / k)), 0)
    edge = np.abs(r - 4 * re) < 1e-9
    d = np.abs(want - a)[~edge].max()
    ensure(d < 1e-9, "{} differs by {} from the Sersic profile", what, d)
    o = np.argsort(r.ravel(), kind="stable")
    rs, v = r.ravel()[o], a.ravel()[o]
    up = (np.diff(v) > 1e-12) & (np.diff(rs) > 1e-9)
    ensure(not up.any(), "{} grows outwards", what)
    rec.nontrivial(n > 2)
    rng = np.random.default_rng(c["seed"])
    rr = np.sort(rng.uniform(0, 60, 12))
    p = np.array([sm.perfilsersic(c["re"], c["ie"], k, q) for q in rr])
    p2 = sm.perfilsersic(c["re"], c["ie"], k, rr)
    ensure(np.allclose(p, p2, rtol=1e-12), "the profile differs between arrays and numbers")
    ensure(np.allclose(p, np.exp(-(1.999 * k - 0.327) * (rr / c["re"]) ** (1.0 / k)), rtol=1e-9),
           "the profile is not the Sersic law")
    ensure((np.diff(p) <= 0).all(), "the profile grows outwards")


@st.composite
def points(draw):
    n = draw(st.integers(1, 40))
    k = draw(st.integers(0, 25))
    return {"N": n, "xy": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)),
                                        max_size=k, unique=True)),
            "seed": draw(st.integers(0, 999)),
            "form": draw(st.sampled_from(["list", "zip", "array", "floats", "tuple", "gen"])),
            "weights": draw(st.sampled_from([None, "list", "array", "iter", "ints"]))}


def check_points(c, rec):
    n, xy = c["N"], c["xy"]
    m = sm.delta_point(n)
    ensure(m.shape == (n, n) and m.sum() == 1 and m[n // 2, n // 2] == 1,
           "the centred map of size {} is wrong", n)
    rng = np.random.default_rng(c["seed"])
    w = np.round(rng.uniform(-5, 1000, len(xy)), 2)
    if c["weights"] == "ints":
        w = w.astype(int)
    form = {"list": lambda: [list(p) for p in xy], "tuple": lambda: tuple(map(tuple, xy)),
            "zip": lambda: zip([p[0] for p in xy], [p[1] for p in xy]),
            "array": lambda: np.array(xy, int).reshape(-1, 2),
            "floats": lambda: [(p[0] + 0.6, p[1] + 0.3) for p in xy],
            "gen": lambda: (tuple(p) for p in xy)}[c["form"]]()
    kw = {}
    if c["weights"]:
        kw["weights"] = {"list": w.tolist(), "array": w, "iter": iter(w.tolist()),
                         "ints": [int(v) for v in w]}[c["weights"]]
    m = sm.delta_point(n, center=False, xy=form, **kw)
    want = np.zeros((n, n))
    for (x, y), v in zip(xy, w):
        want[x, y] = v if c["weights"] else 1.0
    ensure(m.shape == (n, n), "a map of size {} has shape {}", n, m.shape)
    bad = np.argwhere(np.abs(m - want) > 1e-9)
    ensure(not len(bad), "{} pixels of the map are wrong, the first at {}", len(bad),
           bad[:1].tolist())
    rec.nontrivial(len(xy) > 1)
    rec.label(c["form"])


@st.composite
def products(draw):
    k = draw(st.integers(1, 4))
    return {"sizes": [draw(st.integers(1, 6)) for _ in range(k)], "seed": draw(
        st.integers(0, 999)), "kinds": [draw(st.sampled_from(["int", "float", "range", "u1"]))
                                        for _ in range(k)]}


def check_product(c, rec):
    rng = np.random.default_rng(c["seed"])
    arrays = []
    for s, k in zip(c["sizes"], c["kinds"]):
        arrays.append(np.round(rng.uniform(-9, 9, s), 3) if k == "float" else range(s) if k ==
                      "range" else rng.integers(0, 200, s).astype({"u1": "u1"}.get(k, "i8")))
    got = sm.cartesian_product(arrays)
    want = np.array(list(itertools.product(*[list(a) for a in arrays])), float)
    ensure(np.shape(got) == want.shape, "the product has shape {} instead of {}", np.shape(got),
           want.shape)
    ensure(np.array_equal(np.asarray(got, float), want), "the product of {} values is wrong",
           c["sizes"])
    rec.nontrivial(len(arrays) > 1)


CHECKS = [Check("psf", psfs(), check_psf, 500, 10000),
          Check("astropy", st.fixed_dictionaries(
              {"N": st.integers(1, 48), "x": st.one_of(half(0.8, 4.0), half(1.0, 18.0))}),
                check_astropy, 96, 1200),
          Check("airy", st.fixed_dictionaries({"N": st.integers(1, 40), "w": half(0.4, 12)}),
                check_airy, 400, 8000),
          Check("sersic", st.fixed_dictionaries(
              {"N": st.integers(2, 45), "n": half(0.5, 8), "re": half(0.5, 20),
               "ie": half(0.1, 50), "seed": st.integers(0, 999)}), check_sersic, 400, 8000),
          Check("points", points(), check_points, 1200, 30000),
          Check("product", products(), check_product, 800, 20000)]

"""C07: source detection."""
import numpy as np
import sep
from hypothesis import strategies as st

from properimage import single_image
from properimage.single_image import SingleImage, SingleImageGaussPSF
from vf.core import Check, ensure
from vf.fields import fields, render, positions, fluxes, add_star

RULE = ("Star fields with planted positions, masked stars, strict or plain star picking, and "
        "pairs of runs related by a constant or a factor; empty and one-star frames. "
        "Non-trivial: at least five unmasked stars (pairs: a change other than the identity).")
ASSUMPTIONS = ["stars are isolated and bright (peak 40 to 400 times the noise)",
               "detection may keep or drop single borderline stars when rounding changes, so sets "
               "of sources are compared up to a tenth of their size unless the factor is a power "
               "of two",
               "frames whose last 64-pixel background mesh is a sliver are left out of the sky and "
               "scale pairs: the mode estimate of so few pixels jumps with rounding"]

# detection threshold in units of the noise
THRESHOLD = getattr(single_image, "SEP_THRESH", {}).get("default", 8)


@st.composite
def finds(draw):
    return {"f": draw(fields(80, 160, bg=(0, 500))),
            "hide": draw(st.lists(st.integers(0, 99), max_size=3)),
            "pad": draw(st.integers(3, 6)),
            "strict": draw(st.booleans()), "stamp": draw(st.booleans()),
            "nanmask": draw(st.booleans()), "gauss": draw(st.booleans()),
            "min": draw(st.sampled_from([None, 1, 2, 5]))}


def catalogue(si):
    s = si.best_sources
    return np.column_stack([s["y"], s["x"], s["flux"], s["npix"]]).astype(float)


def check_found(c, rec):
    f = c["f"]
    img = render(f)
    pos = positions(f)
    mask = np.zeros(img.shape, bool)
    hidden = sorted({k % len(pos) for k in c["hide"]})
    for k in hidden:
        y, x = int(round(pos[k, 0])), int(round(pos[k, 1]))
        r = c["pad"]
        mask[max(0, y - r):y + r + 1, max(0, x - r):x + r + 1] = True
    if c["nanmask"]:
        img[mask] = np.nan
    seen = np.array([k for k in range(len(pos)) if k not in hidden])
    # a masked star leaves its wings outside a small box; those are found too
    kw = {} if c["min"] is None else {"min_sources": min(c["min"], len(seen))}
    n_ok = len(seen) >= (kw.get("min_sources") or 20)
    cls = SingleImageGaussPSF if c["gauss"] else SingleImage
    if len(seen) < 2:
        return
    si = cls(img, mask=None if c["nanmask"] else mask, strict_star_pick=c["strict"],
             stamp_shape=(15, 15) if c["stamp"] else None, **kw)
    cat = catalogue(si)
    gm = np.ma.getmaskarray(si.data)
    rec.nontrivial(len(seen) >= 5)
    rec.label("masked stars" if hidden else "all visible")
    ensure(len(cat) >= 2, "{} sources used of {} stars", len(cat), len(seen))
    used = []
    wing = 3.7 * f["sig"]
    for y, x, fl, n in cat:
        ensure(not gm[int(round(y)), int(round(x))], "source at ({}, {}) is masked", y, x)
        dist = np.hypot(pos[:, 0] - y, pos[:, 1] - x)
        k = int(dist.argmin())
        if k in hidden and dist[k] > c["pad"] - 1.5:
            rec.label("wing of a masked star")
            continue
        if not n_ok and dist[k] > 1:
            continue        # the low threshold may add noise peaks
        ensure(dist[k] <= 1.0, "source at ({:.2f}, {:.2f}) is {:.2f} px from the next star",
               y, x, dist[k])
        ensure(k not in hidden, "a masked star is used")
        ensure(k not in used, "star at {} is used twice", pos[k])
        used.append(k)
        want = pos[k, 2] * f["noise"] * 2 * np.pi * f["sig"] ** 2
        ensure(0.6 * want < fl < 1.35 * want, "flux {} of a star of flux {}", fl, want)
    if n_ok and not hidden and len(seen) >= 12:
        order = np.argsort(pos[seen, 2])
        lo, hi = int(0.35 * len(seen)), int(np.ceil(0.65 * len(seen)))
        central = set(seen[order[lo:hi]])
        miss = central - set(used)
        ensure(len(miss) <= 2 + 0.15 * len(central), "{} of the {} stars of central brightness are "
               "not used", len(miss), len(central))
    p = si.stamps_pos
    ensure(len(p) == si.n_sources, "{} positions but {} sources", len(p), si.n_sources)
    if not c["strict"]:
        ensure(p.shape == (len(cat), 2) and np.allclose(np.array(p, float), cat[:, :2]),
               "stamp positions are not the source positions")
    else:
        rec.label("strict")
        for y, x in p:
            d = np.hypot(cat[:, 0] - y, cat[:, 1] - x).min()
            ensure(d < 1e-9, "stamp at ({}, {}) is no source", y, x)
        ensure(len(p) >= min(15, len(cat)), "strict picking kept {} of {} sources", len(p),
               len(cat))
        ensure(len({tuple(q) for q in p}) == len(p), "a stamp is taken twice")


@st.composite
def pairs(draw):
    f = draw(fields(80, 130, bg=(60, 300), noise=(1.0, 6.0)))
    return {"f": f, "how": draw(st.sampled_from(["pow2", "scale", "sky", "sky", "min"])),
            "k": draw(st.integers(-3, 3)),
            "s": draw(st.integers(5, 700).map(lambda v: v / 100.0)),
            "c": draw(st.integers(-50, 9000)), "faint": draw(st.integers(0, 12)),
            "below": draw(st.sampled_from([0, 0, 0, 1, 5]))}


def spread(d):
    """Size of a difference, little weight for jumps of single background meshes."""
    d = np.abs(np.atleast_1d(d))
    return max(np.percentile(d, 80), d.max() / 40)


def matched(a, b, what, err, flux=1.0):
    """Compare catalogues up to a few borderline sources."""
    extra = 0
    for p, q in ((a, b), (b, a)):
        for row in p:
            d = np.hypot(q[:, 0] - row[0], q[:, 1] - row[1])
            if d.min() > 0.5:
                extra += 1
    ensure(extra <= max(2, 0.1 * (len(a) + len(b))), "{}: {} of {} + {} sources differ", what,
           extra, len(a), len(b))
    for row in a:
        d = np.hypot(b[:, 0] - row[0], b[:, 1] - row[1])
        k = d.argmin()
        if d[k] > 0.5:
            continue
        ensure(d[k] < 0.2, "{}: source moved by {}", what, d[k])
        tol = 0.06 * flux * row[2] + row[3] * err * flux
        ensure(abs(b[k, 2] - row[2] * flux) < tol, "{}: flux {} became {}, not times {}",
               what, row[2], b[k, 2], flux)


def check_pair(c, rec):
    f = c["f"]
    img = np.rint(render(f) * 16) / 16       # exact in single precision
    img = np.maximum(img, 1)
    a = SingleImage(img, min_sources=1)
    how = c["how"]
    rec.label(how)
    ca = catalogue(a)
    noise = f["noise"]
    if how in ("sky", "scale") and min((n % 64 or 64) for n in img.shape) < 8:
        rec.label("sliver mesh")
        return
    if how == "min":
        # faint stars, which would show if the threshold were lowered
        pos = positions(f)
        for k in range(c.get("faint", 0)):
            y, x = pos[k % len(pos), :2] + f["sp"] / 2
            add_star(img, y, x, 5.5 * f["noise"] * 2 * np.pi * f["sig"] ** 2, f["sig"])
        a = SingleImage(img, min_sources=1)
        ca = catalogue(a)
        n = len(sep.extract(a.bkg_sub_img.filled(0), thresh=THRESHOLD * a.var, minarea=9))
        want = max(1, n - c.get("below", 0))
        b = SingleImage(img, min_sources=want)
        cb = catalogue(b)
        rec.nontrivial(want > 1)
        rec.label("exactly met" if want == n else "met")
        ensure(ca.shape == cb.shape and np.array_equal(ca, cb), "asking for {} sources where {} "
               "are detected changes the sources", want, n)
        return
    if how == "sky":
        shift = max(c["c"], 2 - img.min())
        rec.nontrivial(abs(shift) > noise)
        b = SingleImage(img + shift, min_sources=1)
        matched(ca, catalogue(b), "adding %g" % shift, noise)
        d = spread(a.interped - b.interped)
        ensure(d < noise, "adding {} changes the cleaned image by {}", shift, d)
        d = spread(b.background - a.background - shift)
        ensure(d < noise, "adding {} moves the background by that and {}", shift, d)
        return
    s = 2.0 ** c["k"] if how == "pow2" else c["s"]
    if img.max() * s > 6e4:
        s = 1 / s if how == "pow2" else 1.0
    rec.nontrivial(s != 1)
    b = SingleImage(img * s, min_sources=1)
    cb = catalogue(b)
    if how == "pow2":
        ensure(ca.shape == cb.shape, "times {}: {} sources became {}", s, len(ca), len(cb))
        ensure(np.allclose(ca[:, :2], cb[:, :2], atol=1e-3), "times {}: sources moved", s)
        ensure(np.array_equal(ca[:, 3], cb[:, 3]), "times {}: sizes changed", s)
    matched(ca, cb, "times %g" % s, noise, s)
    for n, x, y in (("cleaned image", a.interped, b.interped),
                    ("background", a.background, b.background),
                    ("noise", a.var, b.var)):
        d = np.asarray(y) - s * np.asarray(x)
        d = np.abs(d).max() if how == "pow2" else spread(d)
        ensure(d < (1e-4 if how == "pow2" else 0.3) * s * noise, "times {}: {} differs from the scaled one by {}", s, n, d)


@st.composite
def fews(draw):
    return {"f": draw(fields(64, 120, bg=(20, 500))), "n": draw(st.integers(0, 2)),
            "y": draw(st.integers(20, 80).map(lambda v: v / 100)),
            "x": draw(st.integers(20, 80).map(lambda v: v / 100)),
            "flux": draw(st.integers(3, 400)), "when": draw(st.sampled_from(["built", "later"]))}


def check_few(c, rec):
    f = c["f"]
    img = f["bg"] + np.random.default_rng(f["nseed"]).normal(0, f["noise"], (f["h"], f["w"]))
    fl = c["flux"] * 10 * f["noise"] * 2 * np.pi * f["sig"] ** 2
    ys = [c["y"], 1 - c["y"] if abs(c["y"] - 0.5) > 0.2 else 0.1]
    for k in range(c["n"]):
        add_star(img, ys[k] * f["h"], c["x"] * f["w"], min(fl, 4e5), f["sig"])
    kw = {"min_sources": min(1, c["n"]) or 0}
    rec.label("%d stars" % c["n"])
    rec.nontrivial()

    def go():
        if c["when"] == "built":
            return SingleImage(img, **kw).best_sources
        return SingleImage(img, stamp_shape=(11, 11), **kw).best_sources
    try:
        s = go()
    except ValueError:
        ensure(c["n"] < 2, "two bright stars raise a value error")
        return
    ensure(c["n"] == 2, "{} sources returned for {} stars", len(s), c["n"])
    ensure(len(s) == 2, "{} sources for two stars", len(s))


def check_cap(c, rec):
    n, sp = c["n"], c["sp"]
    img = np.random.default_rng(c["s"]).normal(100, 1, (n, n))
    k = 0
    rng = np.random.default_rng(c["s"])
    pos = []
    for y in range(8, n - 8, sp):
        for x in range(8, n - 8, sp):
            dy, dx = rng.uniform(-1, 1, 2)
            add_star(img, y + dy, x + dx, rng.uniform(600, 2000), 1.1)
            pos.append((y + dy, x + dx))
            k += 1
    si = SingleImage(img)
    m = len(si.best_sources)
    pos = np.array(pos)
    rec.nontrivial()
    rec.label("stars %d used %d" % (k, m))
    ensure(m <= 1800, "{} sources used", m)
    if k > 4000:
        ensure(m == 1800, "{} sources used of {} stars", m, k)
    key = {(float(r["y"]), float(r["x"])) for r in si.best_sources}
    ensure(len(key) == m, "sources repeat")
    for y, x in list(key)[:200]:
        ensure(np.hypot(pos[:, 0] - y, pos[:, 1] - x).min() < 1, "no star at ({}, {})", y, x)
    ensure(si.best_sources is not None and len(si.best_sources) == m, "second request differs")


@st.composite
def stricts(draw):
    return {"f": draw(fields(150, 200, sig=(1.4, 2.2), sp=(17, 21), bg=(0, 400))),
            "crowd": draw(st.integers(0, 40)), "s": draw(st.integers(0, 9999)),
            "near": draw(st.integers(35, 60).map(lambda v: v / 10)),
            "stamp": draw(st.sampled_from([None, 9, 11, 13])),
            "ask": draw(st.sampled_from(["stamps", "cov", "basis", "n"]))}


def check_strict(c, rec):
    """Picking stars strictly: sources, stamps and what is made of them stay together."""
    f = c["f"]
    img = render(f)
    pos = positions(f)
    fl = fluxes(f, pos)
    rng = np.random.default_rng(c["s"])
    pairs = [tuple(p[:2]) for p in pos]
    for k in rng.choice(len(pos), min(len(pos), len(pos) * c["crowd"] // 100), replace=False):
        a = rng.uniform(0, 2 * np.pi)
        y, x = (pos[k, 0] + c["near"] * f["sig"] * np.sin(a),
                pos[k, 1] + c["near"] * f["sig"] * np.cos(a))
        add_star(img, y, x, rng.uniform(0.4, 0.9) * fl[k], f["sig"])
        pairs.append((y, x))
    pairs = np.array(pairs)
    si = SingleImage(img, strict_star_pick=True,
                     stamp_shape=None if c["stamp"] is None else (c["stamp"],) * 2)
    cand = catalogue(si)
    if c["ask"] == "cov":
        n = len(si.cov_matrix)
    elif c["ask"] == "basis":
        fld, basis = si.get_variable_psf(inf_loss=0.02)
        n = len(si.cov_matrix)
        ensure(len(fld) == len(basis), "{} fields for {} components", len(fld), len(basis))
    else:
        n = si.n_sources
    p = np.array(si.stamps_pos, float)
    cat = catalogue(si)
    rec.nontrivial(len(p) < len(cand))
    rec.label("%s" % ("some rejected" if len(p) < len(cand) else "none rejected"))
    ensure(n == len(p) == si.n_sources, "{} sources, {} stamps", n, len(p))
    ensure(len(cat) == len(p) and np.array_equal(cat[:, :2], p),
           "after strict picking the {} sources are not those of the {} stamps", len(cat), len(p))
    ensure(len(p) >= min(15, len(cand)), "strict picking kept {} of {} sources", len(p), len(cand))
    have = {tuple(r) for r in cand}
    ensure(all(tuple(r) in have for r in cat), "a source was not detected")
    ensure(len({tuple(r) for r in cat}) == len(cat), "a source repeats")
    for y, x in p:
        d = np.hypot(pairs[:, 0] - y, pairs[:, 1] - x).min()
        ensure(d <= 2.5 if c["crowd"] else d <= 1, "stamp at ({}, {}) is {} px from any star", y, x, d)
    again = SingleImage(img, strict_star_pick=True,
                        stamp_shape=None if c["stamp"] is None else (c["stamp"],) * 2)
    q = np.array(again.stamps_pos, float)
    ensure(q.shape == p.shape and np.array_equal(p, q), "the order of requests changes the picked "
           "stars: {} and {}", len(p), len(q))


caps = st.fixed_dictionaries({"n": st.sampled_from([560, 700, 760]), "sp": st.sampled_from([10, 11]),
                              "s": st.integers(0, 999)})
CHECKS = [Check("found", finds(), check_found, 640, 12000),
          Check("pair", pairs(), check_pair, 480, 10000),
          Check("strict", stricts(), check_strict, 160, 3000),
          Check("few", fews(), check_few, 400, 6000),
          Check("cap", caps, check_cap, 16, 80, examples=[{"n": 760, "sp": 10, "s": 1}])]

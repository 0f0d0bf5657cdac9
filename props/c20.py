"""C20: aligned images lie on the pixel grid of the reference."""
import numpy as np
from hypothesis import strategies as st

from properimage import utils
from properimage.operations import coadd, subtract
from properimage.single_image import SingleImage, SingleImageGaussPSF
from vf.core import Check, ensure
from vf.fields import moved, scatter, stars

RULE = ("Random star layouts seen by 2 to 4 pointings with drawn rotations (up to 0.3 rad, or "
        "half a turn), shifts (up to 10 pixels), shapes, flux scales and bad boxes; stars, "
        "transients and bad pixels are looked up at reference coordinates. Non-trivial: a moved "
        "image.")
ASSUMPTIONS = ["at least 15 stars, all bright enough for astroalign to match triangles",
               "star positions are checked away from pixels without data"]


@st.composite
def cases(draw, nmax=3, sides=(115, 160), dmin=14):
    n = draw(st.integers(1, nmax))
    u = st.integers(-100, 100).map(lambda v: v / 100.0)
    im = st.fixed_dictionaries({
        "angle": st.one_of(st.just(0.0), u.map(lambda v: 0.3 * v),
                           u.map(lambda v: np.pi + 0.05 * v)),
        "t": st.tuples(u.map(lambda v: 10 * v), u.map(lambda v: 10 * v)),
        "scale": st.sampled_from([1.0, 1.0, 0.5, 2.0]),
        "grow": st.tuples(*[st.sampled_from([0, 0, 0, 12, 25])] * 2),
        "gain": st.sampled_from([1.0, 1.0, 2.5, 0.4]), "crop": st.sampled_from([0, 0, 0, 3, 8]),
        "bad": st.one_of(st.none(), st.tuples(st.integers(25, 75), st.integers(25, 75)))})
    return {"h": draw(st.integers(*sides)), "w": draw(st.integers(*sides)), "dmin": dmin,
            "n": draw(st.integers(20, 40)), "seed": draw(st.integers(0, 10**6)),
            "sig": draw(st.integers(15, 24)) / 10.0, "noise": draw(st.integers(2, 8)),
            "bg": draw(st.sampled_from([50.0, 100.0, 300.0])),
            "im": [draw(im) for _ in range(n)], "gauss": draw(st.booleans()),
            "stamp": draw(st.sampled_from([None, None, 15, 21])), "arrays": draw(st.booleans()),
            "procs": draw(st.integers(1, 3)),
            "refbad": draw(st.one_of(st.none(), st.tuples(*[st.integers(25, 75)] * 2))),
            "gain": draw(st.sampled_from([1.0, 1.0, 2.0, 0.5])), "beta": draw(st.booleans()), "at": [draw(u), draw(u)],
            "side": draw(st.sampled_from(["new", "ref"]))}


def sky(c, transient=False):
    """Reference positions and fluxes, the transient last."""
    pos = scatter(c["seed"], c["h"], c["w"], c["n"], c["dmin"])
    peak = c["noise"] * 2 * np.pi * c["sig"] ** 2
    fl = peak * 10 ** np.random.default_rng(c["seed"] + 1).uniform(1.7, 2.6, len(pos))
    if transient:
        y = c["h"] / 2 + c["at"][0] * (c["h"] / 2 - 35)
        x = c["w"] / 2 + c["at"][1] * (c["w"] / 2 - 35)
        keep = np.hypot(pos[:, 0] - y, pos[:, 1] - x) > 22
        pos, fl = pos[keep], fl[keep]
        return pos, fl, (y, x), peak * 150
    return pos, fl, None, None


def pointing(c, im, pos, fl, k):
    """Pixels and mask of a pointing."""
    shape = (c["h"] + im["grow"][0], c["w"] + im["grow"][1])
    q = moved(pos, (c["h"], c["w"]), im["angle"], im["t"])
    pix = stars(q, fl * im["scale"], shape, c["sig"], c["noise"], c["seed"] + 10 + k, c["bg"])
    return pix, badbox(c, im)


def geometry(c, im, margin):
    """Reference pixels whose sky is at least margin inside the pointing."""
    shape = (c["h"] + im["grow"][0], c["w"] + im["grow"][1])
    yx = np.indices((c["h"], c["w"])).reshape(2, -1).T
    q = moved(yx, (c["h"], c["w"]), im["angle"], im["t"])
    ins = ((q[:, 0] > margin) & (q[:, 0] < shape[0] - 1 - margin) & (q[:, 1] > margin)
           & (q[:, 1] < shape[1] - 1 - margin))
    return ins.reshape(c["h"], c["w"])


def bad_at(c, im):
    """Reference coordinates of the centre of the bad box."""
    shape = (c["h"] + im["grow"][0], c["w"] + im["grow"][1])
    y, x = (int(v / 100.0 * s) for v, s in zip(im["bad"], shape))
    cen = (np.array([c["h"], c["w"]]) - 1) / 2.0
    a = im["angle"]
    r = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    return (np.array([y, x]) - cen - np.array(im["t"])) @ r + cen


def check_mask(c, mask, ims, what):
    mask = np.ma.getdata(mask)
    ensure(mask.shape == (c["h"], c["w"]), "{} mask has shape {} instead of {}", what, mask.shape,
           (c["h"], c["w"]))
    near = np.zeros(mask.shape, bool)
    for im in ims:
        out = ~geometry(c, im, -1.5)
        ensure(mask[out].all(), "{}: {} pixels without data are not masked", what,
               (~mask & out).sum())
        if im["bad"]:
            y, x = bad_at(c, im)
            if 6 < y < c["h"] - 7 and 6 < x < c["w"] - 7:
                yi, xi = int(round(y)), int(round(x))
                ensure(mask[yi - 1:yi + 2, xi - 1:xi + 2].all(),
                       "{}: the bad pixels moved to {:.1f}, {:.1f} are not masked", what, y, x)
            yy, xx = np.indices(mask.shape)
            near |= np.hypot(yy - y, xx - x) < 14
    ins = np.ones(mask.shape, bool)
    for im in ims:
        ins &= geometry(c, im, 11)
    wrong = mask & ins & ~near
    # resampling noise never reaches the limits of valid values
    ensure(not wrong.any(), "{}: {} pixels with data are masked", what, wrong.sum())
    return ins & ~near


def find_stars(R, good, pos, what, tol=1.5):
    n = 0
    for y, x in pos:
        yi, xi = int(round(y)), int(round(x))
        if not (6 < yi < R.shape[0] - 7 and 6 < xi < R.shape[1] - 7):
            continue
        if not good[yi - 5:yi + 6, xi - 5:xi + 6].all():
            continue
        box = R[yi - 4:yi + 5, xi - 4:xi + 5]
        q = np.unravel_index(box.argmax(), box.shape)
        off = max(abs(q[0] + yi - 4 - y), abs(q[1] + xi - 4 - x))
        ensure(off <= tol, "{}: the star at {:.1f}, {:.1f} peaks {:.1f} pixels away", what, y, x, off)
        n += 1
    return n


STILL = {"angle": 0.0, "t": (0, 0), "scale": 1.0, "grow": (0, 0), "bad": None}


def still(c):
    return dict(STILL, bad=c["refbad"])


def badbox(c, im):
    """Mask of the bad box of a pointing."""
    m = np.zeros((c["h"] + im["grow"][0], c["w"] + im["grow"][1]), bool)
    if im["bad"]:
        y, x = (int(v / 100.0 * s) for v, s in zip(im["bad"], m.shape))
        m[y - 3:y + 4, x - 3:x + 4] = True
    return m


def wrap(cls, pix, mask, gain, crop, **kw):
    """Image of these science pixels: stored in other units, in a larger frame."""
    if gain != 1:
        kw["gain"] = gain
        pix = pix / gain
    if crop:
        junk = np.random.default_rng(crop).normal(pix.mean(), 9, np.add(pix.shape, 2 * crop))
        junk[crop:-crop, crop:-crop] = pix
        kw["crop"] = ((crop, crop), (crop, crop))
        pix = junk
    return cls(pix, mask=mask, **kw)


def build(c, pos, fl, cls, raw=False):
    kw = {"stamp_shape": (c["stamp"],) * 2} if c["stamp"] else {}
    pix = stars(pos, fl, (c["h"], c["w"]), c["sig"], c["noise"], c["seed"] + 9, c["bg"])
    m = badbox(c, still(c))
    out = [pix if raw and not m.any() else wrap(cls, pix, m, c["gain"], 0, **kw)]
    for k, im in enumerate(c["im"]):
        pix, m = pointing(c, im, pos, fl, k)
        # an array carries no mask
        out.append(pix if raw and not m.any() else wrap(
            cls, pix, m, im["gain"], im["crop"], **kw))
    return out


def common(c, pos, im):
    """Number of stars seen by the pointing and the reference."""
    shape = (c["h"] + im["grow"][0], c["w"] + im["grow"][1])
    q = moved(pos, (c["h"], c["w"]), im["angle"], im["t"])
    return np.sum((q > 5).all(1) & (q[:, 0] < shape[0] - 6) & (q[:, 1] < shape[1] - 6))


def check_align(c, rec):
    fn = getattr(utils, "_align_for_coadd", None)
    if fn is None:
        rec.label("gone")
        return
    pos, fl, _, _ = sky(c)
    if any(common(c, pos, im) < 15 for im in c["im"]):
        rec.label("few stars")
        return
    imgs = build(c, pos, fl, SingleImageGaussPSF if c["gauss"] else SingleImage)
    out = fn(list(imgs))
    ensure(len(out) == len(imgs), "{} images aligned to {}", len(imgs), len(out))
    rec.nontrivial()
    for k, (a, im) in enumerate(zip(out, [still(c)] + c["im"])):
        what = "image %d" % k
        ensure(type(a) is type(imgs[k]), "{} is a {} after alignment", what, type(a).__name__)
        good = check_mask(c, np.ma.getmaskarray(a.data), [im], what)
        pix = np.asarray(a.data.data, float) - c["bg"]
        n = 0
        for (y, x), f in zip(pos, fl):
            yi, xi = int(round(y)), int(round(x))
            if not good[max(yi - 6, 0):yi + 7, max(xi - 6, 0):xi + 7].all():
                continue
            box = pix[yi - 6:yi + 7, xi - 6:xi + 7]
            if box.shape != (13, 13):
                continue
            gy, gx = np.indices(box.shape)
            w = np.exp(-0.5 * ((gy - 6 - y + yi) ** 2 + (gx - 6 - x + xi) ** 2) / c["sig"] ** 2)
            s = (box * w).sum()
            cy = 2 * (box * w * (gy - 6)).sum() / s - (y - yi)
            cx = 2 * (box * w * (gx - 6)).sum() / s - (x - xi)
            off = max(abs(cy - (y - yi)), abs(cx - (x - xi)))
            n += 1
            ensure(off < 0.6, "{}: a star at {:.2f}, {:.2f} is {:.2f} pixels away", what, y, x, off)
            # flux of the pointing, on its own scale
            ratio = s / (f * im["scale"]) / (w ** 2).sum() * 2 * np.pi * c["sig"] ** 2
            ensure(0.8 < ratio < 1.25, "{}: a star keeps {:.2f} of its flux", what, ratio)
        rec.label("stars %d" % (n // 5 * 5))


def check_coadd(c, rec):
    pos, fl, _, _ = sky(c)
    if any(common(c, pos, im) < 15 for im in c["im"]):
        rec.label("few stars")
        return
    rec.nontrivial()
    cls = SingleImageGaussPSF if c["gauss"] else SingleImage
    try:
        R, P, M = coadd(build(c, pos, fl, cls, c["arrays"]), align=True, inf_loss=0.6,
                        n_procs=c["procs"])
    except ValueError as e:
        ensure("ource" in str(e) or "center" in str(e), "coadd raises {}", e)
        rec.label("refused")
        return
    shape = (c["h"], c["w"])
    for n, o in (("coadd", R), ("PSF", P)):
        ensure(np.shape(o) == shape, "{} has shape {} instead of {}", n, np.shape(o), shape)
        ensure(np.isfinite(o).all(), "{} is not finite", n)
    good = check_mask(c, M, [still(c)] + c["im"], "coadd")
    n = find_stars(np.real(R), good, pos, "coadd", 2.0)
    rec.label("stars %d" % (n // 5 * 5))


def check_subtract(c, rec):
    im = dict(c["im"][0])
    pos, fl, at, flux = sky(c, True)
    if common(c, pos, im) < 15:
        rec.label("few stars")
        return
    ins = geometry(c, im, 14)
    yi, xi = int(round(at[0])), int(round(at[1]))
    if not ins[yi - 8:yi + 9, xi - 8:xi + 9].all():
        rec.label("outside")
        return
    if im["bad"]:
        if np.hypot(*(bad_at(c, im) - np.array(at))) < 20:
            im["bad"] = None
    own = still(c)
    if own["bad"] and np.hypot(*(bad_at(c, own) - np.array(at))) < 20:
        own["bad"] = None
    rm = badbox(c, own)
    rec.nontrivial()
    cls = SingleImageGaussPSF if c["gauss"] else SingleImage
    allpos, allfl = np.vstack([pos, at]), np.append(fl, flux)
    shape = (c["h"], c["w"])
    inref = c["side"] == "ref"
    rp, rf = (allpos, allfl) if inref else (pos, fl)
    np_, nf = (pos, fl) if inref else (allpos, allfl)
    ref = stars(rp, rf, shape, c["sig"], c["noise"], c["seed"] + 9, c["bg"])
    pix, m = pointing(c, im, np_, nf, 0)
    try:
        raw = c["arrays"] and not m.any()
        D, P, S, M = subtract(
            ref if raw and c["seed"] % 2 and not rm.any() else wrap(cls, ref, rm, c["gain"], 0),
            pix if raw else wrap(cls, pix, m, im["gain"], im["crop"]),
            align=True, beta=c["beta"], shift=False,
                              inf_loss=0.9, fitted_psf=c["gauss"])
    except ValueError as e:
        ensure("ource" in str(e) or "center" in str(e), "subtract raises {}", e)
        rec.label("refused")
        return
    for n, o in (("D", D), ("P", P), ("S_corr", S)):
        ensure(np.shape(o) == shape, "{} has shape {} instead of {}", n, np.shape(o), shape)
    good = check_mask(c, M, [own, im], "difference")
    s = -np.real(S) if inref else np.real(S)
    s = np.where(good, s, 0)
    box = s[yi - 5:yi + 6, xi - 5:xi + 6]
    q = np.unravel_index(box.argmax(), box.shape)
    off = max(abs(q[0] + yi - 5 - at[0]), abs(q[1] + xi - 5 - at[1]))
    ensure(off <= 1.6, "the transient at {:.1f}, {:.1f} has its highest score {:.1f} pixels away",
           at[0], at[1], off)
    yy, xx = np.indices(shape)
    away = good & (np.hypot(yy - at[0], xx - at[1]) > 9)
    rest = np.abs(s[away])
    if rest.size:
        rec.label("contrast %.1f" % min(3, round(box.max() / rest.max(), 1)))
        ensure(box.max() > 1.0 * np.quantile(rest, 0.999), "the transient scores {:.3g}, the rest "
               "of the frame {:.3g}", box.max(), np.quantile(rest, 0.999))


CHECKS = [Check("align", cases(), check_align, 120, 4000),
          Check("coadd", cases(2, (190, 250), 26), check_coadd, 80, 3000),
          Check("subtract", cases(1, (190, 250), 26), check_subtract, 100, 4000)]

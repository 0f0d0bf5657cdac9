"""C04: values of declared bad pixels never influence any product."""
import numpy as np
from hypothesis import strategies as st

from properimage.operations import coadd, subtract
from properimage.single_image import SingleImage, SingleImageGaussPSF
from vf.core import Check, ensure
from vf.fields import fields, moved, paint, patterns, render, scatter, stars

RULE = ("Star field and a drawn mask array; the declared bad pixels hold two different drawn "
        "fillings (finite, huge, negative, NaN, infinite, random, fake stars) in two otherwise "
        "equal runs. Non-trivial: at least one declared pixel and different fillings.")
ASSUMPTIONS = ["only pixels the caller declared bad are changed"]

fill = st.sampled_from(["nan", "inf", "-inf", "0", "1e6", "-1e6", "64999", "-49", "3e38", "noise",
                        "star", "sky"])


@st.composite
def cases(draw):
    c = {"f": draw(fields(72, 110)), "mask": draw(patterns(3, 1)),
         "a": draw(fill), "b": draw(fill), "gain": draw(st.sampled_from([None, 1.5])),
         "zero": draw(st.booleans())}
    return c


def filled(c, mask, how):
    img = render(c["f"])
    rng = np.random.default_rng(c["f"]["seed"] + 7)
    if how == "noise":
        v = rng.normal(0, 3e4, img.shape)
    elif how == "star":
        v = img + 50 * c["f"]["noise"] * rng.random(img.shape)
    elif how == "sky":
        v = img
    else:
        v = np.full(img.shape, float(how))
    img[mask] = v[mask]
    return img


def same(a, b, what, rtol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    ensure(a.shape == b.shape, "{}: shapes {} {}", what, a.shape, b.shape)
    sc = np.nanmax(np.abs(a)) if a.size else 0
    ok = np.allclose(a, b, rtol=rtol, atol=rtol * (sc if np.isfinite(sc) else 1), equal_nan=True)
    ensure(ok, "{} depends on the values of bad pixels (max difference {} of {})", what,
           np.nanmax(np.abs(a - b)) if not ok else 0, sc)


def products(si, gm):
    good = ~gm
    yield "mask", np.ma.getmaskarray(si.data).astype(int)
    yield "background", si.background
    yield "noise", si.var
    yield "science data of good pixels", np.asarray(si.data.data)[good]
    s = si.best_sources
    for k in ("x", "y", "flux", "npix"):
        yield "sources " + k, np.array(s[k], float)
    yield "interpolated image", si.interped
    yield "stamps positions", si.stamps_pos
    for i, b in enumerate(si.kl_basis):
        yield "PSF basis", np.abs(b)
    yield "S component", si.s_component


def check_single(c, rec):
    mask = paint(c["mask"], (c["f"]["h"], c["f"]["w"]))
    if mask.mean() > 0.2:
        rec.label("too many bad")
        return
    rec.nontrivial(mask.any() and c["a"] != c["b"])
    rec.label(*sorted((c["a"], c["b"])))
    sis = [SingleImage(filled(c, mask, how), mask=mask.copy(), gain=c["gain"])
           for how in (c["a"], c["b"])]
    gm = np.ma.getmaskarray(sis[0].data)
    for (n, x), (_, y) in zip(products(sis[0], gm), products(sis[1], gm)):
        same(x, y, n, 1e-7)


def check_pair(c, rec):
    f = c["f"]
    mask = paint(c["mask"], (f["h"], f["w"]))
    if mask.mean() > 0.2:
        rec.label("too many bad")
        return
    rec.nontrivial(mask.any() and c["a"] != c["b"])
    other = render(f, nseed=f["nseed"] + 1)
    res = []
    for how in (c["a"], c["b"]):
        bad = filled(c, mask, how)
        if c["op"] == "coadd":
            res.append(coadd([SingleImage(bad, mask=mask.copy()), SingleImage(other)],
                             align=False, n_procs=1))
        else:
            cls = SingleImageGaussPSF if c["fit"] else SingleImage
            pair = [cls(bad, mask=mask.copy()), cls(other)]
            if c["zero"]:
                pair.reverse()
            res.append(subtract(*pair, beta=False, shift=False, fitted_psf=c["fit"]))
    for n, (x, y) in enumerate(zip(*res)):
        same(x, y, "%s output %d" % (c["op"], n), 1e-6)


@st.composite
def pairs(draw):
    c = draw(cases())
    c["op"] = draw(st.sampled_from(["subtract", "coadd"]))
    c["fit"] = draw(st.booleans())
    return c


@st.composite
def aligned(draw):
    c = draw(cases())
    c["t"] = [draw(st.integers(-60, 60)) / 10.0 for _ in range(2)]
    c["angle"] = draw(st.sampled_from([0.0, 0.05, -0.2, 3.1]))
    c["op"] = draw(st.sampled_from(["subtract", "coadd"]))
    c["fit"] = draw(st.booleans())
    return c


def check_aligned(c, rec):
    f = c["f"]
    shape = (f["h"] + 50, f["w"] + 50)
    mask = paint(c["mask"], shape)
    pos = scatter(f["seed"], *shape, 30)
    flux = f["noise"] * 2 * np.pi * f["sig"] ** 2 * np.random.default_rng(f["seed"]).uniform(
        60, 400, len(pos))
    if mask.mean() > 0.1:
        rec.label("too many bad")
        return
    rec.nontrivial(mask.any() and c["a"] != c["b"])
    ref = stars(pos, flux, shape, f["sig"], f["noise"], f["nseed"], f["bg"])
    new = stars(moved(pos, shape, c["angle"], c["t"]), flux, shape, f["sig"], f["noise"],
                f["nseed"] + 1, f["bg"])
    rng = np.random.default_rng(f["seed"] + 7)
    cls = SingleImageGaussPSF if c["fit"] else SingleImage
    res = []
    for how in (c["a"], c["b"]):
        bad = new.copy()
        bad[mask] = {"noise": rng.normal(0, 3e4, shape), "sky": new,
                     "star": new + 50 * f["noise"]}[how][mask] if how in (
                         "noise", "sky", "star") else float(how)
        pair = [cls(ref), cls(bad, mask=mask.copy())]
        try:
            if c["op"] == "coadd":
                res.append(coadd(pair, align=True, n_procs=1))
            else:
                res.append(subtract(*pair, align=True, beta=False, shift=False,
                                    fitted_psf=c["fit"]))
        except ValueError as e:
            ensure("ource" in str(e) or "center" in str(e), "{} raises {}", c["op"], e)
            res.append(())
    ensure(len(res[0]) == len(res[1]), "one filling of the bad pixels is refused")
    for n, (x, y) in enumerate(zip(*res)):
        same(x, y, "aligned %s output %d" % (c["op"], n), 1e-6)


CHECKS = [Check("single", cases(), check_single, 480, 10000),
          Check("pair", pairs(), check_pair, 160, 3000),
          Check("aligned", aligned(), check_aligned, 80, 2000)]

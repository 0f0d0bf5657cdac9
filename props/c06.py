"""C06: nothing the caller supplied is modified."""
import hashlib
import os
import shutil
import tempfile
import warnings

import numpy as np
from astropy.io import fits
from hypothesis import strategies as st

from properimage import plot as pplot, utils
from properimage.operations import coadd, diff, subtract
from properimage.single_image import SingleImage, SingleImageGaussPSF
from vf.core import Check, ensure
from vf.fields import fields, render, paint, patterns
from . import c20

RULE = ("Two or three images of one field in drawn containers, dtypes and masks, then a drawn "
        "history of products, plots, settings, subtractions, coadds and matchings; everything "
        "the caller holds is compared bit for bit after each step, and so are products returned "
        "earlier. Non-trivial: the history has at least two operations.")
ASSUMPTIONS = ["the source catalogue of an image may be re-sorted by the matching step, so it is "
               "not among the products that must keep their values",
               "zero point and information loss are settings of the image, which operations set"]

FORMS = ["array", "array", "hdu", "hdulist", "hdulist+mask", "path", "path+mask", "array+maskfile",
         "array+mask", "masked nan"]
PRODUCTS = ["background", "bkg_sub_img", "interped", "interped_hat", "s_component", "s_hat_comp",
            "normal_image", "kl_basis", "stamps_pos", "cov_matrix", "psf_at", "varpsf", "mask",
            "data", "sqnorm"]


@st.composite
def cases(draw):
    n = draw(st.integers(2, 3))
    f = draw(fields(80, 110, bg=(20, 200), sp=(16, 19)))
    ims = [{"form": draw(st.sampled_from(FORMS)), "ns": draw(st.integers(0, 999)),
            "dt": draw(st.sampled_from(["f8", "f4", ">f4", ">f8", "<i4"])),
            "bad": draw(patterns(2)), "gauss": draw(st.booleans()),
            "fort": draw(st.booleans()),
            "gain": draw(st.sampled_from([None, 1.0, 1.5, 2])),
            "opt": draw(st.sampled_from(["", "", "strict", "smooth", "noguess"]))}
           for _ in range(n)]
    ix = st.integers(0, n - 1)
    setting = st.one_of(st.tuples(st.just("loss"), st.sampled_from([0.02, 0.1, 0.5])),
                        st.tuples(st.just("zp"), st.sampled_from([0.5, 1.0, 3.0])))
    twice = st.tuples(st.just("twice"), ix, st.lists(st.sampled_from(
        PRODUCTS + ["s_hat_comp"] * 3), min_size=1, max_size=4),
        st.permutations(list(range(n))), st.sampled_from([1, 1, 0, 2, 3]))
    op = st.one_of(
        st.tuples(st.just("get"), ix, st.sampled_from(PRODUCTS)),
        # the same product again, after a setting changed
        st.tuples(st.just("again"), ix, st.sampled_from(PRODUCTS), setting),
        st.tuples(st.just("again"), ix, st.sampled_from(PRODUCTS), setting),
        st.tuples(st.just("loss"), ix, st.sampled_from([0.02, 0.1, 0.5])),
        st.tuples(st.just("zp"), ix, st.sampled_from([0.5, 1.0, 3.0])),
        st.tuples(st.just("subtract"), ix, ix, st.booleans(), st.sampled_from(
            ["plain", "beta", "iterative"]), st.sampled_from(["image", "raw"])),
        st.tuples(st.just("coadd"), st.permutations(list(range(n))), st.integers(1, 3),
                  st.sampled_from(["image", "raw"])),
        # an operation, products of an image it took, and the operation again
        twice, twice, twice,
        st.tuples(st.just("transparency"), ix, ix),
        st.tuples(st.just("plot"), ix, st.sampled_from(["imshow", "autopsf", "iso", "coef"])),
        st.tuples(st.just("store"), ix),
        st.tuples(st.just("update"), ix),
        st.tuples(st.just("scoreplot"), ix),
    )
    ops = draw(st.lists(op, min_size=1, max_size=6))
    return {"f": f, "ims": ims, "ops": [list(o) for o in ops]}


def digest(o):
    """Bit-exact state of something the caller holds."""
    if isinstance(o, np.ma.MaskedArray):
        return ("ma", digest(np.asarray(o.data)), digest(np.ma.getmaskarray(o)))
    if isinstance(o, np.ndarray):
        return ("a", o.shape, o.dtype.str, hashlib.sha1(o.tobytes()).hexdigest())
    if isinstance(o, fits.HDUList):
        return ("hl",) + tuple(digest(h) for h in o)
    if isinstance(o, (fits.PrimaryHDU, fits.ImageHDU)):
        return ("h", o.header.tostring(), digest(o.data))
    if isinstance(o, str):
        st_ = os.stat(o)
        with open(o, "rb") as fh:
            return ("f", hashlib.sha1(fh.read()).hexdigest(), st_.st_mtime_ns, st_.st_mode)
    if isinstance(o, (list, tuple)):
        return ("l",) + tuple(digest(x) for x in o)
    if o is None or isinstance(o, (int, float, bool)):
        return o
    return ("o", id(o))


def supply(spec, f, k, d):
    """Return (img, mask argument) as the caller holds them."""
    img = render(f, nseed=f["nseed"] + spec["ns"])
    bad = paint(spec["bad"], img.shape)
    form = spec["form"]
    dt = np.dtype(spec["dt"])
    if dt.kind == "i" or bad.mean() > 0.1:
        bad[:] = False if dt.kind == "i" and form == "masked nan" else bad
    if bad.mean() > 0.1:
        bad[:] = False
    if form == "masked nan" and dt.kind == "f":
        img[bad] = np.nan
    img = img.astype(dt)
    if spec["fort"]:
        img = np.asfortranarray(img)
    if form in ("array", "masked nan"):
        return img, None
    if form == "array+mask":
        return img, bad
    if form == "array+maskfile":
        p = os.path.join(d, "mask%d.fits" % k)
        fits.writeto(p, bad.astype("u1") * 20)
        return img, p
    hl = fits.HDUList([fits.PrimaryHDU(img)])
    hl[0].header["OBJECT"] = "field"
    hl[0].header["COMMENT"] = "as observed"
    if spec["gain"] is not None:
        hl[0].header["GAIN"] = spec["gain"]
    if form.endswith("+mask"):
        hl.append(fits.ImageHDU(bad.astype("u1") * 20))
        hl[0].header["EXTEND"] = True
    if form == "hdu":
        return hl[0], None
    if form.startswith("hdulist"):
        return hl, None
    p = os.path.join(d, "im%d.fits" % k)
    hl.writeto(p)
    return p, None


def listing(d):
    return sorted(os.listdir(d))


def product(si, name):
    if name == "psf_at":
        h, w = si.data.shape
        return si.get_psf_xy(h // 2, w // 2)
    if name == "varpsf":
        return list(si.get_variable_psf()[1])
    if name == "sqnorm":
        return si.psf_hat_sqnorm()
    return getattr(si, name)


def arrays(o):
    if isinstance(o, np.ndarray):
        return [o]
    if isinstance(o, (list, tuple)):
        return [a for x in o for a in arrays(x)]
    return []


def check_history(c, rec):
    import matplotlib.pyplot as plt
    f = c["f"]
    d = tempfile.mkdtemp()
    cwd = os.getcwd()
    try:
        os.mkdir(os.path.join(d, "cwd"))
        os.chdir(os.path.join(d, "cwd"))
        held = []
        for k, s in enumerate(c["ims"]):
            held.append(supply(s, f, k, d))
        before = [digest(x) for pair in held for x in pair]
        files = listing(d)
        earlier = []

        def verify(step):
            now = [digest(x) for pair in held for x in pair]
            for n, (x, y) in enumerate(zip(before, now)):
                ensure(x == y, "{} of image {} ({}) was modified by {}",
                       ["data", "mask"][n % 2], n // 2, c["ims"][n // 2]["form"], step)
            ensure(listing(d) == files, "{} left files {}", step,
                   sorted(set(listing(d)) ^ set(files)))
            ensure(os.listdir(".") == [], "{} left {} in the working directory", step,
                   os.listdir("."))
            for where, arr, was in earlier:
                ensure(digest(arr) == was, "{} returned by {} was altered by {}",
                       type(arr).__name__, where, step)

        ims = []
        for spec, (img, mask) in zip(c["ims"], held):
            cls = SingleImageGaussPSF if spec["gauss"] else SingleImage
            opts = {"strict": {"strict_star_pick": True}, "smooth": {"smooth_psf": True},
                    "noguess": {"guessmask": False}}.get(spec["opt"], {})
            ims.append(cls(img, mask=mask, **opts))
            verify("construction")
        rec.nontrivial(len(c["ops"]) >= 2)
        ops = []
        for op in c["ops"]:
            if op[0] == "twice":
                o = ["coadd", op[3], op[4], "image"] if op[4] else [
                    "subtract", op[3][0], op[3][1], False, "beta", "image"]
                ops += [o] + [["get", op[3][0], p] for p in op[2]] + [
                    ["get", op[1], p] for p in op[2]] + [o]
                continue
            ops += [["get", op[1], op[2]], [op[3][0], op[1], op[3][1]], ["get", op[1], op[2]]] \
                if op[0] == "again" else [op]
        for op in ops:
            kind = op[0]
            rec.label(kind)
            si = ims[op[1]] if isinstance(op[1], int) else None
            out = None
            name = " ".join(str(x) for x in op)
            if kind == "get":
                out = product(si, op[2])
            elif kind == "loss":
                si.inf_loss = op[2]
            elif kind == "zp":
                si.zp = op[2]
            elif kind == "subtract":
                args = [ims[op[1]], ims[op[2]]]
                if op[5] == "raw":
                    args = [held[op[1]][0], held[op[2]][0]]
                fit = op[3]
                if op[5] == "image" and fit:
                    # image objects are taken as they are by the fitted mode only
                    args = [a if isinstance(a, SingleImageGaussPSF) else held[k][0]
                            for a, k in zip(args, op[1:3])]
                out = subtract(*args, shift=False, beta=op[4] != "plain",
                               iterative=op[4] == "iterative", fitted_psf=fit)
            elif kind == "coadd":
                lst = [ims[k] if op[3] == "image" else held[k][0] for k in op[1]]
                same = list(lst)
                out = coadd(lst, align=False, n_procs=op[2])
                ensure(len(lst) == len(same) and all(a is b for a, b in zip(lst, same)),
                       "coadd changed the caller's list")
            elif kind == "transparency":
                if op[1] != op[2]:
                    out = utils.transparency([ims[op[1]], ims[op[2]]])[0]
            elif kind == "plot":
                fig = plt.figure()
                if op[2] == "coef":
                    try:
                        si.plot.autopsf_coef()
                    except pplot.NoDataToPlot:
                        rec.label("constant")
                elif op[2] == "imshow":
                    si.plot()
                else:
                    si.plot.autopsf(iso=op[2] == "iso")
                plt.close(fig)
            elif kind == "store":
                p = os.path.join(d, "cwd", "s.fits")
                src = si.data
                h = utils.store_img(src)
                utils.store_img(src, p)
                os.remove(p)
                out = arrays([x.data for x in h])
            elif kind == "update":
                si.update_sources()
            elif kind == "scoreplot":
                arr = si.s_component
                was = digest(arr)
                utils.find_S_local_maxima(arr, threshold=5)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    pplot.plot_S(arr, path=os.path.join(d, "cwd", "p.png"))
                os.remove(os.path.join(d, "cwd", "p.png"))
                ensure(digest(arr) == was, "the score image was altered by {}", name)
            verify(name)
            for a in arrays(out):
                earlier.append((name, a, digest(a)))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def check_aligned(c, rec):
    """Alignment works on copies: pixels, masks and products of the given images stay."""
    pos, fl, _, _ = c20.sky(c)
    if any(c20.common(c, pos, im) < 15 for im in c["im"]):
        rec.label("few stars")
        return
    cls = SingleImageGaussPSF if c["gauss"] else SingleImage
    given = c20.build(c, pos, fl, cls, c["arrays"])
    held = []
    for k, g in enumerate(given):
        if isinstance(g, np.ndarray):
            held.append(("array %d" % k, g))
            continue
        held += [("%s of image %d" % (n, k), getattr(g, n)) for n in (
            "data", "mask", "bkg_sub_img", "interped")]
    was = [digest(a) for _, a in held]
    bkg = [None if isinstance(g, np.ndarray) else g.background.copy() for g in given]
    rec.nontrivial()
    try:
        if len(given) == 2:
            rec.label("subtract")
            subtract(given[0], given[1], align=True, shift=False, beta=False, inf_loss=0.6,
                     fitted_psf=c["gauss"])
        else:
            rec.label("coadd")
            coadd(given, align=True, inf_loss=0.6, n_procs=c["procs"])
    except ValueError as e:
        ensure("ource" in str(e) or "center" in str(e), "the operation raises {}", e)
        rec.label("refused")
    for (n, a), w in zip(held, was):
        ensure(digest(a) == w, "{} was modified by an operation that aligns", n)
    for k, (g, b) in enumerate(zip(given, bkg)):
        if b is None:
            continue
        now = [("data", g.data, held), ("background", g.background, None)]
        ensure(digest(now[1][1]) == digest(b), "the background of image {} changed", k)
        ensure(g.data.shape == b.shape and digest(g.data) == was[[n for n, _ in held].index(
            "data of image %d" % k)], "image {} shows other pixels after alignment", k)


CHECKS = [Check("aligned", c20.cases(), check_aligned, 60, 2000),
          Check("history", cases(), check_history, 480, 8000)]

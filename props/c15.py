"""C15: inputs, masks and entry points of subtract and coadd."""
import os
import shutil
import tempfile
import warnings

import numpy as np
from astropy.io import fits
from hypothesis import strategies as st

from properimage.operations import coadd, diff, stack_R, subtract
from properimage.single_image import SingleImage, SingleImageGaussPSF
from vf.core import Check, ensure
from vf.fields import fields, grow, render, paint, patterns

RULE = ("Pairs of fields handed over as image objects of both kinds, arrays, HDUs, HDU lists and "
        "files in drawn mixtures, gains and modes; masks as drawn patterns; shapes drawn apart. Each "
        "result is compared with the one of image objects. Non-trivial: the two forms differ, a "
        "mask is not empty, or shapes mismatch.")
ASSUMPTIONS = ["the mask of an image object rebuilt as the other PSF kind may grow once more", "mixed forms are compared on images without bad pixels, or with the mask stored "
               "in the file"]
FORMS = ["object", "other", "array", "array32", "hdu", "hdul", "path"]
GAINS = [None, None, 0.5, 2.0]  # exact in single precision, ratios within the fit bounds
DEFAULTS = {"align": False, "inf_loss": 0.25, "smooth_psf": False, "beta": True, "shift": True,
            "iterative": False, "fitted_psf": True}
MODES = [(False, False), (True, False), (True, True)]


def form(kind, pix, fit, tmp, tag, mask=None, smooth=False, gain=None):
    """The pixels in one of the accepted forms; arrays carry no gain."""
    own, other = (SingleImageGaussPSF, SingleImage) if fit else (SingleImage, SingleImage)
    if kind == "object":
        return own(pix.copy(), mask=mask, smooth_psf=smooth, gain=gain)
    if kind == "other":
        return other(pix.copy(), mask=mask, smooth_psf=smooth, gain=gain)
    if kind == "array":
        return pix.copy()
    if kind == "array32":
        return pix.astype(np.float32)
    p = fits.PrimaryHDU(pix.copy())
    if gain is not None:
        p.header["GAIN"] = gain
    if kind == "hdu":
        return p
    hl = fits.HDUList([p] + ([] if mask is None else [fits.ImageHDU(mask.astype("i2") * 100)]))
    if kind == "hdul":
        return hl
    path = os.path.join(tmp, tag + ".fits")
    hl.writeto(path, overwrite=True)
    return path


def run(op, *a, **k):
    """Run in a scratch directory, keep plain warnings quiet."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return op(*a, **k)


def equal(got, want, what):
    for n, g, w in zip(("image", "PSF", "score", "mask"), got, want):
        g, w = np.ma.getdata(g), np.ma.getdata(w)
        ensure(np.shape(g) == np.shape(w) and np.allclose(g, w, rtol=1e-9, atol=1e-9 * max(
            np.abs(w).max(), 1e-30), equal_nan=True), "{} of {} differs", n, what)


@st.composite
def form_cases(draw):
    fit = draw(st.booleans())
    return {"f": draw(fields(60, 100)), "fit": fit, "mode": draw(st.integers(0, 2)),
            "a": draw(st.sampled_from(FORMS)), "b": draw(st.sampled_from(FORMS)),
            "scale": draw(st.sampled_from([1.0, 0.6, 1.8])),
            "smooth": draw(st.booleans()), "diff": draw(st.booleans()),
            # options left to their documented defaults
            "omit": draw(st.lists(st.sampled_from(sorted(DEFAULTS)), max_size=2, unique=True)),
            "gains": draw(st.lists(st.sampled_from(GAINS), min_size=2, max_size=2)),
            "loss": draw(st.sampled_from([0.25, 0.1]))}


def check_forms(c, rec):
    f = c["f"]
    pix = [np.float64(np.float32(render(f))),
           np.float64(np.float32(render(f, scale=c["scale"], nseed=f["nseed"] + 1)))]
    tmp = tempfile.mkdtemp()
    beta, it = MODES[c["mode"]]
    omit = [o for o in c.get("omit", []) if o != "fitted_psf" or c["fit"]]
    smooth = c["smooth"] and "smooth_psf" not in omit
    full = dict(align=False, beta=beta, iterative=it, shift=False, fitted_psf=c["fit"],
                inf_loss=c["loss"], smooth_psf=smooth)
    kw = {k: v for k, v in full.items() if k not in omit}
    full = {k: DEFAULTS[k] if k in omit else v for k, v in full.items()}
    try:
        kinds = (c["a"], c["b"])
        gains = [None if k.startswith("array") else g for k, g in zip(kinds, c.get("gains", [None] * 2))]
        want = run(subtract, *[form("object", p, c["fit"], tmp, "o", smooth=smooth, gain=g)
                               for p, g in zip(pix, gains)], **full)
        got = [form(k, p, c["fit"], tmp, "i%d" % i, smooth=smooth, gain=g)
               for i, (k, p, g) in enumerate(zip(kinds, pix, gains))]
        rec.nontrivial(c["a"] != c["b"])
        rec.label(c["a"], c["b"])
        rec.label(*["default " + o for o in omit])
        if gains[0] != gains[1]:
            rec.label("gains apart")
        if c["diff"]:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                got = diff(*got, **kw)
            ensure(any(issubclass(x.category, DeprecationWarning) and "subtract" in str(x.message)
                       for x in w), "diff does not warn that it is deprecated")
        else:
            got = run(subtract, *got, **kw)
        equal(got, want, "subtracting a %s from a %s" % (c["a"], c["b"]))
    finally:
        shutil.rmtree(tmp)


@st.composite
def mask_cases(draw):
    m = st.one_of(st.none(), patterns(3, 1))
    return {"f": draw(fields(76, 110)), "fit": draw(st.booleans()), "mode": draw(st.integers(0, 2)),
            "m1": draw(m), "m2": draw(m),
            "form": draw(st.sampled_from(["object", "other", "hdul", "path", "values"])),
            "one": draw(st.booleans())}


def check_masks(c, rec):
    f = c["f"]
    shape = (f["h"], f["w"])
    pix = [render(f), render(f, nseed=f["nseed"] + 1)]
    masks = [paint(m, shape) if m else None for m in (c["m1"], c["m2"])]
    masks = [None if m is not None and m.mean() > 0.06 else m for m in masks]
    tmp = tempfile.mkdtemp()
    beta, it = MODES[c["mode"]]
    cls = SingleImageGaussPSF if c["fit"] else SingleImage
    try:
        if c["form"] == "values":
            for p, m in zip(pix, masks):
                if m is not None:
                    p[m] = np.nan
            masks = [None, None]
        objs = [cls(p.copy(), mask=None if m is None else m.copy()) for p, m in zip(pix, masks)]
        want = np.zeros(shape, bool)
        for o in objs:
            want |= np.ma.getmaskarray(o.data)
        each = [np.ma.getmaskarray(o.data).copy() for o in objs]
        kind = {"values": "array"}.get(c["form"], c["form"])
        # perhaps only the first in that form, the second an object
        ins = [form("object" if i and c["one"] else kind, p, c["fit"], tmp, "m%d" % i, m)
               for i, (p, m) in enumerate(zip(pix, masks))]
        rec.nontrivial(want.any())
        rec.label(c["form"], "both" if all(e.any() for e in each) else "one or none")
        try:
            M = run(subtract, *ins, beta=beta, iterative=it, shift=False, fitted_psf=c["fit"])[3]
        except ValueError as e:
            if c["fit"] or "center" not in str(e):
                raise
            rec.label("no PSF centre")  # too few unmasked stars
            return
        ensure(np.shape(M) == shape, "the mask of the difference has shape {}", np.shape(M))
        ensure(np.asarray(M).dtype == bool, "the mask of the difference has type {}",
               np.asarray(M).dtype)
        miss, extra = want & ~M, M & ~want
        ensure(not miss.any(), "the mask of the difference is not the union: {} pixels miss",
               miss.sum())
        if kind == "other" and c["fit"]:
            # an object of the other kind is built again from the masked
            # pixels, and its mask grown again
            for e in each:
                extra &= ~grow(e)
        ensure(not extra.any(), "the mask of the difference is not the union: {} extra pixels",
               extra.sum())
        R, P, M = run(coadd, [form(kind, p, c["fit"], tmp, "c%d" % i, m) for i, (p, m) in
                              enumerate(zip(pix, masks))], align=False, n_procs=1 + c["mode"])
        ensure(np.shape(M) == shape and np.asarray(M).dtype == bool
               and (np.asarray(M) == want).all(), "the mask of the coadd is not the union")
    finally:
        shutil.rmtree(tmp)


@st.composite
def shape_cases(draw):
    d = st.one_of(st.just(0), st.integers(-12, 12))
    return {"f": draw(fields(66, 90)), "dh": draw(d), "dw": draw(d), "swap": draw(st.booleans()),
            "fit": draw(st.booleans()), "mode": draw(st.integers(0, 2)),
            "shift": draw(st.booleans()),
            "a": draw(st.sampled_from(FORMS)), "b": draw(st.sampled_from(FORMS))}


def check_shapes(c, rec):
    f = c["f"]
    g = dict(f, h=f["h"] + c["dh"], w=f["w"] + c["dw"])
    if c["swap"]:
        g = dict(f, h=f["w"], w=f["h"])
    if (g["h"], g["w"]) == (f["h"], f["w"]):
        rec.label("equal")
        return
    rec.nontrivial()
    rec.label("one axis" if (g["h"] == f["h"]) != (g["w"] == f["w"]) else "both axes")
    tmp = tempfile.mkdtemp()
    beta, it = MODES[c["mode"]]
    try:
        a = form(c["a"], render(f), c["fit"], tmp, "a")
        b = form(c["b"], render(g), c["fit"], tmp, "b")
        try:
            run(subtract, a, b, beta=beta, iterative=it, shift=c["shift"], fitted_psf=c["fit"])
        except ValueError:
            return
        except Exception as e:
            ensure(False, "shapes {} and {} raise {} instead of ValueError", (f["h"], f["w"]),
                   (g["h"], g["w"]), type(e).__name__)
        ensure(False, "shapes {} and {} are subtracted", (f["h"], f["w"]), (g["h"], g["w"]))
    finally:
        shutil.rmtree(tmp)


@st.composite
def coadd_cases(draw):
    n = draw(st.integers(1, 4))
    kinds = [k for k in FORMS if k != "other"]
    return {"f": draw(fields(60, 90)), "kinds": [draw(st.sampled_from(kinds)) for _ in range(n)],
            "gains": draw(st.lists(st.sampled_from(GAINS), min_size=n, max_size=n)),
            "procs": draw(st.integers(1, 4)), "loss": draw(st.sampled_from([0.2, 0.05])),
            "stack": draw(st.booleans()), "gauss": draw(st.booleans()),
            "omit": draw(st.sampled_from([[], ["n_procs"], ["inf_loss"]]))}


def check_coadd(c, rec):
    f = c["f"]
    pix = [np.float64(np.float32(render(f, nseed=f["nseed"] + i, scale=1 - 0.1 * i)))
           for i in range(len(c["kinds"]))]
    tmp = tempfile.mkdtemp()
    try:
        gains = [None if k.startswith("array") else g for k, g in zip(c["kinds"], c["gains"])]
        kw = {k: v for k, v in (("align", False), ("inf_loss", c["loss"]), ("n_procs", c["procs"]))
              if k not in c["omit"]}
        want = run(coadd, [SingleImage(p.copy(), gain=g) for p, g in zip(pix, gains)],
                   **{k: 1 if k == "n_procs" else v for k, v in kw.items()})
        ins = [form(k, p, False, tmp, "k%d" % i, gain=g)
               for i, (k, p, g) in enumerate(zip(c["kinds"], pix, gains))]
        rec.nontrivial(len(set(c["kinds"])) > 1)
        if c["stack"]:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                got = stack_R(ins, **kw)
            ensure(any(issubclass(x.category, DeprecationWarning) and "coadd" in str(x.message)
                       for x in w), "stack_R does not warn that it is deprecated")
        else:
            got = run(coadd, ins, **kw)
        for n, g, w in zip(("coadd", "PSF of the coadd", "mask of the coadd"), got, want):
            ensure(np.allclose(np.ma.getdata(g), np.ma.getdata(w), rtol=0,
                               atol=1e-8 * max(np.abs(w).max(), 1e-30)),
                   "{} of {} differs from the one of image objects", n, c["kinds"])
    finally:
        shutil.rmtree(tmp)


CHECKS = [Check("forms", form_cases(), check_forms, 320, 5000),
          Check("masks", mask_cases(), check_masks, 240, 4000),
          Check("shapes", shape_cases(), check_shapes, 320, 4000),
          Check("coadd", coadd_cases(), check_coadd, 120, 2000)]

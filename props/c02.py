"""C02: crop and zero borders keep exactly the requested rectangle."""
import os
import shutil
import tempfile

import numpy as np
from astropy.io import fits
from hypothesis import strategies as st

from properimage.single_image import SingleImage
from vf.core import Check, ensure
from vf.fields import fields, render, paint, patterns, value_bad, grow, science

RULE = ("Star field surrounded by drawn zero paddings (possibly zero-width, unequal) and/or a "
        "drawn crop quadruple, in a drawn container, with gain and bad pixels. Non-trivial: "
        "some padding or crop margin is positive and the four are not all equal.")
ASSUMPTIONS = ["sky is positive, so that only the padding is made of zero rows and columns "
               "(dead zero lines inside the field, and dark or broken lines at its "
               "edges, are generated too)"]

side = st.one_of(st.just(0), st.integers(0, 18), st.integers(1, 3))
FORMS = ["array", "hdu", "hdulist", "path"]


@st.composite
def cases(draw):
    return {"f": draw(fields(60, 100, bg=(30, 300), noise=(1, 3))),
            "pad": draw(st.lists(side, min_size=4, max_size=4)),
            "borders": draw(st.booleans()),
            "crop": draw(st.one_of(st.just([0, 0, 0, 0]), st.lists(side, min_size=4, max_size=4))),
            "form": draw(st.sampled_from(FORMS)),
            "astuple": draw(st.booleans()),
            "dead": draw(st.lists(st.integers(0, 3), max_size=2)),
            "edges": draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from(
                ["-5", "-80", "nan", "1e-20", "inf"])), max_size=2)),
            "gain": draw(st.sampled_from([None, 2.0, 0.5])),
            "bad": draw(patterns(1)), "detect": draw(st.booleans())}


def make(pix, form, d, **kw):
    if form == "array":
        return SingleImage(pix.copy(), **kw)
    h = fits.PrimaryHDU(pix.copy())
    if form == "hdu":
        return SingleImage(h, **kw)
    if form == "hdulist":
        return SingleImage(fits.HDUList([h]), **kw)
    p = os.path.join(d, "a.fits")
    h.writeto(p)
    return SingleImage(p, **kw)


def check_geometry(c, rec):
    f = c["f"]
    core = np.maximum(render(f), 1.0)
    core[paint(c["bad"], core.shape)] = np.nan
    h, w = core.shape
    for k in c["dead"]:      # dead lines inside the field must stay
        if k == 0:
            core[h // 2] = 0
        elif k == 1:
            core[:, w // 2] = 0
        elif k == 2:
            core[h // 3] = 0
        else:
            core[:, w // 4] = 0
    t, b, l, r = c["pad"]
    if c["borders"] and (t or b or l or r):
        # frame edges must hold data
        core[0, 5] = core[-1, 5] = core[5, 0] = core[5, -1] = f["bg"] + 1
    for k, v in c["edges"]:  # lines of dark or broken pixels are no padding
        line = [core[0], core[-1], core[:, 0], core[:, -1]][k]
        line[:] = float(v)
    pix = np.pad(core, ((t, b), (l, r)))
    want = science(pix, 1.0)
    if c["borders"]:
        filled = want != 0
        rows, cols = np.where(filled.any(1))[0], np.where(filled.any(0))[0]
        want = want[rows.min():rows.max() + 1, cols.min():cols.max() + 1]
        ensure(want.shape == core.shape, "harness: {} {}", want.shape, core.shape)
    ct, cb, cl, cr = c["crop"]
    want = want[ct:want.shape[0] - cb, cl:want.shape[1] - cr]
    want = want * (c["gain"] or 1.0)
    pads = (c["pad"] if c["borders"] else []) + c["crop"]
    rec.nontrivial(any(pads) and len(set(pads)) > 1)
    rec.label(c["form"], "borders" if c["borders"] and any(c["pad"]) else "noborders",
              "crop" if any(c["crop"]) else "nocrop",
              "zero margin" if any(c["crop"]) and 0 in c["crop"] else "-")
    clean = not c["bad"] and not c["dead"] and not c["edges"] and (c["borders"] or not any(c["pad"]))
    kw = {} if c["detect"] and clean else {"stamp_shape": (15, 15)}
    crop = ((ct, cb), (cl, cr)) if c["astuple"] else [[ct, cb], [cl, cr]]
    d = tempfile.mkdtemp()
    try:
        si = make(pix, c["form"], d, borders=c["borders"], crop=crop, gain=c["gain"], **kw)
        ensure(si.data.shape == want.shape, "shape {} instead of {}", si.data.shape, want.shape)
        ensure(np.allclose(si.data.data, want, rtol=3e-7, atol=0, equal_nan=True),
               "kept pixels are not the requested rectangle")
        mask = grow(value_bad(want))
        ensure(np.array_equal(np.ma.getmaskarray(si.data), mask), "mask not of the kept rectangle")
        ensure(si.background.shape == want.shape, "background shape {}", si.background.shape)
        ensure(si.bkg_sub_img.shape == want.shape, "bkg_sub_img shape")
        if not kw:
            s = si.best_sources
            ensure((s["x"] >= -0.5).all() and (s["x"] < want.shape[1]).all()
                   and (s["y"] >= -0.5).all() and (s["y"] < want.shape[0]).all(),
                   "sources outside the kept rectangle")
            # the brightest pixel of a source is a local bright pixel of the kept frame
            yy = np.clip(np.rint(s["y"]).astype(int), 0, want.shape[0] - 1)
            xx = np.clip(np.rint(s["x"]).astype(int), 0, want.shape[1] - 1)
            ensure((want[yy, xx] > np.median(want)).mean() > 0.9, "sources not at bright pixels")
    finally:
        shutil.rmtree(d)


CHECKS = [Check("geometry", cases(), check_geometry, 1600, 30000, examples=[])]

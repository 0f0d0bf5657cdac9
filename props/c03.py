"""C03: exact bad-pixel mask."""
import os
import shutil
import tempfile

import numpy as np
from astropy.io import fits
from hypothesis import strategies as st

from properimage.single_image import SingleImage
from vf.core import Check, ensure
from vf.fields import paint, patterns, value_bad, grow, science

RULE = ("Noise frame with drawn bad-pixel patterns for declared, non-finite, saturated, negative "
        "and exactly-at-limit values; the declaration comes from no mask, a boolean or integer "
        "array, a mask file or a mask extension of either polarity and any threshold. "
        "Non-trivial: at least one bad pixel.")
ASSUMPTIONS = ["at least half of the frame is good (the background needs good pixels)",
               "stamp shape is given so that no star is needed"]

VALUES = ["nan", "inf", "-inf", "65000", "65000.01", "70000", "1e30", "-50", "-50.01", "-1000"]


@st.composite
def cases(draw):
    vals = draw(st.lists(st.tuples(st.sampled_from(VALUES), patterns(2)), max_size=3))
    return {"h": draw(st.integers(20, 90)), "w": draw(st.integers(20, 90)),
            "seed": draw(st.integers(0, 9999)), "vals": [list(v) for v in vals],
            "decl": draw(patterns(3)),
            "how": draw(st.sampled_from(["none", "bool", "int", "file", "ext-list", "ext-file",
                                         "guess off", "bool", "file", "ext-file"])),
            "invert": draw(st.booleans()), "mdt": draw(st.sampled_from(["u1", "i2", "i4", "f4"])),
            "thresh": draw(st.one_of(st.none(), st.integers(1, 200))),
            "near": draw(st.sampled_from([0, 0, 1])),
            "base": draw(st.sampled_from(["array", "hdu", "hdulist", "path"])),
            "gain": draw(st.sampled_from([None, None, 2.0, 0.5]))}


def check_mask(c, rec):
    rng = np.random.default_rng(c["seed"])
    pix = rng.normal(100, 3, (c["h"], c["w"])).astype("f4")
    for v, pat in c["vals"]:
        pix[paint(pat, pix.shape)] = np.float32(v)
    gain = c["gain"] or 1.0
    decl = paint(c["decl"], pix.shape)
    how = c["how"]
    thr = 16 if c["thresh"] is None else c["thresh"]
    kw = {"maskthresh": c["thresh"], "gain": c["gain"], "stamp_shape": (11, 11)}
    d = tempfile.mkdtemp()
    try:
        if how in ("file", "ext-list", "ext-file"):
            # values at or around the threshold, of either polarity
            if c["invert"]:
                m = np.where(decl, max(thr - c["near"], 0), thr + 1 + c["near"])
            else:
                m = np.where(decl, thr + c["near"], np.where(rng.random(pix.shape) < .1, thr - 1, 0))
            m = m.astype(c["mdt"])
            declared = (m >= thr) if np.median(m) == 0 else (m <= thr)
            mh = fits.ImageHDU(m)
        elif how in ("none", "guess off"):
            declared = np.zeros(pix.shape, bool)
        else:
            declared = decl
        if how == "file":
            mp = os.path.join(d, "m.fits")
            fits.PrimaryHDU(m).writeto(mp)
            kw["mask"] = mp
        elif how == "bool":
            kw["mask"] = decl.copy()
        elif how == "int":
            kw["mask"] = decl.astype(int)
        elif how == "guess off":
            kw["guessmask"] = False
        hdu = fits.PrimaryHDU(pix.copy())
        if how == "ext-list":
            hl = fits.HDUList([hdu, mh])
            hl[0].header["EXTEND"] = True
            img = hl
        elif how == "ext-file":
            img = os.path.join(d, "i.fits")
            fits.HDUList([hdu, mh]).writeto(img)
        elif c["base"] == "array":
            img = pix.copy()
        elif c["base"] == "hdu":
            img = hdu
        elif c["base"] == "hdulist":
            img = fits.HDUList([hdu])
        else:
            img = os.path.join(d, "i.fits")
            hdu.writeto(img)
        sci = science(pix, gain)
        base = declared | value_bad(sci)
        want = grow(base)
        if want.mean() > 0.5:
            rec.label("too many bad")
            return
        rec.nontrivial(base.any())
        rec.label(how, "grown" if want.sum() > base.sum() else "not grown")
        si = SingleImage(img, **kw)
        got = si.mask
        ensure(np.shape(got) == pix.shape and got.dtype == bool, "mask of shape {}", np.shape(got))
        if not np.array_equal(got, want):
            extra, miss = got & ~want, want & ~got
            ensure(False, "{} pixels wrongly masked {}, {} wrongly unmasked {}", extra.sum(),
                   np.argwhere(extra)[:3].tolist(), miss.sum(), np.argwhere(miss)[:3].tolist())
        ensure(np.array_equal(np.ma.getmaskarray(si.data), want), "data carries another mask")
        ensure(np.array_equal(np.ma.getmaskarray(si.bkg_sub_img), want),
               "background-subtracted image carries another mask")
    finally:
        shutil.rmtree(d)


CHECKS = [Check("mask", cases(), check_mask, 2400, 60000)]

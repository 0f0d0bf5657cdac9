"""C01: containers, dtypes, byte orders and gain."""
import os
import tempfile
import shutil

import numpy as np
from astropy.io import fits
from hypothesis import strategies as st

from properimage.single_image import SingleImage
from vf.core import Check, ensure
from vf.fields import fields, render, paint, patterns, value_bad, grow, science

RULE = ("Random star field quantised to a drawn dtype and byte order, optional non-finite/"
        "extreme pixels, gain from argument, header, both or none; every container is built "
        "and compared with a reference. Non-trivial: gain differs from 1, or dtype is not "
        "native float64, or special pixels are present.")
ASSUMPTIONS = ["pixels are representable in the drawn dtype", "single precision is the "
               "documented working precision of the pixel values"]

DTYPES = ["u1", "i2", "u2", "i4", "u4", "i8", "f4", "f8"]
gains = st.one_of(st.none(), st.integers(5, 400).map(lambda v: v / 100.0))


@st.composite
def cases(draw):
    f = draw(fields(64, 100, noise=(1.0, 3.0), bg=(20, 60), snr=(25, 60), sp=(14, 20)))
    dt = draw(st.sampled_from(DTYPES))
    c = {"f": f, "dt": dt, "big": draw(st.booleans()), "arg": draw(gains),
         "hdr": draw(gains), "stamp": draw(st.booleans()),
         "layout": draw(st.sampled_from(["C", "C", "F", "flip", "step"]))}
    if dt[0] == "f":
        c["special"] = draw(patterns(2))
        c["value"] = draw(st.sampled_from(["nan", "inf", "-inf", "7e4", "-60"]))
    return c


def arrange(pix, layout):
    """The same values in another memory layout."""
    if layout == "F":
        return np.asfortranarray(pix)
    if layout == "flip":
        return pix[::-1, ::-1].copy()[::-1, ::-1]
    if layout == "step":
        return np.repeat(np.repeat(pix, 2, 0), 3, 1)[::2, ::3]
    return pix.copy()


def build_forms(pix, layout, hdr, arg, kw, d, hdronly=True):
    """Yield (name, image) for every container of the same pixels."""
    def hdu():
        h = fits.PrimaryHDU(arrange(pix, layout))
        if hdr is not None:
            h.header["GAIN"] = hdr
        return h
    yield "hdu", SingleImage(hdu(), gain=arg, **kw)
    yield "hdulist", SingleImage(fits.HDUList([hdu()]), gain=arg, **kw)
    path = os.path.join(d, "a.fits")
    hdu().writeto(path, overwrite=True)
    yield "path", SingleImage(path, gain=arg, **kw)
    with fits.open(path) as hl:
        yield "hdulist from disk", SingleImage(hl, gain=arg, **kw)
    with fits.open(path) as hl:
        yield "hdu from disk", SingleImage(hl[0], gain=arg, **kw)
    if hdr is None or arg is not None:
        yield "array", SingleImage(arrange(pix, layout), gain=arg, **kw)


def check_forms(c, rec):
    f = c["f"]
    img = render(f)
    dt = np.dtype(c["dt"])
    if dt.kind in "iu":
        info = np.iinfo(dt)
        img = np.clip(np.rint(img), max(info.min, -20), min(info.max, 60000))
    pix = img.astype(dt)
    if c.get("special"):
        pix[paint(c["special"], pix.shape)] = float(c["value"])
    pix = pix.astype(dt.newbyteorder(">" if c["big"] else "<"))
    gain = c["arg"] if c["arg"] is not None else (c["hdr"] if c["hdr"] is not None else 1.0)
    want = science(pix, gain)
    base = value_bad(want)
    mask = grow(base)
    rec.nontrivial(gain != 1 or c["dt"] != "f8" or c["big"] or base.any())
    rec.label(c["dt"] + (">" if c["big"] else "<"))
    kw = {"stamp_shape": (15, 15)} if c["stamp"] or mask.mean() > 0.25 else {}
    d = tempfile.mkdtemp()
    first = None
    try:
        for name, si in build_forms(pix, c["layout"], c["hdr"], c["arg"], kw, d):
            ensure(si.data.shape == want.shape, "{}: shape {}", name, si.data.shape)
            got = np.asarray(si.data.data, dtype=float)
            if not np.array_equal(got, want, equal_nan=True):
                tol = 2e-6 * (np.abs(want) + 1)
                with np.errstate(invalid="ignore"):
                    bad = ~((np.abs(got - want) <= tol) | (got == want)
                            | (np.isnan(got) & np.isnan(want)))
                ensure(not bad.any(), "{}: science data differ from pixels x gain at {} pixels, "
                       "e.g. got {} want {}", name, bad.sum(),
                       got[bad][:1], want[bad][:1])
            ensure(abs(si.gain - gain) < 1e-12, "{}: gain {} instead of {}", name, si.gain, gain)
            m = np.ma.getmaskarray(si.data)
            ensure(np.array_equal(m, mask), "{}: mask has {} pixels, expected {}",
                   name, m.sum(), mask.sum())
            ensure(np.shape(si.mask) == want.shape, "{}: mask shape {}", name, np.shape(si.mask))
            prod = (np.array(si.background), float(si.var), None if kw else
                    np.array([np.sort(si.best_sources[k]) for k in ("x", "y", "flux")]))
            ensure(np.isfinite(prod[0]).all(), "{}: background is not finite", name)
            if first is None:
                first = (name, prod)
                med = np.median(want[~mask])
                ensure(abs(np.median(prod[0]) - med) < 3 * f["noise"] * gain + 1 * gain,
                       "background {} far from the sky {}", np.median(prod[0]), med)
            else:
                n0, p0 = first
                ensure(np.allclose(prod[0], p0[0], rtol=1e-6, atol=1e-6),
                       "background of {} differs from {}", name, n0)
                ensure(abs(prod[1] - p0[1]) <= 1e-6 * p0[1], "noise of {} differs from {}", name, n0)
                if not kw:
                    ensure(prod[2].shape == p0[2].shape and np.allclose(prod[2], p0[2], rtol=1e-5),
                           "sources of {} differ from {}", name, n0)
    finally:
        shutil.rmtree(d)


@st.composite
def scaled_cases(draw):
    f = draw(fields(64, 100, noise=(1.0, 3.0), bg=(20, 60), snr=(25, 60), sp=(14, 20)))
    return {"f": f, "dt": draw(st.sampled_from(["u1", "i2", "i4"])), "arg": draw(gains),
            "hdr": draw(gains), "scale": draw(st.sampled_from([1.0, 0.5, 0.25, 2.0])),
            "zero": draw(st.sampled_from([0.0, 32.0, -16.0, 1000.0])),
            "blank": draw(st.one_of(st.none(), patterns(1, 1))),
            "gz": draw(st.booleans()), "lazy": draw(st.booleans()),
            "more": draw(st.booleans())}


def check_scaled(c, rec):
    """Pixels stored scaled, with a blank value or compressed, are the physical ones."""
    f = c["f"]
    sc, z = c["scale"], c["zero"]
    stored = np.clip(np.rint((render(f) - f["bg"]) / sc) + 40, 5, 250).astype(c["dt"])
    phys = stored * sc + z
    blank = np.zeros(phys.shape, bool)
    if c["blank"] is not None:
        blank = paint(c["blank"], phys.shape)
        if blank.mean() > 0.2:
            blank[:] = False
    stored[blank] = 3
    phys[blank] = 3 * sc + z
    gain = c["arg"] if c["arg"] is not None else (c["hdr"] if c["hdr"] is not None else 1.0)
    rec.nontrivial(sc != 1 or z != 0 or blank.any())
    rec.label("blank" if blank.any() else "no blank", "gz" if c["gz"] else "plain")
    d = tempfile.mkdtemp()
    try:
        raw = os.path.join(d, "raw.fits")
        fits.writeto(raw, stored)
        path = os.path.join(d, "a.fits" + (".gz" if c["gz"] else ""))
        with fits.open(raw, do_not_scale_image_data=True) as hl:
            hl[0].header["BSCALE"] = sc
            hl[0].header["BZERO"] = z
            if blank.any():
                hl[0].header["BLANK"] = 3
            if c["hdr"] is not None:
                hl[0].header["GAIN"] = c["hdr"]
            hl.writeto(path)
        # the FITS reader decides whether blank values apply
        blank &= np.isnan(fits.getdata(path))
        phys[blank] = np.nan
        want = science(phys, gain)
        mask = grow(value_bad(want))
        rec.label("blanks read" if blank.any() else "none read")
        forms = [("path", path)]
        with fits.open(path) as hl:
            if not c["lazy"]:
                hl[0].data  # already read by the caller
            forms += [("hdulist from disk", hl), ("hdu from disk", hl[0])]
            for name, img in forms[::1 if c["more"] else -1]:
                si = SingleImage(img, gain=c["arg"], stamp_shape=(15, 15))
                got = np.asarray(si.data.data, float)
                ensure(got.shape == want.shape, "{}: shape {}", name, got.shape)
                off = ~(np.abs(got - want) <= 2e-6 * (np.abs(want) + 1)) & ~blank
                ensure(not off.any(), "{}: {} pixels stored with scale {} and zero {} are wrong, "
                       "e.g. got {} want {}", name, off.sum(), sc, z, got[off][:1], want[off][:1])
                m = np.ma.getmaskarray(si.data)
                ensure(np.array_equal(m, mask), "{}: {} pixels masked instead of {}", name,
                       m.sum(), mask.sum())
                ensure(abs(si.gain - gain) < 1e-12, "{}: gain {} instead of {}", name, si.gain,
                       gain)
    finally:
        shutil.rmtree(d)


CHECKS = [Check("scaled", scaled_cases(), check_scaled, 160, 4000),
          Check("forms", cases(), check_forms, 640, 12000)]

"""C21: stored images read back identical, mask included."""
import os
import pathlib
import shutil
import tempfile

import numpy as np
from astropy.io import fits
from astropy.time import Time
from hypothesis import strategies as st

from properimage import simtools, utils
from properimage.single_image import SingleImage
from vf.core import Check, ensure
from vf.fields import fields, grow, paint, patterns, render

RULE = ("Arrays of drawn shape, type, byte order, memory layout and special values, plain, "
        "complex or masked (no mask, empty, partial, full), stored as HDU or to a new or existing "
        "path and read back with astropy and as images; simulated exposures with drawn times. "
        "Non-trivial: the mask is not empty, the pixels not constant or a file was there.")
ASSUMPTIONS = ["types without FITS equivalent (half precision, bool, object) are not stored",
               "header numbers are finite"]

TYPES = ["f8", "f4", "i2", "i4", "i8", "u1", "u2", "u4", "c8", "c16"]


@st.composite
def cases(draw):
    return {"shape": draw(st.one_of(
        st.tuples(st.integers(1, 30), st.integers(1, 30)), st.tuples(st.integers(1, 40)),
        st.tuples(st.integers(1, 6), st.integers(1, 9), st.integers(1, 9)))),
            "type": draw(st.sampled_from(TYPES)), "big": draw(st.booleans()),
            "layout": draw(st.sampled_from(["c", "f", "view", "flip", "ro"])),
            "seed": draw(st.integers(0, 10**6)),
            "kind": draw(st.sampled_from(["plain", "masked", "masked"])),
            "mask": draw(st.sampled_from(["none", "empty", "some", "some", "most", "full"])),
            "fill": draw(st.sampled_from([None, 3, 7])),
            "special": draw(st.booleans()),
            "to": draw(st.sampled_from(["hdu", "new", "over", "over masked", "path object"]))}


def pixels(c):
    rng = np.random.default_rng(c["seed"])
    t = np.dtype(c["type"])
    shape = tuple(c["shape"])
    big = [2 * s for s in shape] if c["layout"] == "view" else list(shape)
    if t.kind in "iu":
        lo = 0 if t.kind == "u" else -(2 ** (8 * t.itemsize - 2))
        a = rng.integers(lo, 2 ** (8 * t.itemsize - 2), big).astype(t)
    else:
        a = rng.normal(0, 10 ** rng.uniform(-3, 6), big)
        if c["special"]:
            v = np.array([0.0, -0.0, np.nan, np.inf, 1e-40, 65000.0, -1e30])
            k = rng.random(big) < 0.2
            a[k] = rng.choice(v, k.sum())
        if t.kind == "c":
            a = a + 1j * rng.normal(0, 5, big)
        a = a.astype(t)
    if c["big"]:
        a = a.astype(a.dtype.newbyteorder(">"))
    if c["layout"] == "view":
        a = a[tuple(slice(None, None, 2) for _ in shape)]
    elif c["layout"] == "flip":
        a = a[tuple(slice(None, None, -1) for _ in shape)]
    elif c["layout"] == "f":
        a = np.asfortranarray(a)
    if c["kind"] == "masked":
        m = {"none": np.ma.nomask, "empty": np.zeros(shape, bool), "full": np.ones(shape, bool),
             "some": rng.random(shape) < 0.2, "most": rng.random(shape) < 0.8}[c["mask"]]
        a = np.ma.MaskedArray(a, mask=m)
        if c["fill"] is not None:
            a.fill_value = c["fill"]
    if c["layout"] == "ro":
        a.flags.writeable = False
    return a


def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")


def check_store(c, rec):
    a = pixels(c)
    masked = c["kind"] == "masked"
    keep, keepm = np.array(np.ma.getdata(a)), np.ma.getmaskarray(a).copy()
    d = tempfile.mkdtemp()
    try:
        path = None
        if c["to"] != "hdu":
            path = os.path.join(d, "x.fits")
            if c["to"].startswith("over"):
                fits.HDUList([fits.PrimaryHDU(np.ones((50, 60))), fits.ImageHDU(np.ones((3, 3))),
                              fits.ImageHDU(np.ones((4, 4)))][:3 if "masked" in c["to"] else 1]
                             ).writeto(path)
            elif c["to"] == "path object":
                path = pathlib.Path(path)
        out = utils.store_img(a) if path is None else utils.store_img(a, path)
        if path is None:
            ensure(out is not None, "no HDU is returned")
            hdus = out if isinstance(out, fits.HDUList) else fits.HDUList([out])
        else:
            ensure(os.listdir(d) == ["x.fits"], "files {} instead of x.fits", os.listdir(d))
            with fits.open(path, memmap=False) as h:
                hdus = fits.HDUList([x.copy() for x in h])
        got = hdus[0].data
        want = keep.real if np.iscomplexobj(keep) else keep
        ensure(len(hdus) == (2 if masked else 1), "{} HDUs for a {} array", len(hdus), c["kind"])
        if masked:
            with np.errstate(over="ignore"):
                want = want.astype(np.float32)
            ensure(got.dtype.kind == "f" and got.dtype.itemsize == 4, "pixels have type {}",
                   got.dtype)
            m = hdus[1].data
            ensure(m.shape == keepm.shape, "the mask has shape {} instead of {}", m.shape,
                   keepm.shape)
            ensure((m.astype(bool) == keepm).all(), "the mask differs in {} of {} pixels",
                   (m.astype(bool) != keepm).sum(), m.size)
            ensure(np.isin(m, (0, 1)).all(), "mask values {}", np.unique(m)[:5])
        else:
            ensure(got.dtype.kind == want.dtype.kind and got.dtype.itemsize == want.dtype.itemsize,
                   "pixels of type {} are stored as {}", want.dtype, got.dtype)
        ensure(equal(want, got), "the stored pixels differ")
        ensure(equal(keep, np.ma.getdata(a)) and (np.ma.getmaskarray(a) == keepm).all(),
               "storing changes the array")
        rec.nontrivial(keep.size > 1)
        rec.label(c["kind"], c["to"], c["type"])
    finally:
        shutil.rmtree(d)


@st.composite
def image_cases(draw):
    return {"f": draw(fields(70, 100)), "mask": draw(st.one_of(st.none(), patterns(3))),
            "what": draw(st.sampled_from(["data", "bkg_sub_img", "interped", "s_component"])),
            "twice": draw(st.booleans())}


def check_reload(c, rec):
    f = c["f"]
    m = paint(c["mask"], (f["h"], f["w"])) if c["mask"] is not None else None
    if m is not None and grow(m).mean() > 0.2:
        rec.label("too many bad")
        return
    img = SingleImage(render(f), mask=m)
    prod = getattr(img, c["what"])
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "prod.fits")
        if c["twice"]:
            utils.store_img(np.ma.masked_less(render(f, nseed=1), 0), path)
        utils.store_img(prod, path)
        rec.nontrivial(m is not None and m.any())
        rec.label(c["what"])
        want = np.ma.getdata(prod).real.astype(np.float32)
        mask = np.ma.getmaskarray(prod)
        if (want < -50).any() or c["what"] == "s_component":
            with fits.open(path) as h:  # not valid science values
                ensure(equal(want, h[0].data.astype(np.float32)), "the stored product differs")
                if isinstance(prod, np.ma.MaskedArray):
                    ensure((h[1].data.astype(bool) == mask).all(), "the stored mask differs")
            return
        back = SingleImage(path, maskthresh=1)  # stored masks hold 0 and 1
        ensure(equal(want[~mask], np.ma.getdata(back.data)[~mask]),
               "the pixels of the image read back differ")
        ensure((np.ma.getmaskarray(back.data) == grow(mask)).all(),
               "the image read back masks {} pixels instead of {}",
               np.ma.getmaskarray(back.data).sum(), grow(mask).sum())
    finally:
        shutil.rmtree(d)


@st.composite
def exposures(draw):
    return {"shape": draw(st.tuples(st.integers(1, 30), st.integers(1, 30))),
            "type": draw(st.sampled_from(["f8", "f4", "i2", "i4", "u2"])),
            "seed": draw(st.integers(0, 10**6)),
            "jd": draw(st.integers(2400000, 2470000)), "frac": draw(st.integers(0, 86399999)),
            "form": draw(st.sampled_from(["jd", "Time", "iso"])),
            "texp": draw(st.sampled_from([1, 0.5, 300, 1e4, 0.001])), "i": draw(
                st.integers(0, 1200)),
            "zero": draw(st.sampled_from([0, 25.0, -3.25, 21.123456789])),
            "over": draw(st.booleans()), "cwd": draw(st.booleans())}


def check_exposure(c, rec):
    rng = np.random.default_rng(c["seed"])
    a = (rng.normal(0, 1, c["shape"]) * 1000 + 5000).astype(c["type"])
    keep = a.copy()
    t = Time(c["jd"], c["frac"] / 86400e3, format="jd", scale="utc")
    arg = {"jd": t.jd, "Time": t, "iso": Time(t.iso, scale="utc")}[c["form"]]
    t = Time(arg, format="jd", scale="utc") if c["form"] == "jd" else arg
    d = tempfile.mkdtemp()
    old = os.getcwd()
    try:
        name = "image00%d.fits" % c["i"]
        if c["over"]:
            fits.HDUList([fits.PrimaryHDU(np.ones((9, 9))), fits.ImageHDU(np.ones((3, 3)))]
                         ).writeto(os.path.join(d, name))
        if c["cwd"]:
            os.chdir(d)
            path = simtools.store_fits(a, arg, c["texp"], c["i"], c["zero"])
        else:
            path = simtools.store_fits(a, arg, c["texp"], c["i"], c["zero"], d)
        rec.nontrivial()
        rec.label(c["form"])
        ensure(os.listdir(d) == [name], "files {} instead of {}", os.listdir(d), name)
        ensure(os.path.samefile(path, os.path.join(d, name)), "the path returned is {}", path)
        with fits.open(path, memmap=False) as h:
            ensure(len(h) == 1, "{} HDUs", len(h))
            got, hdr = h[0].data, h[0].header
        ensure(equal(keep, got), "the stored pixels differ")
        ensure(equal(keep, a), "storing changes the array")
        for k, v in (("EXPTIME", c["texp"]), ("ZERO_P", c["zero"]), ("JD", t.jd)):
            ensure(hdr.get(k) == v or abs(hdr[k] - v) <= 1e-14 * abs(v), "{} is {} instead of {}",
                   k, hdr.get(k), v)
        back = Time(hdr["DATE-OBS"] + " " + hdr["TIME-OBS"], format="iso", scale="utc")
        dt = abs((back - t).sec)
        ensure(dt < 2e-3, "date {} and time {} are {} s away from {}", hdr["DATE-OBS"],
               hdr["TIME-OBS"], dt, t.iso)
    finally:
        os.chdir(old)
        shutil.rmtree(d)


CHECKS = [Check("store", cases(), check_store, 2000, 60000),
          Check("reload", image_cases(), check_reload, 300, 6000),
          Check("exposure", exposures(), check_exposure, 800, 20000)]

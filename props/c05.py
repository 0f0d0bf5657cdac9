"""C05: the cleaned image."""
import numpy as np
from hypothesis import strategies as st
from scipy import ndimage

from properimage.single_image import SingleImage, SingleImageGaussPSF
from vf.core import Check, ensure
from vf.fields import fields, render, paint, patterns

RULE = ("Star field with declared bad pixels and NaN, infinite, saturated and negative pixels; "
        "the cleaned image is compared with the background-subtracted one and with the average "
        "of the good surroundings. Non-trivial: at least one pixel is masked.")
ASSUMPTIONS = ["the cleaned image need only average the surroundings to a tenth of their range, "
               "so the interpolation kernel may change",
               "known finding: cosmic-ray hits are not replaced (see known_findings.json)"]


@st.composite
def cases(draw):
    return {"f": draw(fields(64, 110, bg=(0, 300))),
            "mask": draw(st.one_of(st.none(), patterns(3, 1))),
            "special": draw(patterns(2)),
            "value": draw(st.sampled_from(["nan", "inf", "-inf", "7e4", "-900"])),
            "gain": draw(st.sampled_from([None, 0.5, 2.0])),
            "gauss": draw(st.booleans()),
            "first": draw(st.sampled_from(["interped", "s_component", "kl_basis", "interped_hat"])),
            "grad": draw(st.sampled_from([0.0, 0.0, 3.0]))}


def check_interped(c, rec):
    f = c["f"]
    img = render(f)
    h, w = img.shape
    if c["grad"]:
        img = img + c["grad"] * np.arange(w)[None, :] / w * 30
    sp = paint(c["special"], img.shape)
    img[sp] = float(c["value"]) / (c["gain"] or 1.0)  # bad whatever the gain
    mask = paint(c["mask"], img.shape) if c["mask"] is not None else None
    tot = sp | mask if mask is not None else sp
    if tot.mean() > 0.2:
        rec.label("too many bad")
        return
    cls = SingleImageGaussPSF if c["gauss"] else SingleImage
    si = cls(img, mask=mask, gain=c["gain"])
    gm0 = np.ma.getmaskarray(si.data).copy()
    d0 = np.asarray(si.data.data).copy()
    b0 = si.background
    if gm0.mean() > 0.5:
        rec.label("mostly masked")
        return
    if c["first"] != "interped":
        getattr(si, c["first"])
    out = si.interped
    rec.nontrivial(gm0.any())
    rec.label(c["value"] if sp.any() else "plain")
    ensure(out.shape == (h, w), "cleaned image has shape {}", out.shape)
    ensure(np.isfinite(out).all(), "cleaned image has {} non-finite pixels",
           (~np.isfinite(out)).sum())
    ensure(not np.ma.isMaskedArray(out) or not np.ma.getmaskarray(out).any(),
           "the cleaned image is masked")
    want = np.asarray((si.data - b0).data)
    err = np.abs(out - want)[~gm0]
    ensure(err.max() <= 1e-4 + 1e-6 * np.abs(want[~gm0]).max(),
           "{} good pixels are altered by up to {}", (err > 1e-4).sum(), err.max())
    ensure(np.array_equal(np.ma.getmaskarray(si.data), gm0), "the mask changed")
    ensure(np.array_equal(np.asarray(si.data.data), d0, equal_nan=True), "the data changed")
    ensure(np.array_equal(si.background, b0), "the background changed")
    again = si.interped
    ensure(np.array_equal(again, out), "a second request differs")
    # bad pixels: average of the good surroundings
    good = (~gm0).astype(float)
    vals = np.where(gm0, 0.0, want)
    k = np.ones((11, 11))
    num = ndimage.convolve(vals, k, mode="constant")
    den = ndimage.convolve(good, k, mode="constant")
    lo = ndimage.minimum_filter(np.where(gm0, np.inf, want), 11, mode="nearest")
    hi = ndimage.maximum_filter(np.where(gm0, -np.inf, want), 11, mode="nearest")
    inner = np.zeros_like(gm0)
    inner[6:-6, 6:-6] = True
    sel = gm0 & inner & (den >= 40)
    if sel.any():
        rec.label("interpolated inside")
        mean = num[sel] / den[sel]
        dev = np.abs(out[sel] - mean) / (hi[sel] - lo[sel])
        ensure(dev.max() <= 0.1, "a bad pixel was not replaced by its surroundings: {} where they "
               "average {}", out[sel][dev.argmax()], mean[dev.argmax()])
    lo, hi = min(want[~gm0].min(), 0), max(want[~gm0].max(), 0)
    ensure(out.min() >= lo - 1e-3 * (hi - lo) and out.max() <= hi + 1e-3 * (hi - lo),
           "cleaned image leaves the range of the good pixels")


def cosmic(case):
    """True while a single-pixel hit stays in the cleaned image."""
    img = render(case["f"])
    y, x = case["at"]
    img[y, x] += case["hit"]
    si = SingleImage(img)
    return bool(si.interped[y, x] > 0.5 * case["hit"])


KNOWN = {"cosmic": cosmic}
CHECKS = [Check("interped", cases(), check_interped, 640, 12000)]

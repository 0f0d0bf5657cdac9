"""C09: the estimated PSF against the planted stellar profile."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import least_squares

from properimage.single_image import SingleImage, SingleImageGaussPSF
from vf.core import Check, ensure
from vf.fields import fields, render, patterns, paint

RULE = ("Well separated stars of one drawn profile (round or elongated along an axis), odd, even "
        "and non-square frames; the PSF is fitted by an independent Gaussian and compared with "
        "the planted widths. Variable fields are probed over the whole frame (next to the "
        "borders for shape and sum only). Non-trivial: at "
        "least eight stars.")
ASSUMPTIONS = ["stamps are centred on the nearest pixel, which broadens the PSF by up to 1/12 px^2",
               "known limit: averaged Gaussian fits of elongated stars are not checked "
               "(see known_findings.json)"]


def star_fields(lo=110, hi=170):
    return fields(lo, hi, sig=(1.3, 2.2), sp=(26, 30), snr=(60, 400), noise=(1, 5)).map(
        lambda f: dict(f, margin=14))


@st.composite
def cases(draw):
    return {"f": draw(star_fields()), "ratio": draw(st.sampled_from([1.0, 1.0, 0.7, 0.8, 1.25, 1.4])),
            "gain": draw(st.sampled_from([None, 2.0])), "bad": draw(patterns(1)),
            "stamp": draw(st.sampled_from([None, None, [13, 13], [15, 21], [17, 13]])),
            "order": draw(st.sampled_from(["psf", "xy"]))}


def gaussfit(p):
    """Centre offset and widths of a stamp."""
    yy, xx = np.mgrid[:p.shape[0], :p.shape[1]]
    cy, cx = (np.array(p.shape) - 1) / 2
    pk = p.max()

    def res(v):
        a, y, x, sy, sx, b = v
        return (a * np.exp(-0.5 * (((yy - y) / sy) ** 2 + ((xx - x) / sx) ** 2)) + b
                - p / pk).ravel()
    r = least_squares(res, [1, cy, cx, 1.8, 1.8, 0])
    a, y, x, sy, sx, b = r.x
    return y - cy, x - cx, abs(sy), abs(sx), b


def check_profile(c, rec):
    f = c["f"]
    sy, sx = f["sig"], f["sig"] * c["ratio"]
    img = render(f, sigx=sx)
    bad = paint(c["bad"], img.shape)
    if bad.mean() > 0.02:
        bad[:] = False
    stamp = tuple(c["stamp"]) if c["stamp"] else None
    if stamp and min(stamp) < 6.5 * max(sy, sx):
        stamp = None
    si = SingleImage(img, mask=bad, gain=c["gain"], stamp_shape=stamp)
    rec.nontrivial(si.n_sources >= 8)
    rec.label("round" if sx == sy else "elongated")
    h, w = img.shape
    if c["order"] == "xy":
        si.inf_loss = 0.95
        p = si.get_psf_xy(h / 2, w / 2)
    else:
        a, basis = si.get_variable_psf(inf_loss=0.95)
        ensure(len(basis) == 1 and a[0] is None, "loss 0.95 needs {} components", len(basis))
        p = basis[0]
        q = si.get_psf_xy(h / 2, w / 2)
        ensure(np.allclose(p, q), "the constant PSF differs where it is evaluated")
    ensure(abs(p.sum() - 1) < 1e-6, "the PSF sums to {}", p.sum())
    if stamp:
        ensure(p.shape == (stamp[0] + 6, stamp[1] + 6), "PSF of shape {} for stamps {}", p.shape,
               stamp)
    if si.n_sources < 8:
        return
    dy, dx, gy, gx, b = gaussfit(p)
    ensure(max(abs(dy), abs(dx)) < 0.5, "PSF is off its stamp centre by {:.2f}, {:.2f}", dy, dx)
    wy, wx = np.hypot(sy, 0.289), np.hypot(sx, 0.289)
    ensure(abs(gy / wy - 1) < 0.15 and abs(gx / wx - 1) < 0.15, "PSF widths {:.2f} x {:.2f}, stars "
           "{:.2f} x {:.2f}", gy, gx, wy, wx)
    ensure(abs(b) < 0.1, "PSF stands on a pedestal of {:.3f} of its peak", b)
    # pixelwise against the profile at the fitted centre
    yy, xx = np.mgrid[:p.shape[0], :p.shape[1]]
    cy, cx = (np.array(p.shape) - 1) / 2
    t = np.exp(-0.5 * (((yy - cy - dy) / wy) ** 2 + ((xx - cx - dx) / wx) ** 2))
    r = np.corrcoef(p.ravel(), t.ravel())[0, 1]
    ensure(r > (0.97 if max(sy, sx) < 2 else 0.8), "PSF correlates with the stellar profile by {:.3f} only", r)


PLACE = st.one_of(st.integers(250, 750), st.integers(0, 999))


@st.composite
def varying(draw):
    return {"f": draw(star_fields(130, 190)), "var": draw(st.sampled_from([0.0, 0.3, -0.3, 0.5])),
            "loss": draw(st.sampled_from([0.02, 0.05, 0.2, 0.9])),
            "at": draw(st.lists(st.tuples(PLACE, PLACE), min_size=1, max_size=4)),
            "stamp": draw(st.sampled_from([None, None, [13, 17]]))}


def check_varying(c, rec):
    f = c["f"]
    si = SingleImage(render(f, varpsf=c["var"]),
                     stamp_shape=tuple(c["stamp"]) if c["stamp"] else None)
    a, basis = si.get_variable_psf(inf_loss=c["loss"])
    rec.nontrivial(len(basis) > 1)
    rec.label("%s components" % ("1" if len(basis) == 1 else "2+"))
    for u, v in c["at"]:
        y, x = u * f["h"] / 1000, v * f["w"] / 1000
        p = si.get_psf_xy(y, x)
        ensure(p.shape == tuple(si.stamp_shape), "PSF at ({}, {}) has shape {}", y, x, p.shape)
        ensure(np.isfinite(p).all() and abs(p.sum() - 1) < 1e-6, "PSF at ({}, {}) sums to {}",
               y, x, p.sum())
        # reference: basis weighted by the coefficient fields around the position
        if len(basis) > 1:
            dy, dx = (p.shape[0] - 1) // 2, (p.shape[1] - 1) // 2
            iy, ix = int(np.round(y)), int(np.round(x))
            yy, xx = np.mgrid[iy - dy:iy + dy + 1, ix - dx:ix + dx + 1]
            if iy < dy or ix < dx or iy + dy >= f["h"] or ix + dx >= f["w"]:
                rec.label("near a border")
                continue
            nrm = np.asarray(si.normal_image)[yy, xx]
            t = sum(b * ak(yy, xx) for b, ak in zip(basis, a)) / nrm
            t = t / t.sum()
            sc = np.abs(t).max()
            ensure(np.abs(p - t).max() < 1e-6 * sc, "PSF at ({}, {}) is not the weighted basis "
                   "there: difference {} of {}", y, x, np.abs(p - t).max(), sc)


@st.composite
def rounds(draw):
    return {"f": draw(star_fields()), "gain": draw(st.sampled_from([None, 2.0]))}


def check_gauss(c, rec):
    f = c["f"]
    si = SingleImageGaussPSF(render(f), gain=c["gain"])
    a, (stamp, model) = si.get_variable_psf()
    rec.nontrivial(si.n_sources >= 8)
    want = np.hypot(f["sig"], 0.289 / 2)
    if si.n_sources < 8:
        return
    wy, wx = abs(model.y_stddev.value), abs(model.x_stddev.value)
    ensure(abs(wy / want - 1) < 0.12 and abs(wx / want - 1) < 0.12, "fitted widths {:.2f} x {:.2f} "
           "for stars of {:.2f}", wy, wx, want)
    ensure(a[0] is None, "a fitted PSF has coefficient fields")
    pk = np.array(np.unravel_index(stamp.argmax(), stamp.shape))
    ensure((np.abs(pk - (np.array(stamp.shape) - 1) / 2) <= 0.5).all(),
           "the rendered PSF peaks at {} of {}", pk, stamp.shape)
    dy, dx, gy, gx, b = gaussfit(stamp)
    ensure(abs(gy / want - 1) < 0.15 and abs(gx / want - 1) < 0.15, "rendered widths {} x {} for "
           "{}", gy, gx, want)


def elongated(case):
    """True while the Gaussian PSF of elongated stars is far from their widths."""
    f = case["f"]
    sx = f["sig"] * case["ratio"]
    m = SingleImageGaussPSF(render(f, sigx=sx)).get_variable_psf()[1][0]
    dy, dx, gy, gx, b = gaussfit(m)
    return bool(max(abs(gy / f["sig"] - 1), abs(gx / sx - 1)) > 0.08)


KNOWN = {"elongated": elongated}
CHECKS = [Check("profile", cases(), check_profile, 480, 10000),
          Check("varying", varying(), check_varying, 320, 6000),
          Check("gauss", rounds(), check_gauss, 160, 3000)]

"""C11: the matched-filter image."""
import numpy as np
from hypothesis import strategies as st
from scipy import ndimage, signal

from properimage.single_image import SingleImage, SingleImageGaussPSF
from vf.core import Check, ensure
from vf.fields import fields, render, paint, patterns, positions

RULE = ("Fields of odd, even and non-square shape with constant or variable PSF, masks, gains, "
        "zero points and losses; the matched-filter image is recomputed by direct summation or "
        "an independent transform. Non-trivial: non-square frame, unequal parity, zero point "
        "other than one or several components.")
ASSUMPTIONS = ["the code's unitary transforms make S smaller by the square root of the number of "
               "pixels; the oracle uses the same convention",
               "the sub-pixel registration is the centre of mass of the leading component"]


@st.composite
def cases(draw):
    return {"f": draw(fields(72, 120, sp=(17, 22))), "var": draw(st.sampled_from([0.0, 0.0, 0.5])),
            "loss": draw(st.sampled_from([0.02, 0.1, 0.2, 0.5, 0.95])),
            "zp": draw(st.sampled_from([1.0, 0.5, 2.0, 3.3])),
            "mask": draw(st.one_of(st.none(), patterns(2, 1))),
            "gain": draw(st.sampled_from([None, 2.0])),
            "gauss": draw(st.sampled_from([False, False, True])),
            "smooth": draw(st.sampled_from([False, False, True])),
            "stamp": draw(st.sampled_from([None, None, [11, 11], [11, 15], [15, 9]])),
            "zp2": draw(st.sampled_from([0.3, 4.0]))}


def unitary(a, shape):
    p = np.zeros(shape)
    p[:a.shape[0], :a.shape[1]] = a
    return np.fft.fft2(p) / np.sqrt(p.size)


def phase(shape, dy, dx):
    return np.exp(-2j * np.pi * (np.fft.fftfreq(shape[0])[:, None] * dy
                                 + np.fft.fftfreq(shape[1])[None, :] * dx))


def centroid(p):
    yy, xx = np.mgrid[:p.shape[0], :p.shape[1]]
    return (p * yy).sum() / p.sum(), (p * xx).sum() / p.sum()


def check_matched(c, rec):
    f = c["f"]
    img = render(f, varpsf=c["var"])
    mask = paint(c["mask"], img.shape) if c["mask"] is not None else None
    if mask is not None and mask.mean() > 0.1:
        mask = None
    cls = SingleImageGaussPSF if c["gauss"] else SingleImage
    si = cls(img, mask=mask, gain=c["gain"], smooth_psf=c["smooth"] and not c["gauss"],
             stamp_shape=tuple(c["stamp"]) if c["stamp"] else None)
    si.inf_loss = c["loss"]
    si.zp = c["zp"]
    S = si.s_component
    sh = si.s_hat_comp
    h, w = img.shape
    ensure(S.shape == (h, w) and sh.shape == (h, w), "shapes {} {}", S.shape, sh.shape)
    ensure(np.isrealobj(S) and np.isfinite(S).all(), "S is not real and finite")
    sc = np.abs(S).max()
    back = np.fft.ifft2(np.asarray(sh)) * np.sqrt(h * w)
    ensure(np.abs(back.real - S).max() < 1e-8 * sc, "S and its transform differ by {} of {}",
           np.abs(back.real - S).max(), sc)
    a, basis = si.get_variable_psf()
    clean = si.interped
    many = a[0] is not None
    rec.nontrivial(h != w or h % 2 != w % 2 or c["zp"] != 1 or many)
    rec.label("several components" if many else "one component", cls.__name__)
    dy, dx = centroid(basis[0])
    fac = c["zp"] / si.var ** 2
    ph = phase((h, w), dy, dx)
    if not many:
        ref = fac * np.fft.ifft2(unitary(clean, (h, w)) * unitary(basis[0], (h, w)).conj()
                                 * ph).real * np.sqrt(h * w)
        tol = 1e-8
        # direct sum at some pixels, for the nearest whole-pixel registration
        ones = np.asarray(si.normal_image)
        edge = max(basis[0].shape)
        ensure(np.allclose(ones[edge:-edge, edge:-edge], 1, atol=1e-6) or edge * 2 >= min(h, w),
               "the normalisation of a constant PSF is not one inside the frame")
    else:
        yy, xx = np.mgrid[:h, :w]
        nrm = np.asarray(si.normal_image, float)
        want = 0
        for ak, b in zip(a, basis):
            py, px = (b.shape[0] - 1) // 2, (b.shape[1] - 1) // 2
            pad = np.pad(ak(yy, xx), ((py, py), (px, px)), mode="symmetric")
            want = want + signal.fftconvolve(pad, b, mode="valid")
        ensure(np.abs(nrm - want).max() < 1e-4 * np.abs(want).max(), "the normalisation image is "
               "off by {} of {}", np.abs(nrm - want).max(), np.abs(want).max())
        tot = 0
        for ak, b in zip(a, basis):
            tot = tot + unitary(clean * ak(yy, xx) / nrm, (h, w)) * unitary(b, (h, w)).conj()
        ref = fac * np.fft.ifft2(tot * ph).real * np.sqrt(h * w)
        tol = 1e-6
    d = np.abs(ref - S).max()
    ensure(d < tol * sc, "S differs from the correlation with the PSF by {} of {}", d, sc)
    q = np.asarray(si.psf_hat_sqnorm())
    comps = basis[:len(a)] if not c["gauss"] else si.kl_basis
    want = sum(np.abs(unitary(b, (h, w))) ** 2 for b in comps)
    ensure(np.abs(q - want).max() < 1e-9 * want.max(), "PSF power differs by {}",
           np.abs(q - want).max())
    pq = np.asarray(si.p_sqnorm())
    ensure(pq.shape == (h, w), "p_sqnorm has shape {}", pq.shape)
    power = np.abs(np.fft.fft2(pq)) / np.sqrt(h * w)
    ensure(np.abs(power - want).max() < 1e-8 * want.max(), "p_sqnorm is not the transform of the "
           "PSF power")
    si.zp = c["zp2"]
    S2 = si.s_component
    ensure(np.abs(S2 * c["zp"] - S * c["zp2"]).max() < 1e-9 * sc * c["zp2"],
           "S is not proportional to the zero point")
    ensure(np.abs(np.asarray(si.s_hat_comp) * c["zp"] - sh * c["zp2"]).max()
           < 1e-9 * np.abs(sh).max() * c["zp2"], "the transform is not proportional to the zero point")


@st.composite
def apart(draw):
    f = draw(fields(110, 190, sig=(1.3, 2.0), sp=(30, 34), snr=(60, 400), noise=(1, 5)))
    return {"f": dict(f, margin=16), "gauss": draw(st.booleans()),
            "mask": draw(st.one_of(st.none(), patterns(1, 1))),
            "stamp": draw(st.sampled_from([None, None, [13, 13], [13, 17], [17, 13]]))}


def check_registered(c, rec):
    f = c["f"]
    img = render(f)
    mask = paint(c["mask"], img.shape) if c["mask"] is not None else None
    if mask is not None and mask.mean() > 0.05:
        mask = None
    cls = SingleImageGaussPSF if c["gauss"] else SingleImage
    si = cls(img, mask=mask, stamp_shape=tuple(c["stamp"]) if c["stamp"] else None)
    si.inf_loss = 0.95
    S = si.s_component
    gm = np.ma.getmaskarray(si.data)
    peaks = ndimage.maximum_filter(S, 5) == S
    n = 0
    for y, x, snr in positions(f):
        iy, ix = int(round(y)), int(round(x))
        if gm[max(0, iy - 8):iy + 9, max(0, ix - 8):ix + 9].any():
            continue
        p = np.argwhere(peaks[iy - 6:iy + 7, ix - 6:ix + 7]) + (iy - 6, ix - 6)
        r = np.hypot(p[:, 0] - y, p[:, 1] - x).min() if len(p) else 99
        n += 1
        ensure(r < 1.5, "the star at ({:.2f}, {:.2f}) peaks {:.2f} px away", y, x, r)
    rec.nontrivial(n >= 3)
    rec.label(cls.__name__)


CHECKS = [Check("matched", cases(), check_matched, 640, 12000),
          Check("registered", apart(), check_registered, 320, 6000)]

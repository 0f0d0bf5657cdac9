"""C12: subtraction against an independent implementation of proper subtraction."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import least_squares

from properimage import utils
from properimage.operations import subtract
from properimage.single_image import SingleImage, SingleImageGaussPSF
from vf.core import Check, ensure
from vf.fields import fields, render, paint, patterns

RULE = ("Pairs of fields of one sky with drawn shapes, seeings, flux scales, sky levels, noises, "
        "masks and sub-pixel shifts, subtracted in every PSF, flux-scale and shift mode; the "
        "four outputs are recomputed with numpy from the images' cleaned pixels, PSFs and noise. "
        "The flux ratio and shift in use are recovered from the difference when fitted. "
        "Non-trivial: the images differ in seeing or flux scale, or the frame is not square.")
ASSUMPTIONS = ["scores are compared up to the constant factor of the unitary transforms",
               "cleaned pixels, PSF stamps and noise levels are read from image objects"]


@st.composite
def cases(draw, shift=False):
    lo, hi = (100, 215) if shift else (72, 130)
    f = draw(fields(lo, hi, sp=(17, 23) if not shift else (20, 28), bg=(0, 300)))
    return {"f": f, "fit": draw(st.booleans()), "beta": draw(st.booleans()),
            "iter": draw(st.booleans()), "shift": shift,
            "scale": draw(st.sampled_from([1.0, 0.5, 0.8, 1.7])),
            "sig2": draw(st.sampled_from([1.0, 1.0, 0.85, 1.25])),
            "noise2": draw(st.sampled_from([1.0, 0.5, 2.0])),
            "dbg": draw(st.sampled_from([0, 0, 40])),
            "off": draw(st.sampled_from([[0, 0], [0.3, -0.4]])) if shift else [0, 0],
            "loss": draw(st.sampled_from([0.25, 0.1, 0.9])),
            "smooth": draw(st.sampled_from([False, False, True])),
            "m1": draw(st.one_of(st.none(), patterns(2, 1))),
            "m2": draw(st.one_of(st.none(), patterns(2, 1)))}


def transform(p, shape):
    """Transform of a PSF, centred on the origin, and its centroid."""
    full = np.zeros(shape)
    full[:p.shape[0], :p.shape[1]] = p
    yy, xx = np.mgrid[:p.shape[0], :p.shape[1]]
    c = (p * yy).sum() / p.sum(), (p * xx).sum() / p.sum()
    return np.fft.fft2(full) * wave(shape, -c[0], -c[1]), c


def wave(shape, dy, dx):
    return np.exp(-2j * np.pi * (np.fft.fftfreq(shape[0])[:, None] * dy
                                 + np.fft.fftfreq(shape[1])[None, :] * dx))


def gauss_psf(model, shape):
    yy, xx = np.mgrid[:shape[0], :shape[1]]
    m = model.copy()
    m.x_mean, m.y_mean = shape[1] / 2, shape[0] / 2
    p = m(xx, yy)
    return p / p.sum()


class Reference:
    """Proper subtraction of two prepared images."""

    def __init__(self, ref, new, pr, pn):
        self.shape = ref.data.shape
        self.ref, self.new = ref, new
        self.R, self.N = np.fft.fft2(ref.interped), np.fft.fft2(new.interped)
        self.Pr, self.cr = transform(pr, self.shape)
        self.Pn, self.cn = transform(pn, self.shape)

    def norm(self, b):
        return (self.new.var ** 2 * np.abs(self.Pr) ** 2
                + b ** 2 * self.ref.var ** 2 * np.abs(self.Pn) ** 2)

    def diff_hat(self, b, dy=0, dx=0):
        s = wave(self.shape, dy, dx) if (dy or dx) else 1
        return (self.Pr * self.N - b * s * self.Pn * self.R) / np.sqrt(self.norm(b))

    def diff(self, b, dy=0, dx=0):
        """Difference without the frequencies that the PSFs do not carry."""
        return self.carried(np.fft.ifft2(self.diff_hat(b, dy, dx)).real)

    def carried(self, img):
        good = np.minimum(np.abs(self.Pr), np.abs(self.Pn)) > 1e-7
        return np.fft.ifft2(np.fft.fft2(img) * good).real

    def zero_point(self, b):
        return b / np.sqrt(self.ref.var ** 2 * b ** 2 + self.new.var ** 2)

    def psf_hat(self, b):
        """Transform of the difference PSF, centred."""
        return b * self.Pr * self.Pn / np.sqrt(self.norm(b)) / self.zero_point(b)

    def score(self, b, zp, dy, dx):
        """Score image, registered on the pixels."""
        hat = self.diff_hat(b, dy, dx) * self.psf_hat(b).conj() * self.zero_point(b)
        S = np.fft.ifft2(hat)
        V = 0
        for P, Q, im, f in ((self.Pr, self.Pn, self.ref, b), (self.Pn, self.Pr, self.new, 1.0)):
            k = np.fft.ifft2(zp * f * P.conj() * np.abs(Q) ** 2 / self.norm(b))
            var = np.maximum(np.asarray(im.data.filled(0), float) + 1, im.var ** 2)
            V = V + np.fft.ifft2(np.fft.fft2(var) * np.fft.fft2(k ** 2))
        return (S / np.sqrt(V)).real, V.real


def check_formula(c, rec):
    f = c["f"]
    shape = (f["h"], f["w"])
    pix = [render(f), render(f, scale=c["scale"], dbg=c["dbg"], nseed=f["nseed"] + 1,
                             sig=f["sig"] * c["sig2"], noise=f["noise"] * c["noise2"],
                             offset=tuple(c["off"]))]
    cls = SingleImageGaussPSF if c["fit"] else SingleImage
    masks = [paint(m, shape) if m is not None else None for m in (c["m1"], c["m2"])]
    masks = [None if m is not None and m.mean() > 0.03 else m for m in masks]
    smooth = c["smooth"] and not c["fit"]

    def build():
        return [cls(p.copy(), mask=m, smooth_psf=smooth) for p, m in zip(pix, masks)]
    ref, new = build()
    D, P, S, M = subtract(ref, new, inf_loss=c["loss"], beta=c["beta"], shift=c["shift"],
                          iterative=c["iter"], fitted_psf=c["fit"], smooth_psf=smooth)
    rec.nontrivial(c["scale"] != 1 or c["sig2"] != 1 or shape[0] != shape[1])
    rec.label("fitted" if c["fit"] else "measured", "beta" if c["beta"] else "ratio")
    for n, o in (("D", D), ("P", P), ("S", S), ("mask", M)):
        ensure(np.shape(o) == shape, "{} has shape {}", n, np.shape(o))
    ensure(np.isrealobj(S) and np.isrealobj(P), "P or S is complex")
    ensure(np.isfinite(S).all() and np.isfinite(D).all() and np.isfinite(P).all(),
           "outputs are not finite")
    D = np.real(D)
    ensure(abs(P.sum() - 1) < 1e-6, "P sums to {}", P.sum())
    # independent evaluation, from fresh images
    r2, n2 = build()
    zps, _ = utils.transparency([r2, n2])
    if c["fit"]:
        pr, pn = (gauss_psf(i.get_variable_psf()[1][1], shape) for i in (r2, n2))
    else:
        pr, pn = (i.get_variable_psf(inf_loss=c["loss"])[1][0] for i in (r2, n2))
        pr, pn = pr / pr.sum(), pn / pn.sum()
    R = Reference(r2, n2, pr, pn)
    b0 = zps[1] / zps[0]
    D = R.carried(D)
    sd = np.std(D)
    if c["beta"] or c["shift"]:
        def res(v):
            b = np.exp(v[0]) if c["beta"] else b0
            return ((R.diff(b, *v[-2:]) if c["shift"] else R.diff(b)) - D).ravel() / sd
        start = [np.log(b0)] if c["beta"] else []
        start = start + ([0.0, 0.0] if c["shift"] else [])
        best = None
        for k in ([0.0, 1.2, -1.2] if c["beta"] else [0.0]):
            v0 = list(start)
            if c["beta"]:
                v0[0] += k
            r = least_squares(res, v0, xtol=1e-14, ftol=1e-14, gtol=1e-14, max_nfev=60)
            if best is None or r.cost < best.cost:
                best = r
            if np.sqrt(2 * best.cost / D.size) < 1e-6:
                break
        b = np.exp(best.x[0]) if c["beta"] else b0
        dy, dx = best.x[-2:] if c["shift"] else (0, 0)
        ensure(0.0999 <= b <= 10.001 or not c["beta"], "flux ratio in use is {}", b)
        ensure(max(abs(dy), abs(dx)) < 0.9001, "shift in use is {}, {}", dy, dx)
    else:
        b, dy, dx = b0, 0, 0
    tol = 1e-5 if (c["beta"] or c["shift"]) else 1e-7
    d = np.abs(R.diff(b, dy, dx) - D).max() / np.abs(D).max()
    ensure(d < tol, "D differs from the proper difference (ratio {:.4f}, shift {:.3f} {:.3f}) by "
           "{:.2e} of its range", b, dy, dx, d)
    want = np.fft.ifft2(R.psf_hat(b) * wave(shape, R.cr[0] + R.cn[0], R.cr[1] + R.cn[1])).real
    d = np.abs(want - P).max() / P.max()
    ensure(d < tol, "P differs from the proper PSF by {:.2e} of its peak", d)
    zp = zps[1]
    want, V = R.score(b, zp, dy, dx)
    want = want / np.sqrt(D.size)
    if V.min() < 1e-3 * np.median(V):
        rec.label("small variance")
        return
    d = np.abs(want - S).max() / np.abs(want).max()
    ensure(d < 100 * tol, "S differs from the proper score by {:.2e} of its range", d)


CHECKS = [Check("formula", cases(), check_formula, 360, 9000),
          Check("shift", cases(True), check_formula, 80, 1600)]

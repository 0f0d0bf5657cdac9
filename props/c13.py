"""C13: differences show what changed between the images and nothing else."""
import numpy as np
from hypothesis import strategies as st

from properimage.operations import subtract
from properimage.single_image import SingleImage, SingleImageGaussPSF
from vf.core import Check, ensure
from vf.fields import fields, render, paint, patterns, positions, robust_std

RULE = ("Pairs of star fields of one sky: equal, exchanged, or with one source more in one of "
        "them at a drawn sub-pixel position away from the stars, under drawn seeings, flux "
        "scales, sky levels, noises and modes. Non-trivial: frame not square, or the pair "
        "differs in seeing, flux scale or sky.")
ASSUMPTIONS = ["planted sources are at least 8 pixels from stars and 14 from the edges",
               "measured PSFs: stars isolated over their stamps and equal seeing"]


def cond(draw, seeing=True):
    return {"scale": draw(st.sampled_from([1.0, 0.5, 0.8, 1.7])),
            "sig2": draw(st.sampled_from([1.0, 0.85, 1.25])) if seeing else 1.0,
            "noise2": draw(st.sampled_from([1.0, 0.5, 2.0])),
            "dbg": draw(st.sampled_from([0, 40, 300]))}


def pair(f, c, ex_ref=(), ex_new=()):
    return (render(f, extra=ex_ref),
            render(f, scale=c["scale"], dbg=c["dbg"], nseed=f["nseed"] + 1,
                   sig=f["sig"] * c["sig2"], noise=f["noise"] * c["noise2"], extra=ex_new))


@st.composite
def null_cases(draw):
    shift = draw(st.sampled_from([False] * 4 + [True]))
    f = draw(fields(90, 220) if shift else fields(56, 130))
    return {"f": f, "shift": shift, "fit": draw(st.booleans()), "beta": draw(st.booleans()),
            "iter": draw(st.booleans()), "one": draw(st.booleans()),
            "mask": draw(st.one_of(st.none(), patterns(2, 1)))}


def check_null(c, rec):
    f = c["f"]
    shape = (f["h"], f["w"])
    img = render(f)
    m = paint(c["mask"], shape) if c["mask"] else None
    if m is not None and m.mean() > 0.05:
        m = None
    cls = SingleImageGaussPSF if c["fit"] else SingleImage
    a = cls(img, mask=m)
    b = a if c["one"] else cls(img.copy(), mask=m)
    D, P, S, _ = subtract(a, b, beta=c["beta"], shift=c["shift"], iterative=c["iter"],
                          fitted_psf=c["fit"])
    rec.nontrivial(shape[0] != shape[1])
    rec.label("fit" if c["fit"] else "measured", "beta" if c["beta"] else "ratio")
    noise = 1.0  # differences are in units of the noise
    ensure(np.abs(D).max() < 0.05 * noise, "an image minus itself differs from zero by {}",
           np.abs(D).max())
    ensure(np.isfinite(S).all() and np.abs(S).max() * np.sqrt(S.size) < 0.1,
           "score of an image minus itself is {}", np.abs(S).max())


@st.composite
def swap_cases(draw):
    return {"f": draw(fields(56, 130)), "c": cond(draw), "fit": draw(st.booleans()),
            "loss": draw(st.sampled_from([0.25, 0.9, 0.1]))}


def carried(img, sig):
    """Image without the frequencies that a PSF of that width does not carry."""
    fy, fx = np.meshgrid(*(np.fft.fftfreq(n) for n in img.shape), indexing="ij")
    good = np.exp(-2 * np.pi ** 2 * sig ** 2 * (fy ** 2 + fx ** 2)) > 1e-6
    return np.fft.ifft2(np.fft.fft2(img) * good).real


def check_swap(c, rec):
    f = c["f"]
    a, b = pair(f, c["c"])
    cls = SingleImageGaussPSF if c["fit"] else SingleImage
    out = [subtract(cls(x), cls(y), beta=False, shift=False, fitted_psf=c["fit"],
                    inf_loss=c["loss"]) for x, y in ((a, b), (b, a))]
    rec.nontrivial(a.shape[0] != a.shape[1] or c["c"]["scale"] != 1)
    D0, D1 = (carried(o[0].real, f["sig"] * max(1, c["c"]["sig2"])) for o in out)
    d = np.abs(D0 + D1).max() / np.abs(D0).max()
    ensure(d < 1e-6, "exchanging the images does not flip the difference ({:.2e})", d)
    ensure(np.allclose(out[0][1], out[1][1], rtol=0, atol=1e-6 * out[0][1].max()),
           "exchanging the images changes the PSF of the difference")
    s0, s1 = out[0][2], out[1][2]
    k = -(s0 * s1).sum() / (s1 * s1).sum()
    ensure(k > 0 and np.abs(s0 + k * s1).max() < 1e-6 * np.abs(s0).max(),
           "exchanging the images does not flip the score")


def places(f, pos, sep=8, margin=14):
    """Pixels where a source can be planted."""
    yy, xx = np.mgrid[margin:f["h"] - margin, margin:f["w"] - margin]
    d = np.min([(yy - y) ** 2 + (xx - x) ** 2 for y, x, _ in pos], axis=0)
    return np.argwhere(d > sep ** 2) + margin


@st.composite
def transient_cases(draw, fit=True):
    u = st.integers(0, 999)
    return {"f": draw(fields(60, 140) if fit else fields(110, 160, sp=(28, 34))),
            "c": cond(draw, fit), "fit": fit,
            "iter": draw(st.booleans()), "beta": draw(st.booleans()),
            "at": draw(u), "fy": draw(u), "fx": draw(u), "snr": draw(st.integers(40, 120)),
            "inref": draw(st.booleans())}


def check_transient(c, rec):
    f = c["f"]
    pos = positions(f)
    free = places(f, pos)
    if len(free) == 0 or len(pos) < 8:
        rec.label("no room")
        return
    y, x = free[c["at"] * len(free) // 1000] + np.array([c["fy"], c["fx"]]) / 1000 - 0.5
    flux = c["snr"] * f["noise"] * 2 * np.pi * f["sig"] ** 2
    ex = [(y, x, flux)]
    # the source is as significant in the image that has it
    if not c["inref"]:
        ex = [(y, x, flux * max(c["c"]["noise2"] / c["c"]["scale"], 1.0))]
    a, b = pair(f, c["c"], ex if c["inref"] else (), () if c["inref"] else ex)
    cls = SingleImageGaussPSF if c["fit"] else SingleImage
    D, P, S, M = subtract(cls(a), cls(b), beta=c["beta"], iterative=c["iter"], shift=False,
                          fitted_psf=c["fit"], inf_loss=0.9)
    if c["inref"]:
        S = -S
    cc = c["c"]
    rec.nontrivial(a.shape[0] != a.shape[1] or cc["scale"] != 1 or cc["sig2"] != 1 or cc["dbg"])
    rec.label("lost" if c["inref"] else "new")
    yi, xi = int(round(y)), int(round(x))
    box = S[yi - 5:yi + 6, xi - 5:xi + 6]
    p = np.unravel_index(box.argmax(), box.shape)
    p = (p[0] + yi - 5, p[1] + xi - 5)
    off = max(abs(p[0] - y), abs(p[1] - x))
    lim = 1.6
    ensure(off < lim, "planted at {:.1f}, {:.1f}: the score peaks at {}", y, x, p)
    peak, rms = box.max(), robust_std(S)
    ensure(peak > (5 if c["beta"] else 2) * rms, "planted source has score {:.1f} times the scatter", peak / rms)
    yy, xx = np.mgrid[:f["h"], :f["w"]]
    others = np.abs(np.where((yy - y) ** 2 + (xx - x) ** 2 < 100, 0, S))
    if c["beta"]:
        ensure(others.max() < peak or not c["fit"], "planted source (score {:.1f} sigma) is not the extreme score: "
               "{:.1f} sigma at {}", peak / rms, others.max() / rms,
               np.unravel_index(others.argmax(), others.shape))
        ensure(others.max() < (50 if c["fit"] else 150) * rms, "stars common to both images leave a residual of {:.1f} "
               "times the scatter", others.max() / rms)


CHECKS = [Check("null", null_cases(), check_null, 240, 4000),
          Check("swap", swap_cases(), check_swap, 240, 4000),
          Check("transient", transient_cases(), check_transient, 240, 6000),
          Check("measured", transient_cases(False), check_transient, 120, 2000)]

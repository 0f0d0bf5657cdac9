"""C25: simulated frames against direct convolution and noise statistics."""
import numpy as np
from hypothesis import strategies as st

from properimage import simtools as sm
from vf.core import Check, ensure

RULE = ("Masters with drawn point sources, extended sources and types, kernels of drawn size and "
        "width, signal to noise ratios, noise laws, biases and seeds; the frame minus an FFT "
        "convolution must be noise of the asked law. Non-trivial: noise and at least one source.")
ASSUMPTIONS = ["noise level and mean are accepted within six standard errors",
               "kernels of even size have no central pixel: positions are kept within half a pixel"]


def half(lo, hi):
    return st.integers(int(lo * 10), int(hi * 10)).map(lambda v: v / 10.0)


@st.composite
def masters(draw, lo=24, hi=80):
    return {"N": draw(st.integers(lo, hi)), "seed": draw(st.integers(0, 10**6)),
            "n": draw(st.integers(1, 12)), "type": draw(st.sampled_from(["f8", "f4", "i4"])),
            "smooth": draw(st.booleans())}


def master(m):
    rng = np.random.default_rng(m["seed"])
    n = m["N"]
    a = np.zeros((n, n))
    for _ in range(m["n"]):
        a[tuple(rng.integers(0, n, 2))] += rng.integers(50, 20000)
    if m["smooth"]:
        yy, xx = np.indices(a.shape)
        a += 300 * np.exp(-0.5 * ((yy - n * 0.3) ** 2 + (xx - n * 0.6) ** 2) / (n / 8) ** 2)
    return a.astype(m["type"])


def convolved(a, k):
    """Central part of the full linear convolution."""
    a, k = np.asarray(a, float), np.asarray(k, float)
    s = [x + y - 1 for x, y in zip(a.shape, k.shape)]
    s2 = [int(2 ** np.ceil(np.log2(v))) for v in s]
    full = np.fft.ifft2(np.fft.fft2(a, s2) * np.fft.fft2(k, s2)).real[:s[0], :s[1]]
    y, x = (k.shape[0] - 1) // 2, (k.shape[1] - 1) // 2
    return full[y:y + a.shape[0], x:x + a.shape[1]]


@st.composite
def frames(draw):
    return {"m": draw(masters()), "x": draw(half(1.0, 5)),
            "y": draw(st.one_of(st.just(0), half(1.0, 5))),
            "theta": draw(st.sampled_from([0, 0, 40])),
            "SN": draw(st.sampled_from([0.02, 0.5, 3.0, 30.0, 1000.0])),
            "law": draw(st.sampled_from(["poisson", "gaussian", "gaussian"])),
            "std": draw(st.sampled_from([None, 0.5, 12.0, 0, 0.0])),
            "bias": draw(st.sampled_from([None, 0.0, 100.0, -7.5])),
            "seed": draw(st.one_of(st.none(), st.integers(0, 2**32))),
            "texp": draw(st.sampled_from([1, 30.0]))}


def make(c, a, seed):
    kw = {}
    if c["y"]:
        kw["Y_FWHM"] = c["y"]
    if c["theta"]:
        kw["theta"] = c["theta"]
    if c["std"] is not None:
        kw["std"] = c["std"]
    if c["bias"] is not None:
        kw["bias"] = c["bias"]
    return sm.image(a, c["m"]["N"], c["texp"], c["x"], c["SN"], bkg_pdf=c["law"], seed=seed, **kw)


def check_frame(c, rec):
    a = master(c["m"])
    keep = a.copy()
    n = c["m"]["N"]
    im = make(c, a, c["seed"])
    ensure(np.array_equal(a, keep), "the master is modified")
    ensure(np.shape(im) == (n, n), "the frame has shape {} instead of {}", np.shape(im), (n, n))
    k = sm.Psf(5 * max(c["x"], c["y"]), c["x"], c["y"], c["theta"])
    smooth = convolved(a, k)
    bias = 100.0 if c["bias"] is None else c["bias"]
    noise = im - bias - smooth
    peak = smooth.max()
    rec.nontrivial(peak > 0)
    rec.label(c["law"])
    err = 1e-6 * (1 + abs(bias) + peak)
    if c["law"] == "poisson":
        mu = peak / c["SN"]
        ensure(np.abs(noise - np.round(noise)).max() < err + 1e-7 * mu and noise.min() > -err,
               "the Poisson sky is not a count")
        if mu > 20:
            odd = (np.round(noise) % 2).mean()
            ensure(abs(odd - 0.5) < 3.2 / n, "{:.3f} of the counts of the sky are odd", odd)
        sd, kurt = np.sqrt(mu), 1.0 / mu
    else:
        mu, sd, kurt = 0.0, peak / c["SN"] if c["std"] is None else c["std"], 0.0
    tol = 6 * sd / n + err
    ensure(abs(noise.mean() - mu) < tol, "the sky is {:.4g} instead of {:.4g}", noise.mean(), mu)
    tol = 6 * sd * np.sqrt((2 + kurt) / n ** 2) / 2 + err
    if sd > 10 * err and mu * n * n > 100 or c["law"] == "gaussian":
        ensure(abs(noise.std() - sd) < tol + 0.01 * sd,
               "the sky noise is {:.5g} instead of {:.5g}", noise.std(), sd)
    if c["law"] == "gaussian" and sd > 10 * err:
        z = (noise - mu) / sd
        f = (np.abs(z) < 1).mean()
        ensure(abs(f - 0.6827) < 6 * 0.47 / n, "{:.3f} of the sky within one sigma", f)
    # white: no correlation with neighbours nor with the scene
    for b, what in ((np.roll(noise, 1, 0), "row"), (np.roll(noise, 1, 1), "column"),
                    (smooth, "scene")):
        if b.std() > 0 and noise.std() > 0 and sd > 10 * err:
            r = np.corrcoef(noise.ravel(), b.ravel())[0, 1]
            ensure(abs(r) < 6.5 / n, "the sky correlates by {:.3f} with the {}", r, what)
    again = make(c, a, c["seed"])
    if c["seed"] is None:
        if sd > 0.5:
            ensure(not np.array_equal(im, again), "unseeded frames repeat their noise")
    else:
        ensure(np.array_equal(im, again), "the seed {} gives different frames", c["seed"])
        if sd > 0.5:
            other = make(c, a, c["seed"] + 1)
            ensure(not np.array_equal(im, other), "seeds {} and the next give the same noise",
                   c["seed"])
            r = np.corrcoef(noise.ravel(), (other - bias - smooth).ravel())[0, 1]
            ensure(abs(r) < 6.5 / n, "the noise of two seeds correlates by {:.3f}", r)


@st.composite
def convs(draw):
    k = st.integers(1, 25)
    return {"m": draw(masters(26, 70)), "k": draw(st.tuples(k, k)), "kseed": draw(
        st.integers(0, 999)), "psf": draw(st.booleans()), "w": draw(half(1.0, 4)),
        "f": draw(st.sampled_from([2.0, -1.5, 0.0])), "sh": draw(st.tuples(
            st.integers(-3, 3), st.integers(-3, 3)))}


def check_conv(c, rec):
    a = master(c["m"]).astype(float)
    rng = np.random.default_rng(c["kseed"])
    k = sm.Psf(c["k"][0], c["w"]) if c["psf"] else rng.uniform(0, 1, c["k"])
    ka, kk = a.copy(), k.copy()
    out = sm.convol_gal_psf_fft(a, k)
    sc = np.abs(a).max() * k.sum()
    ensure(np.array_equal(a, ka) and np.array_equal(k, kk), "the inputs are modified")
    ensure(np.shape(out) == a.shape, "the shape is {} instead of {}", np.shape(out), a.shape)
    d = np.abs(out - convolved(a, k)).max()
    ensure(d < 1e-8 * sc, "the convolution differs by {:.2e} of its scale", d / sc)
    rec.nontrivial(k.size > 1)
    # linearity
    b = rng.normal(0, 1, a.shape) * np.abs(a).max()
    lin = sm.convol_gal_psf_fft(a + c["f"] * b, k)
    d = np.abs(lin - out - c["f"] * sm.convol_gal_psf_fft(b, k)).max()
    ensure(d < 1e-7 * sc, "the convolution is not linear ({:.2e})", d / sc)
    # flux and position of sources away from the edges
    p = np.zeros((90, 84))
    p[30:30 + 20, 30:30 + 20] = rng.uniform(0, 1, (20, 20)) ** 3
    q = sm.convol_gal_psf_fft(p, k)
    ensure(abs(q.sum() / (p.sum() * k.sum()) - 1) < 1e-9, "the flux goes from {} to {}",
           p.sum() * k.sum(), q.sum())
    r = sm.convol_gal_psf_fft(np.roll(p, c["sh"], (0, 1)), k)
    ensure(np.abs(r - np.roll(q, c["sh"], (0, 1))).max() < 1e-9 * k.sum(),
           "moving the sources does not move the convolution")
    if c["psf"]:
        for ax in (0, 1):
            i = np.indices(p.shape)[ax]
            m = (i * q).sum() / q.sum() - (i * p).sum() / p.sum()
            ensure(abs(m) < 0.5 + 1e-6, "sources move by {} along axis {}", m, ax)


@st.composite
def varpsf(draw):
    return {"n": draw(st.integers(4, 40)), "SN": draw(st.sampled_from([30.0, 5.0, 200.0])),
            "N": draw(st.integers(64, 100)), "seed": draw(st.integers(0, 10**6)),
            "thetas": draw(st.sampled_from([None, [0, 0, 0, 0], [10, 50, 100, 170]]))}


def check_varpsf(c, rec):
    kw = {} if c["thetas"] is None else {"thetas": list(c["thetas"])}
    a = sm.sim_varpsf(c["n"], SN=c["SN"], N=c["N"], seed=c["seed"], **kw)
    ensure(a.shape == (2 * c["N"], 2 * c["N"]), "the frame has shape {}", a.shape)
    ensure(np.isfinite(a).all(), "the frame is not finite")
    b = sm.sim_varpsf(c["n"], SN=c["SN"], N=c["N"], seed=c["seed"], **kw)
    ensure(np.array_equal(a, b), "the seed {} gives different frames", c["seed"])
    other = sm.sim_varpsf(c["n"], SN=c["SN"], N=c["N"], seed=c["seed"] + 1, **kw)
    ensure(not np.array_equal(a, other), "different seeds give the same frame")
    ensure(not np.array_equal(sm.sim_varpsf(c["n"], SN=c["SN"], N=c["N"], **kw),
                              sm.sim_varpsf(c["n"], SN=c["SN"], N=c["N"], **kw)),
           "unseeded frames repeat")
    rec.nontrivial()
    n = c["N"]
    for j in range(2):
        for i in range(2):
            q = a[i * n:(i + 1) * n, j * n:(j + 1) * n]
            sky = np.median(q)
            sd = 1.4826 * np.median(np.abs(q - sky))
            want = np.linspace(100.0, 10000.0, c["n"] // 4).sum()
            got = (q - sky).sum()
            # the median of the sky is uncertain and stars raise it
            tol = 8 * sd * n + 0.02 * sd * n * n + 0.1 * want
            # a star hides another one at the same pixel
            ensure(want - 20000 - tol < got < want + tol, "quadrant {}, {} has a flux of {:.0f} instead of "
                   "{:.0f}", i, j, got, want)


CHECKS = [Check("frame", frames(), check_frame, 600, 12000),
          Check("conv", convs(), check_conv, 500, 12000),
          Check("varpsf", varpsf(), check_varpsf, 16, 300)]

"""C14: flux-scale and shift fitting recover the true ratio and offset."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import least_squares

from properimage import utils
from properimage.operations import subtract
from properimage.single_image import SingleImageGaussPSF
from props.c12 import Reference, gauss_psf
from vf.core import Check, ensure
from vf.fields import fields, render, positions, fluxes, robust_std

RULE = ("Pairs of fields of one sky with drawn flux ratio, seeing, noise, share of variable "
        "stars and sub-pixel offset, subtracted in each fitting mode. The ratio and offset in "
        "use are recovered from the difference by an independent fit, residuals are taken at "
        "constant stars. Non-trivial: ratio or offset differ from none.")
ASSUMPTIONS = [
               "at most a fifth of the stars vary"]


@st.composite
def ratio_cases(draw):
    return {"f": draw(fields(90, 150)), "lr": draw(st.integers(-160, 160)),
            "vs": draw(st.integers(0, 9999)), "share": draw(st.sampled_from([0, 0.1, 0.2])),
            "fac": draw(st.sampled_from([0.4, 2.0])), "iter": draw(st.booleans()),
            "noise2": draw(st.sampled_from([1.0, 0.5, 2.0])),
            "sig2": draw(st.sampled_from([1.0, 1.0, 0.85, 1.2]))}


def near(S, pos):
    return np.array([np.abs(S[int(y) - 2:int(y) + 4, int(x) - 2:int(x) + 4]).max()
                     for y, x, _ in pos]) / robust_std(S)


def reference(a, b):
    r, n = SingleImageGaussPSF(a), SingleImageGaussPSF(b)
    return Reference(r, n, *(gauss_psf(i.get_variable_psf()[1][1], a.shape) for i in (r, n)))


def check_ratio(c, rec):
    f = c["f"]
    ratio = np.exp(c["lr"] / 100)
    pos = positions(f)
    if len(pos) < 12:
        return
    fl = fluxes(f, pos)
    rng = np.random.default_rng(c["vs"])
    var = rng.permutation(len(pos)) < c["share"] * len(pos)
    a = render(f)
    b = render(f, scale=ratio, nseed=f["nseed"] + 1, noise=f["noise"] * c["noise2"],
               sig=f["sig"] * c["sig2"],
               extra=[(y, x, (c["fac"] - 1) * q) for (y, x, _), q in zip(pos[var], fl[var])])
    D, P, S, M = subtract(SingleImageGaussPSF(a), SingleImageGaussPSF(b), beta=True,
                          iterative=c["iter"], shift=False)
    rec.nontrivial(abs(c["lr"]) > 5)
    rec.label("iterative" if c["iter"] else "plain", "variables" if var.any() else "constant")
    R = reference(a, b)
    # the flux ratio in use is the one that fits
    full = np.abs(D.real).sum()
    grid = [np.abs(np.fft.ifft2(R.diff_hat(ratio * k)).real).sum()
            for k in np.exp(np.linspace(-0.8, 0.8, 33)) if 0.1 <= ratio * k <= 10]
    ensure(full < 1.03 * min(grid), "a better flux ratio exists: total difference {:.3f} against "
           "{:.3f}", full, min(grid))
    D = R.carried(D.real)
    sd = D.std()
    best = None
    for k in (0, 0.7, -0.7):
        r = least_squares(lambda q: ((R.diff(np.exp(q[0])) - D) / sd).ravel(),
                          [np.log(ratio) + k], xtol=1e-10)
        if best is None or r.cost < best.cost:
            best = r
        if best.cost < 1e-6 * D.size:
            break
    got = np.exp(best.x[0]) / ratio
    rec.label("off by %d%%" % (5 * int(abs(got - 1) / 0.05)))
    if var.any():
        return
    ensure(abs(got - 1) < 0.3, "flux ratio in use is {:.3f} of the true one ({:.3f})", got, ratio)
    res = near(S, pos)
    ensure(np.median(res) < 18, "constant stars leave {:.1f} times the scatter", np.median(res))


def shift_cases(beta):
    o = st.integers(-70, 70)
    return st.fixed_dictionaries({
        "f": fields(95, 230, sp=(17, 21)), "lr": st.integers(-70, 70) if beta else st.just(0),
        "dy": o, "dx": o, "beta": st.just(beta),
        "noise2": st.sampled_from([1.0, 0.6, 1.6]),
        "sig2": st.sampled_from([1.0, 1.0, 0.85, 1.2])})


def check_shift(c, rec):
    f = c["f"]
    ratio = np.exp(c["lr"] / 100)
    off = (c["dy"] / 100, c["dx"] / 100)
    a = render(f)
    b = render(f, scale=ratio, nseed=f["nseed"] + 1, noise=f["noise"] * c["noise2"],
               sig=f["sig"] * c["sig2"], offset=off)
    pos = positions(f)
    new, old = [subtract(SingleImageGaussPSF(a), SingleImageGaussPSF(b), beta=c["beta"],
                         shift=s) for s in (True, False)]
    rec.nontrivial(max(map(abs, off)) > 0.1)
    D = new[0].real
    new, old = near(new[2], pos), near(old[2], pos)
    ensure(np.median(new) < 1.4 * np.median(old) + 3, "fitting the shift leaves {:.1f} times the "
           "scatter at the stars, {:.1f} without", np.median(new), np.median(old))
    R = reference(a, b)
    D = R.carried(D)
    sd = D.std()
    z = utils.transparency([SingleImageGaussPSF(a), SingleImageGaussPSF(b)])[0]
    b0 = np.log(z[1] / z[0])

    def res(q):
        return ((R.diff(np.exp(q[2] if c["beta"] else b0), q[0], q[1]) - D) / sd).ravel()
    q = least_squares(res, list(off) + ([np.log(ratio)] if c["beta"] else []), xtol=1e-8).x
    err = max(abs(q[0] - off[0]), abs(q[1] - off[1]))
    if not c["beta"]:
        ensure(err < 0.35, "offset in use is {:.2f}, {:.2f} instead of {:.2f}, {:.2f}", q[0], q[1],
               *off)
    return err < 0.2 and (not c["beta"] or abs(q[2] - np.log(ratio)) < 0.2)


def check_both(c, rec):
    """The joint fit may stop at its start, rarely: most of several must succeed."""
    done = [check_shift(one, rec) for one in c]
    rec.label("recovered %d of %d" % (sum(done), len(done)))
    ensure(sum(done) >= len(done) / 2, "{} of {} pairs with their ratio and offset recovered",
           sum(done), len(done))


@st.composite
def hidden_cases(draw):
    return {"f": draw(fields(100, 150, sp=(17, 21), snr=(60, 250))),
            "lr": draw(st.integers(-100, 100)), "star": draw(st.integers(0, 99)),
            "times": draw(st.sampled_from([3, 6])), "in": draw(st.sampled_from(["new", "ref"])),
            "mode": draw(st.sampled_from(["plain", "iterative", "shift", "both"]))}


def check_hidden(c, rec):
    """A star masked in one of the images has no part in the fit."""
    f = c["f"]
    pos = positions(f)
    if len(pos) < 12:
        return
    fl = fluxes(f, pos)
    both = c["mode"] in ("shift", "both")
    ratio = 1.0 if c["mode"] == "shift" else np.exp(c["lr"] / 100 * (0.5 if both else 1))
    y, x, _ = pos[c["star"] % len(pos)]
    big = [(y, x, c["times"] * fl.sum())]
    a = render(f, extra=big)
    b = render(f, scale=ratio, nseed=f["nseed"] + 1,
               extra=[(y, x, ratio * big[0][2])])
    yy, xx = np.indices(a.shape)
    hole = np.hypot(yy - y, xx - x) < 6.5 * f["sig"] + 2
    masks = (hole, None) if c["in"] == "ref" else (None, hole)
    imgs = [SingleImageGaussPSF(i, mask=m) for i, m in zip((a, b), masks)]
    D = subtract(*imgs, beta=c["mode"] != "shift", iterative=c["mode"] == "iterative",
                 shift=both)[0].real
    rec.nontrivial()
    rec.label(c["mode"])
    r, n = (SingleImageGaussPSF(i, mask=m) for i, m in zip((a, b), masks))
    R = Reference(r, n, *(gauss_psf(i.get_variable_psf()[1][1], a.shape) for i in (r, n)))
    D = R.carried(D)
    sd = D.std()
    z = utils.transparency([SingleImageGaussPSF(i, mask=m) for i, m in zip((a, b), masks)])[0]
    b0 = np.log(z[1] / z[0])

    def res(q):
        lb = b0 if c["mode"] == "shift" else q[0]
        return ((R.diff(np.exp(lb), *(q[1:] if both else ())) - D) / sd).ravel()
    best = min((least_squares(res, [np.log(ratio) + k] + [0, 0] * both, xtol=1e-9)
                for k in (0, 0.7, -0.7)), key=lambda q: q.cost)
    if c["mode"] != "shift":
        off = abs(best.x[0] - np.log(ratio))
        rec.label("off by %.2f" % round(off, 2))
        ensure(off < 0.3, "with a masked star the flux ratio in use is {:.3f} of the true one",
               np.exp(best.x[0]) / ratio)
    if both:
        rec.label("shift %.1f" % round(np.abs(best.x[1:]).max(), 1))
        # (the joint fit may stop halfway)
        lim = 0.35 if c["mode"] == "shift" else 0.7
        ensure(np.abs(best.x[1:]).max() < lim, "with a masked star images without offset are "
               "shifted by {:.2f}, {:.2f}", *best.x[1:])


CHECKS = [Check("hidden", hidden_cases(), check_hidden, 64, 2000),
          Check("ratio", ratio_cases(), check_ratio, 160, 5000),
          Check("shift", shift_cases(False), check_shift, 64, 2000),
          Check("both", st.lists(shift_cases(True), min_size=4, max_size=4), check_both, 16, 300,
                hang=400)]

"""C17: coadds against an independent implementation of proper coaddition."""
import numpy as np
from hypothesis import strategies as st

from properimage import utils
from properimage.operations import coadd, subtract
from properimage.single_image import SingleImage, SingleImageGaussPSF
from vf.core import Check, ensure
from vf.fields import fields, render, paint, patterns, positions, robust_std

RULE = ("Lists of 1 to 6 images of one sky with drawn flux scales, seeings, noises, masks and "
        "information losses; the coadd, PSF and mask are recomputed with numpy, compared over "
        "permutations, copies and earlier uses of the images, and stars are looked up in the "
        "coadd. Non-trivial: at least two images.")
ASSUMPTIONS = ["values are compared on the frequencies that the PSFs carry",
               "the position of the coadd PSF in its frame is a convention: only its transform "
               "modulus is compared", "star positions: stars isolated over the PSF stamps"]


@st.composite
def cases(draw, nmax=6):
    n = draw(st.integers(1, nmax))
    return {"f": draw(fields(60, 96)),
            "im": [{"scale": draw(st.sampled_from([1.0, 0.6, 1.5, 1.0, 0.6, 1.5, 0.2, 5.0])),
                    "noise": draw(st.sampled_from([1.0, 0.5, 2.0])),
                    "sig": draw(st.sampled_from([1.0, 0.85, 1.2])),
                    "mask": draw(st.one_of(st.none(), st.none(), patterns(2, 1))),
                    "gauss": False}
                   for _ in range(n)],
            "procs": draw(st.integers(1, 4)), "perm": draw(st.integers(0, 10**6)),
            "loss": draw(st.sampled_from([0.2, 0.05, 0.6, 0.9]))}


def build(c):
    f = c["f"]
    shape = (f["h"], f["w"])
    out = []
    for i, im in enumerate(c["im"]):
        m = paint(im["mask"], shape) if im["mask"] else None
        if m is not None and m.mean() > 0.05:
            m = None
        pix = render(f, scale=im["scale"], nseed=f["nseed"] + i, noise=f["noise"] * im["noise"],
                     sig=f["sig"] * im["sig"])
        out.append((SingleImageGaussPSF if im["gauss"] else SingleImage)(pix, mask=m))
    return out


def power(img, loss, shape):
    """Power of the PSF of an image, summed over its components."""
    if isinstance(img, SingleImageGaussPSF):
        return np.abs(img.psf_hat_sqnorm())
    _, basis = img.get_variable_psf(inf_loss=loss)
    return sum(np.abs(np.fft.fft2(p, s=shape)) ** 2 for p in basis) / np.prod(shape)


def try_coadd(imgs, rec, **kw):
    try:
        return coadd(imgs, align=False, **kw)
    except ValueError as e:
        ensure("ource" in str(e) or "center" in str(e), "coadd raises {}", e)
        rec.label("refused")
        return None


def close(a, b, good, tol, what):
    a, b = (np.fft.fft2(np.real(x)) * good for x in (a, b))
    d = np.abs(a - b).max() / np.abs(b).max()
    ensure(d < tol, "{} differ by {:.2e} of the largest amplitude", what, d)


def check_formula(c, rec):
    f = c["f"]
    shape = (f["h"], f["w"])
    got = try_coadd(build(c), rec, inf_loss=c["loss"], n_procs=c["procs"])
    if got is None:
        return
    R, P, M = got
    rec.nontrivial(len(c["im"]) > 1)
    rec.label("%d images" % len(c["im"]))
    for n, o in (("coadd", R), ("PSF", P), ("mask", M)):
        ensure(np.shape(o) == shape, "{} has shape {}", n, np.shape(o))
    ensure(np.isfinite(R).all() and np.isfinite(P).all(), "the coadd is not finite")
    ensure(abs(np.sum(P) - 1) < 1e-8, "the coadd PSF sums to {}", np.sum(P))
    # independent evaluation from fresh images
    imgs = build(c)
    want = np.zeros(shape, bool)
    for i in imgs:
        want |= np.ma.getmaskarray(i.data)
    ensure((np.ma.getdata(M) == want).all(), "the mask of the coadd is not the union of the masks")
    zps, _ = utils.transparency(imgs)
    S, W = 0, 0
    for z, i in zip(zps, imgs):
        i.zp = z
        pw = power(i, c["loss"], shape)
        S = S + i.s_component
        W = W + (z / i.var) ** 2 * pw
    good = W > 1e-12 * W.max()
    S_hat = np.fft.fft2(S) / np.sqrt(S.size)
    want = np.fft.ifft2(np.where(good, S_hat / np.sqrt(np.where(good, W, 1)), 0)).real
    # the matched filters are used before taking their real part: leave the
    # lines where a half-pixel shift of a real image is not real
    for ax, n in enumerate(shape):
        if n % 2 == 0:
            good = good & (np.arange(n) != n // 2).reshape((-1, 1) if ax == 0 else (1, -1))
    close(R, want, good, 1e-5, "the coadd and the proper coadd")
    ph = np.abs(np.fft.fft2(np.real(P)))
    ph0 = np.sqrt(W) / np.sqrt(W[0, 0])
    d = np.abs(ph - ph0)[good].max()
    ensure(d < 1e-5, "the PSF and the proper PSF of the coadd differ by {:.2e}", d)


def check_order(c, rec):
    f = c["f"]
    n = len(c["im"])
    first = try_coadd(build(c), rec, inf_loss=c["loss"], n_procs=1)
    if first is None:
        return
    rec.nontrivial(n > 1)
    p = np.random.default_rng(c["perm"]).permutation(n)
    imgs = build(c)
    other = coadd([imgs[k] for k in p], align=False, inf_loss=c["loss"], n_procs=c["procs"])
    # zero points are relative to the first image: only the scale follows
    good = np.abs(np.fft.fft2(np.real(first[1]))) > 1e-6
    a, b = np.real(first[0]), np.real(other[0])
    ka, kb = (np.fft.fft2(x) * good for x in (a, b))
    k = (np.abs(kb * kb.conj()).sum() / np.abs(ka * ka.conj()).sum()) ** 0.5
    d = np.abs(kb - k * ka).max() / np.abs(kb).max()
    rec.label("moved" if (p != np.arange(n)).any() else "same order")
    # another first image may match other stars
    z = utils.transparency(build(c))[0]
    fresh = build(c)
    zp = utils.transparency([fresh[j] for j in p])[0]
    same = np.allclose(zp / zp[0], z[p] / z[p][0], rtol=1e-7)
    if not same:
        rec.label("other matches")
    ensure(d < (1e-6 if same else 0.05), "the order of the images changes the coadd by {:.2e} of "
           "the largest amplitude", d)
    ensure(abs(k - 1) < (1e-6 if same else 0.05), "the order of the images scales the coadd by {}",
           k)
    d = np.abs(first[1] - other[1]).max() / np.abs(first[1]).max()
    ensure(d < (1e-6 if same else 0.05), "the order of the images changes the PSF by {:.2e}", d)
    ensure((np.ma.getdata(first[2]) == np.ma.getdata(other[2])).all(),
           "the order of the images changes the mask")


@st.composite
def copy_cases(draw):
    return {"f": draw(fields(60, 96)), "n": draw(st.integers(2, 6)),
            "procs": draw(st.integers(1, 4)), "same": draw(st.booleans()),
            "loss": draw(st.sampled_from([0.2, 0.05, 0.9]))}


def check_copies(c, rec):
    img = render(c["f"])
    kw = dict(align=False, inf_loss=c["loss"])
    one = coadd([SingleImage(img.copy())], n_procs=1, **kw)
    a = SingleImage(img.copy())
    many = coadd([a if c["same"] and c["procs"] == 1 else SingleImage(img.copy())
                  for _ in range(c["n"])], n_procs=c["procs"], **kw)
    rec.nontrivial()
    good = np.abs(np.fft.fft2(np.real(one[1]))) > 1e-6
    close(many[0], np.sqrt(c["n"]) * np.real(one[0]), good, 1e-5,
          "%d copies and the single image times their square root" % c["n"])
    ensure(np.abs(many[1] - one[1]).max() < 1e-6 * np.abs(one[1]).max(),
           "copies change the PSF of the coadd")


@st.composite
def sky_cases(draw):
    return {"f": draw(fields(100, 150, sp=(30, 34), noise=(2.0, 8.0))),
            "n": draw(st.integers(2, 6)), "gauss": draw(st.booleans()),
            "scales": draw(st.lists(st.sampled_from([1.0, 0.6, 1.5]), min_size=6, max_size=6)),
            "procs": draw(st.integers(1, 4))}


def check_sky(c, rec):
    f = c["f"]
    pos = positions(f)
    if len(pos) < 8:
        return
    cls = SingleImage
    imgs = [cls(render(f, nseed=f["nseed"] + i, scale=c["scales"][i])) for i in range(c["n"])]
    R, P, M = coadd(imgs, align=False, inf_loss=0.9, n_procs=c["procs"])
    R = np.real(R)
    one = np.real(coadd([cls(render(f, nseed=f["nseed"], scale=c["scales"][0]))], align=False,
                        inf_loss=0.9, n_procs=1)[0])
    rec.nontrivial()

    def depth(im):
        # the coadd is an image again, of the coadd PSF: measure in apertures
        return np.median([im[int(y) - 2:int(y) + 4, int(x) - 2:int(x) + 4].sum()
                          for y, x, _ in pos]) / robust_std(im)
    for y, x, _ in pos:
        yi, xi = int(round(y)), int(round(x))
        box = R[yi - 4:yi + 5, xi - 4:xi + 5]
        q = np.unravel_index(box.argmax(), box.shape)
        off = max(abs(q[0] + yi - 4 - y), abs(q[1] + xi - 4 - x))
        ensure(off < 2.1, "a star at {:.1f}, {:.1f} peaks {:.1f} pixels away in the coadd", y, x, off)
    gain = depth(R) / depth(one)
    want = np.sqrt(sum(s ** 2 for s in c["scales"][:c["n"]])) / c["scales"][0]
    rec.label("%.1f" % (gain / want))
    ensure(0.7 < gain / want < 1.4, "the coadd of {} images is {:.2f} times as deep as the first, "
           "expected {:.2f}", c["n"], gain, want)


@st.composite
def used_cases(draw):
    c = draw(cases(4))
    for im in c["im"]:  # tell the images apart
        im["scale"] = draw(st.sampled_from([0.5, 0.7, 1.0, 1.4, 2.0]))
    n = len(c["im"])
    op = st.tuples(st.sampled_from(["coadd", "subtract", "zp", "loss", "products"]),
                   st.permutations(range(n)), st.sampled_from([0.02, 0.2, 0.6, 0.9]))
    c["before"] = [[o[0], list(o[1]), o[2]] for o in draw(st.lists(op, min_size=1, max_size=4))]
    c["align"] = False
    return c


def check_used(c, rec):
    """A coadd depends on the images, not on what they were used for."""
    fresh = try_coadd(build(c), rec, inf_loss=c["loss"], n_procs=c["procs"])
    if fresh is None:
        return
    imgs = build(c)
    n = len(imgs)
    for op, order, x in c["before"]:
        if op == "coadd":
            coadd([imgs[k] for k in order[:max(1, int(10 * x) % n + 1)]], align=False, inf_loss=x,
                  n_procs=1)
        elif op == "subtract":
            if n > 1:
                subtract(imgs[order[0]], imgs[order[1]], inf_loss=x, beta=False, shift=False,
                         fitted_psf=False)
        elif op == "zp":
            imgs[order[0]].zp = 3 * x
        elif op == "loss":
            imgs[order[0]].inf_loss = x
        else:
            imgs[order[0]].s_component, imgs[order[-1]].psf_hat_sqnorm()
    rec.nontrivial(n > 1)
    rec.label(*[o[0] for o in c["before"]])
    R, P, M = coadd(imgs, align=False, inf_loss=c["loss"], n_procs=c["procs"])
    good = np.abs(np.fft.fft2(np.real(fresh[1]))) > 1e-6
    # matching re-orders the stars, which moves products at rounding level
    close(R, fresh[0], good, 1e-5, "coadds after %s and without it" % [o[0] for o in c["before"]])
    ka, kb = (np.abs(np.fft.fft2(np.real(x)) * good).sum() for x in (R, fresh[0]))
    ensure(abs(ka / kb - 1) < 1e-5, "earlier use of the images scales the coadd by {}", ka / kb)
    ensure(np.abs(P - fresh[1]).max() < 1e-5 * np.abs(fresh[1]).max(),
           "earlier use of the images changes the PSF of the coadd")
    ensure((np.ma.getdata(M) == np.ma.getdata(fresh[2])).all(),
           "earlier use of the images changes the mask of the coadd")


CHECKS = [Check("formula", cases(), check_formula, 320, 5000),
          Check("order", cases(4), check_order, 120, 2000),
          Check("copies", copy_cases(), check_copies, 80, 1500),
          Check("sky", sky_cases(), check_sky, 80, 1500),
          Check("used", used_cases(), check_used, 120, 2000)]

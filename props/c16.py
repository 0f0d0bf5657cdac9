"""C16: coadds do not depend on the number of workers or their schedule."""
import sys
import time

import numpy as np
from hypothesis import strategies as st

from properimage import operations
from properimage.operations import coadd
from properimage.single_image import SingleImage, SingleImageGaussPSF
from vf.core import Check, ensure
from vf.fields import fields, render, paint, patterns

RULE = ("Lists of 1 to 7 images of drawn flux scale, noise and masks, coadded with drawn worker "
        "counts; workers run one after another in a drawn order, or as threads started with "
        "drawn delays and a tiny switch interval. Compared with the single-worker coadd of fresh "
        "images. Non-trivial: more than one worker with at least two images.")
ASSUMPTIONS = ["worker order is controlled by replacing the module's Parallel when it has one"]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 7))
    return {"f": draw(fields(60, 84)),
            "im": [{"scale": draw(st.sampled_from([1.0, 0.6, 1.5])),
                    "noise": draw(st.sampled_from([1.0, 0.5, 2.0])),
                    "mask": draw(st.one_of(st.none(), st.none(), patterns(2, 1))),
                    "gauss": draw(st.booleans())} for _ in range(n)],
            "procs": draw(st.lists(st.integers(2, 10), min_size=1, max_size=3)),
            "order": draw(st.integers(0, 10**6)),
            "how": draw(st.sampled_from(["plain", "order", "delays"])),
            "dup": draw(st.integers(0, 5)), "warm": draw(st.booleans()),
            "loss": draw(st.sampled_from([0.2, 0.05, 0.6]))}


class Workers:
    """Stand-in for joblib's Parallel: runs the tasks in a drawn order."""
    seed, used = 0, 0

    def __init__(self, *a, **k):
        pass

    def __call__(self, tasks):
        tasks = list(tasks)
        Workers.used += 1
        out = [None] * len(tasks)
        for i in np.random.default_rng(Workers.seed).permutation(len(tasks)):
            fn, a, k = tasks[i]
            out[i] = fn(*a, **k)
        return out


def build(c):
    f = c["f"]
    shape = (f["h"], f["w"])
    out = []
    for i, im in enumerate(c["im"]):
        m = paint(im["mask"], shape) if im["mask"] else None
        if m is not None and m.mean() > 0.05:
            m = None
        pix = render(f, scale=im["scale"], nseed=f["nseed"] + i, noise=f["noise"] * im["noise"])
        out.append((SingleImageGaussPSF if im["gauss"] else SingleImage)(pix, mask=m))
    if c["dup"] == 0 and len(out) > 1:
        out.append(out[0])  # the same image twice
    return out


def compare(got, want, what):
    for n, g, w in zip(("coadd", "PSF", "mask"), got, want):
        g, w = np.asarray(np.ma.getdata(g)), np.asarray(np.ma.getdata(w))
        ensure(g.shape == w.shape, "{}: {} has shape {} instead of {}", what, n, g.shape, w.shape)
        if n == "mask":
            ensure((g == w).all(), "{}: masks differ in {} pixels", what, (g != w).sum())
        else:
            ensure(np.isfinite(g).all(), "{}: {} is not finite", what, n)
            d = np.abs(g - w).max() / np.abs(w).max()
            ensure(d < 1e-6, "{}: {} differs by {:.2e}", what, n, d)


def check_workers(c, rec):
    try:
        want = coadd(build(c), align=False, inf_loss=c["loss"], n_procs=1)
    except ValueError as e:
        # only what a single image may refuse
        ensure("ource" in str(e) or "center" in str(e), "coadd raises {}", e)
        rec.label("refused")
        return
    rec.nontrivial(len(c["im"]) > 1)
    imgs = build(c)
    if c["warm"]:
        for i in imgs:
            i.s_component
    real = getattr(operations, "Parallel", None)
    for k in c["procs"]:
        what = "%d images, %d workers (%s)" % (len(imgs), k, c["how"])
        rec.label(c["how"], "more workers" if k > len(imgs) else "workers")
        old = sys.getswitchinterval()
        try:
            if c["how"] == "order" and real is not None:
                Workers.seed = c["order"] + k
                operations.Parallel = Workers
            elif c["how"] == "delays" and c["dup"]:
                sys.setswitchinterval(1e-5)
                rng = np.random.default_rng(c["order"] + k)
                for i in imgs:
                    slow(i, rng.uniform(0, 0.01))
            got = coadd(list(imgs), align=False, inf_loss=c["loss"], n_procs=k)
        finally:
            sys.setswitchinterval(old)
            if real is not None:
                operations.Parallel = real
        compare(got, want, what)
        if c["how"] == "delays":
            imgs = build(c)


def slow(img, t):
    """Make the image answer late."""
    cls = type(img)

    class Late(cls):
        def __getattribute__(self, name):
            if name in ("s_hat_comp", "psf_hat_sqnorm"):
                time.sleep(t)
            return super().__getattribute__(name)
    img.__class__ = Late


CHECKS = [Check("workers", cases(), check_workers, 240, 6000)]

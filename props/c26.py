"""C26: what plots draw, and where."""
import os
import shutil
import tempfile

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from astropy.stats import sigma_clipped_stats
from hypothesis import strategies as st
from matplotlib.colors import to_rgba

from properimage import plot as plots
from properimage.single_image import SingleImage, SingleImageGaussPSF
from vf.core import Check, ensure
from vf.fields import fields, render

RULE = ("PSF bases of 1 to 40 drawn components and real fields of drawn losses, plotted on no "
        "axes, exactly enough, too many or too few axes in several layouts, with drawn options; "
        "score and difference images; plot names. The artists of each axes are inspected. "
        "Non-trivial: more than one component or a drawn option.")
ASSUMPTIONS = ["panels follow the flattened order of the axes"]
BASE = {}


def base(cls=SingleImage):
    if cls not in BASE:
        f = {"h": 76, "w": 88, "seed": 3, "nseed": 4, "sig": 1.8, "sp": 18, "noise": 3.0,
             "bg": 100.0, "snr": [60, 300]}
        BASE[cls] = render(f)
    return cls(BASE[cls].copy())


def poly(k):
    rng = np.random.default_rng(k)
    a = rng.normal(0, 1, 4)
    return lambda x, y: a[0] + a[1] * x / 50 + a[2] * y / 50 + a[3] * x * y / 2000


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 14), st.integers(1, 40)))
    return {"n": n, "shape": draw(st.tuples(st.integers(3, 25), st.integers(3, 25))),
            "seed": draw(st.integers(0, 9999)),
            "axs": draw(st.sampled_from(["none", "none", "exact", "more", "grid", "few", "single",
                                         "column", "list"])),
            "iso": draw(st.booleans()), "coef": draw(st.booleans()),
            "kw": draw(st.fixed_dictionaries({}, optional={
                "cmap": st.sampled_from(["gray", "hot"]), "interpolation": st.sampled_from(
                    ["nearest", "bilinear"]), "vmin": st.just(-1.5), "vmax": st.just(2.5),
                "origin": st.sampled_from(["lower", "upper"])})),
            "cmap_kw": draw(st.sampled_from([None, {}, {"shrink": 0.5}, {
                "orientation": "horizontal"}])),
            "iso_kw": draw(st.sampled_from([None, {}, {"colors": "red"}, {"alpha": 0.9}, {
                "levels": 3, "colors": "blue"}])),
            "loss": draw(st.sampled_from([None, 0.1])),
            "how": draw(st.sampled_from(["call", "method"]))}


def axes_for(kind, n):
    """Axes as the caller gives them."""
    if kind == "none":
        plt.figure()
        return None
    k = {"exact": n, "more": n + 2, "few": n - 1, "column": n, "list": n, "single": 1}.get(kind, n)
    if kind == "grid":
        rows = int(np.ceil(n / 3))
        return plt.subplots(rows, 3, squeeze=False)[1]
    if kind == "column":
        return plt.subplots(k, 1, squeeze=False)[1]
    if kind == "single":
        return plt.subplots()[1]
    axs = plt.subplots(1, k, squeeze=False)[1][0]
    return list(axs) if kind == "list" else axs


def images(ax):
    return [np.asarray(np.ma.filled(i.get_array().astype(float), np.nan)) for i in ax.get_images()]


def panels(axs, want, what, kw, limits=None):
    """The k-th axes shows the k-th array, the rest nothing."""
    flat = np.ravel(axs)
    ensure(len(flat) >= len(want), "{}: {} axes for {} panels", what, len(flat), len(want))
    for k, ax in enumerate(flat):
        got = images(ax)
        if k >= len(want):
            ensure(not got and not ax.collections, "{}: something is drawn on axes {}", what, k)
            continue
        ensure(len(got) == 1, "{}: {} images on axes {}", what, len(got), k)
        ensure(got[0].shape == want[k].shape and np.allclose(
            got[0], want[k], rtol=1e-6, atol=1e-7 * np.abs(want[k]).max()),
               "{}: panel {} does not show component {}", what, k, k)
        im = ax.get_images()[0]
        ensure(str(k + 1) in ax.get_title(), "{}: panel {} is titled {}", what, k, ax.get_title())
        ensure(im.colorbar is not None, "{}: panel {} has no colour bar", what, k)
        if "cmap" in kw:
            ensure(im.get_cmap().name == kw["cmap"], "{}: the colour map is {}", what,
                   im.get_cmap().name)
        if "interpolation" in kw:
            ensure(im.get_interpolation() == kw["interpolation"], "{}: interpolation {}", what,
                   im.get_interpolation())
        if "origin" in kw:
            ensure(im.origin == kw["origin"], "{}: origin {}", what, im.origin)
        lo, hi = im.get_clim()
        if kw.get("vmin", limits[k]["vmin"] if limits else -9) >= kw.get(
                "vmax", limits[k]["vmax"] if limits else 9):
            continue
        for name, v in (("vmin", lo), ("vmax", hi)):
            w = kw.get(name, limits[k][name] if limits else None)
            if w is not None:
                ensure(abs(v - w) < 1e-6 * (1 + abs(w)), "{}: {} of panel {} is {} instead of {}",
                       what, name, k, v, w)


def check_basis(c, rec):
    n = c["n"]
    coef = c["coef"] and n > 1
    axs_kind = c["axs"]
    if n > 14 and axs_kind not in ("none", "grid"):
        axs_kind = "grid"
    if axs_kind == "few" and n < 2 or axs_kind == "single" and n == 1 and coef:
        axs_kind = "exact"
    rng = np.random.default_rng(c["seed"])
    si = base()
    comps = [rng.normal(0, 1, c["shape"]) for _ in range(n)]
    a = [None] if n == 1 else [poly(c["seed"] + k) for k in range(n)]
    asked = []

    def fake(inf_loss=None, shape=None):
        asked.append(inf_loss)
        return a, [p.copy() for p in comps]

    si.get_variable_psf = fake
    yx = np.mgrid[:c["shape"][0], :c["shape"][1]]
    si.get_afield_domain = lambda: (yx[0], yx[1])
    name = "autopsf_coef" if coef else "autopsf"
    axs = axes_for(axs_kind, n)
    kw = dict(c["kw"])
    if c["loss"] is not None:
        kw["inf_loss"] = c["loss"]
    for o in ("cmap_kw", "iso_kw"):
        if c[o] is not None and not (coef and o == "iso_kw"):
            kw[o] = dict(c[o])
    if c["iso"] and not coef:
        kw["iso"] = True
    if axs is not None:
        kw["axs"] = axs
    keep = {k: dict(v) for k, v in kw.items() if isinstance(v, dict)}
    what = "%s of %d components on %s axes" % (name, n, axs_kind)
    rec.nontrivial(n > 1 or bool(c["kw"]))
    rec.label(name, axs_kind)
    try:
        out = si.plot(name, **kw) if c["how"] == "call" else getattr(si.plot, name)(**kw)
    except ValueError as e:
        ensure(axs is not None and np.size(axs) < n, "{} raises {}", what, e)
        ensure(str(n) in str(e) and str(np.size(axs)) in str(e), "{}: the error {} does not tell "
               "the numbers of axes", what, e)
        return
    ensure(axs is None or np.size(axs) >= n, "{} accepts {} axes", what, np.size(axs))
    ensure({k: dict(v) for k, v in kw.items() if isinstance(v, dict)} == keep,
           "{} changes the caller's options", what)
    ensure(asked and asked[-1] == c["loss"], "{} asks for a loss of {}", what, asked)
    if axs is None:
        for ax in np.ravel(out):
            ensure(ax in plt.gcf().axes, "{} does not use the current figure", what)
        drawn = [ax for ax in plt.gcf().axes if ax.get_images() and ax.get_images()[0].colorbar]
        ensure(len(drawn) >= n, "{}: {} panels", what, len(drawn))
    else:
        ensure(np.size(out) == np.size(axs) and all(
            p is q for p, q in zip(np.ravel(out), np.ravel(axs))), "{} returns other axes", what)
    limits = None
    want = comps
    if coef:
        want = [f(*yx) for f in a]
        limits = []
        for w in want:
            _, med, sd = sigma_clipped_stats(w)
            limits.append({"vmin": med - 2 * sd, "vmax": med + 2 * sd})
    opts = dict(c["kw"])
    panels(out, want, what, opts, limits)
    for k, ax in enumerate(np.ravel(out)[:n]):
        if c["cmap_kw"] and "orientation" in c["cmap_kw"]:
            ensure(ax.get_images()[0].colorbar.orientation == "horizontal",
                   "{}: the colour bar options are ignored", what)
        cont = [q for q in ax.collections if isinstance(q, matplotlib.contour.ContourSet)]
        if coef:
            continue
        ensure(len(cont) == bool(kw.get("iso")), "{}: {} contour sets on panel {}", what,
               len(cont), k)
        for q in cont:
            pts = np.vstack([v.vertices for v in q.get_paths() if len(v.vertices)] or [[[0, 0]]])
            h, w = c["shape"]
            ensure(pts[:, 0].max() <= w - 1 + 1e-6 and pts[:, 1].max() <= h - 1 + 1e-6
                   and pts.min() >= -1e-6, "{}: contours outside the component", what)
            # contours run where the component takes their level
            for lv, path in zip(q.levels, q.get_paths()):
                for x, y in path.vertices[:6]:
                    y0, x0 = int(np.floor(y + 1e-9)), int(np.floor(x + 1e-9))
                    box = comps[k][y0:y0 + 2, x0:x0 + 2]
                    ensure(box.min() - 1e-6 <= lv <= box.max() + 1e-6,
                           "{}: a contour of panel {} is off its level", what, k)
            o = c["iso_kw"] or {}
            col = q.get_edgecolor()
            ensure(len(col) == 0 or np.allclose(col[0][:3], to_rgba(o.get("colors", "black"))[:3]),
                   "{}: contours are not {}", what, o.get("colors", "black"))
            ensure(q.get_alpha() == o.get("alpha", 0.5), "{}: contours have alpha {}", what,
                   q.get_alpha())


@st.composite
def real_cases(draw):
    return {"f": draw(fields(80, 110, sp=(15, 18), snr=(60, 400))),
            "var": draw(st.sampled_from([0.0, 0.6, 0.9])),
            "loss": draw(st.sampled_from([None, 0.01, 0.05, 0.2, 0.6])),
            "gauss": draw(st.sampled_from([False, False, True])),
            "plot": draw(st.sampled_from(["autopsf", "autopsf_coef", "imshow", None]))}


def check_real(c, rec):
    cls = SingleImageGaussPSF if c["gauss"] else SingleImage
    pix = render(c["f"], varpsf=c["var"])
    si = cls(pix.copy())
    fresh = cls(pix.copy())
    plt.figure()
    kw = {}
    if c["plot"] in ("autopsf", "autopsf_coef") and c["loss"] is not None:
        kw["inf_loss"] = c["loss"]
    a, basis = fresh.get_variable_psf(**kw)
    if c["gauss"]:
        basis = basis[:1]
    n = len(basis)
    rec.label(str(c["plot"]), "%d components" % min(n, 10))
    rec.nontrivial(n > 1)
    data = np.ma.filled(si.data.astype(float), np.nan).copy()
    what = "%s of a real image" % c["plot"]
    try:
        out = si.plot(c["plot"], **kw)
    except ValueError as e:
        ensure(c["plot"] == "autopsf_coef" and n == 1, "{} raises {}", what, e)
        return
    ensure(c["plot"] != "autopsf_coef" or n > 1, "coefficients of a constant PSF are plotted")
    if c["plot"] in ("imshow", None):
        got = images(out)
        ensure(len(got) == 1 and np.allclose(got[0], data, equal_nan=True),
               "{} does not show the data", what)
        ensure(out.get_images()[0].origin == "lower", "{} is upside down", what)
        ensure(str(si.data.shape[0]) in out.get_title() and str(si.data.shape[1]) in
               out.get_title(), "{} is titled {}", what, out.get_title())
    elif c["plot"] == "autopsf":
        # an eigenvector has no sign
        sign = [np.sign((np.asarray(images(ax)[0]) * b).sum()) if images(ax) else 1
                for ax, b in zip(np.ravel(out), basis)]
        panels(out, [s * b for s, b in zip(sign, basis)], what, {})
    else:
        x, y = fresh.get_afield_domain()
        mine = [f(x, y) for f in a]
        sign = [np.sign((images(ax)[0] * b).sum()) if images(ax) else 1
                for ax, b in zip(np.ravel(out), mine)]
        panels(out, [s * b for s, b in zip(sign, mine)], what, {})
    ensure(np.array_equal(np.ma.filled(si.data.astype(float), np.nan), data, equal_nan=True),
           "{} changes the data", what)
    if c["loss"] is None or c["plot"] in ("imshow", None):
        ensure(si.inf_loss == cls(pix).inf_loss, "{} changes the information loss", what)
    d = np.abs(si.interped - fresh.interped).max()
    ensure(d < 1e-9 * np.abs(fresh.interped).max(), "{} changes the cleaned image", what)
    ensure(len(si.get_variable_psf(**kw)[1]) == len(fresh.get_variable_psf(**kw)[1]),
           "{} changes the PSF", what)


def check_imshow(c, rec):
    si = base()
    fig, ax = plt.subplots()
    other = plt.figure().gca()
    kw = dict(c["kw"])
    how = c["how"]
    if how == "method":
        out = si.plot.imshow(ax=ax, **kw)
    elif how == "name":
        out = si.plot("imshow", ax=ax, **kw)
    else:
        out = si.plot(ax=ax, **kw)
    rec.nontrivial(bool(kw))
    ensure(out is ax and not other.get_images(), "the image is drawn on other axes")
    got = images(ax)
    ensure(len(got) == 1 and np.allclose(got[0], np.ma.filled(si.data.astype(float), np.nan),
                                         equal_nan=True), "the axes do not show the data")
    im = ax.get_images()[0]
    ensure(im.origin == kw.get("origin", "lower"), "origin {}", im.origin)
    if "cmap" in kw:
        ensure(im.get_cmap().name == kw["cmap"], "colour map {}", im.get_cmap().name)
    for n, v in zip(("vmin", "vmax"), im.get_clim()):
        ensure(n not in kw or v == kw[n], "{} is {}", n, v)


def check_names(c, rec):
    si = base()
    name = c["name"]
    known = name in ("imshow", "autopsf", "autopsf_coef")
    rec.nontrivial(not known)
    try:
        si.plot(name)
    except ValueError as e:
        ensure(not known or name == "autopsf_coef", "plot {} raises {}", name, e)
        if not known:
            ensure(name in str(e), "the error does not name the plot: {}", e)
        return
    ensure(known, "plot {!r} is accepted", name)


@st.composite
def score_cases(draw):
    return {"shape": draw(st.tuples(st.integers(8, 40), st.integers(8, 40))),
            "seed": draw(st.integers(0, 9999)), "R": draw(st.booleans()),
            "kind": draw(st.sampled_from(["real", "complex", "complex64", "masked", "corner"])),
            "path": draw(st.booleans()), "nbook": draw(st.booleans())}


def check_score(c, rec):
    rng = np.random.default_rng(c["seed"])
    a = rng.normal(20, 3, c["shape"])
    want = a.copy()
    if c["kind"].startswith("complex") and c["R"]:
        a = (a + 1j * rng.normal(0, 1, a.shape)).astype(
            "c8" if c["kind"] == "complex64" else "c16")
        want = a.real.copy()
    if c["kind"] in ("masked", "corner"):
        m = rng.random(a.shape) < 0.1
        m[0, 0] = c["kind"] == "corner"
        if c["R"] and c["seed"] % 2:
            a = a + 1j
        a = np.ma.MaskedArray(a, m, fill_value=30.0)
        want = np.where(m, 30.0, want)
    keep = np.ma.filled(a).copy()
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "plot.png") if c["path"] else None
        plt.close("all")
        seen = []
        real = plt.close

        def spy(*args):
            seen.append([images(ax) for ax in plt.gcf().axes] if plt.get_fignums() else [])
            return real(*args)

        plt.close = spy
        try:
            out = (plots.plot_R if c["R"] else plots.plot_S)(a, path=path, nbook=c["nbook"])
        finally:
            plt.close = real
        rec.nontrivial()
        rec.label("R" if c["R"] else "S", c["kind"])
        ensure(bool(plt.get_fignums()) == c["nbook"], "figures {} stay open", plt.get_fignums())
        ensure(out is not None, "no axes are returned")
        got = images(out)
        show = np.log10(want) if c["R"] else want
        good = ~np.ma.getmaskarray(a)
        ensure(len(got) == 1 and np.allclose(got[0][good], show[good], rtol=1e-5, equal_nan=True),
               "the plot does not show the image")
        if not c["R"]:
            _, med, sd = sigma_clipped_stats(want)
            lo, hi = out.get_images()[0].get_clim()
            ensure(abs(lo - med + 4 * sd) < 1e-6 and abs(hi - med - 4 * sd) < 1e-6,
                   "the limits are {}, {} instead of {} and {}", lo, hi, med - 4 * sd, med + 4 * sd)
        ensure(os.listdir(d) == (["plot.png"] if c["path"] else []), "files {}", os.listdir(d))
        ensure(not c["path"] or os.path.getsize(path) > 1000, "the plot stored is empty")
        ensure(np.array_equal(np.ma.filled(a), keep), "the image is modified")
    finally:
        shutil.rmtree(d)


def check_primes(c, rec):
    n = c["n"]
    p = plots.primes(n)
    fac = [q for q in range(2, n + 1) if n % q == 0 and all(q % r for r in range(2, q))]
    rec.nontrivial(n > 3)
    prime = len(fac) < 2 and n == (fac or [n])[0]
    ensure(p >= 1 and n % p == 0, "{} does not divide {}", p, n)
    if prime:
        ensure(p == n, "{} of the prime {}", p, n)
    elif len(fac) < 4:
        ensure(p == max(fac), "{} instead of the largest prime factor of {}", p, n)


# every number of components on no axes
GRIDS = [{"n": n, "shape": [5, 6], "seed": n, "axs": "none", "iso": False, "coef": k, "kw": {},
          "cmap_kw": None, "iso_kw": None, "loss": None, "how": "call"}
         for n in range(1, 25) for k in (False, True) if n > 1 or not k]
CHECKS = [Check("basis", cases(), check_basis, 260, 4000, examples=GRIDS),
          Check("real", real_cases(), check_real, 100, 1500),
          Check("imshow", st.fixed_dictionaries({
              "how": st.sampled_from(["method", "name", "default"]),
              "kw": st.fixed_dictionaries({}, optional={
                  "origin": st.sampled_from(["lower", "upper"]), "cmap": st.sampled_from(
                      ["gray", "hot"]), "vmin": st.just(90.0), "vmax": st.just(500.0)})}),
              check_imshow, 60, 600),
          Check("names", st.fixed_dictionaries({"name": st.one_of(
              st.sampled_from(["imshow", "autopsf", "autopsf_coef", "si", "DEFAULT_PLOT", "",
                               "_x", "__class__", "__call__", "__init__", "Imshow", "imshow "]),
              st.text(min_size=1, max_size=12))}), check_names, 100, 2000),
          Check("score", score_cases(), check_score, 200, 3000),
          Check("primes", st.fixed_dictionaries({"n": st.integers(1, 3000)}), check_primes, 400,
                5000)]

"""C10: products against those of a fresh image with the same settings."""
import numpy as np
from hypothesis import strategies as st

from properimage import utils
from properimage.operations import coadd, subtract
from properimage.single_image import SingleImage
from vf.core import Check, ensure
from vf.fields import fields, render, paint, patterns

RULE = ("Random histories of product requests, information-loss changes (attribute or argument), "
        "zero-point changes, source updates and operations with a second image; after each "
        "request the product is compared with the one of a new image with the same inputs and "
        "settings asked for nothing else. Non-trivial: a setting changes after a product was "
        "requested.")
ASSUMPTIONS = ["operations that match catalogues may re-order the sources, after which products "
               "listed per star are not compared (nor, for smoothed PSFs, those that depend on the "
               "sign of an eigenvector)",
               "information loss and zero point are read from the image's attributes"]

PER_STAR = ["kl_basis", "stamps_pos", "cov_matrix", "eigenvalues", "afields", "sources", "varpsf"]
ANY = ["background", "bkg_sub_img", "interped", "interped_hat", "s_component", "s_hat_comp",
       "normal_image", "psf_at", "mask", "data", "sqnorm", "p_sqnorm", "n_sources", "n_components",
       "var"]

SIGNED = ["s_component", "s_hat_comp", "normal_image", "psf_at"]


@st.composite
def cases(draw):
    loss = st.sampled_from([0.01, 0.03, 0.1, 0.2, 0.25, 0.6, 0.95])
    get = st.tuples(st.just("get"), st.sampled_from(
        PER_STAR + ANY + ["s_component", "s_hat_comp", "normal_image", "psf_at", "afields"] * 2))
    every = st.sampled_from(PER_STAR + ANY)
    # the same product before and after something else
    around = st.tuples(st.just("around"), every, st.one_of(
        st.tuples(st.just("loss"), loss), st.tuples(st.just("argloss"), loss),
        st.tuples(st.just("zp"), st.sampled_from([0.25, 2.0, 3.7])),
        st.tuples(st.just("get"), every)).map(list))
    op = st.one_of(
        get, get, get, around, around,
        st.tuples(st.just("loss"), loss),
        st.tuples(st.just("argloss"), loss),
        st.tuples(st.just("zp"), st.sampled_from([0.25, 0.5, 1.0, 2.0, 3.7])),
        st.tuples(st.just("update")),
        st.tuples(st.just("argshape"), st.sampled_from([13, 19, 24, 27])),
        st.tuples(st.just("other"), st.sampled_from(["transparency", "subtract", "subtract first",
                                                     "coadd", "coadd 2"]), loss),
    )
    return {"f": draw(fields(80, 115, sp=(15, 18), snr=(30, 400))),
            "var": draw(st.sampled_from([0.0, 0.5, 0.8, 0.8])),
            "mask": draw(st.one_of(st.none(), patterns(1, 1))),
            "gain": draw(st.sampled_from([None, 2.0])),
            "smooth": draw(st.sampled_from([False, False, True])),
            "strict": draw(st.booleans()),
            "shape": draw(st.sampled_from([None, None, None, 17, 22, 25])),
            "ops": [list(o) for o in draw(st.lists(op, min_size=4, max_size=9))]}


def product(si, name):
    if name == "psf_at":
        h, w = si.data.shape
        return si.get_psf_xy(h // 2 - 5, w // 2 + 3)
    if name == "varpsf":
        return np.array(si.get_variable_psf()[1])
    if name in ("sqnorm", "p_sqnorm"):
        return si.psf_hat_sqnorm() if name == "sqnorm" else si.p_sqnorm()
    if name == "n_components":
        return np.array([len(si.kl_basis), len(si.kl_afields)])
    if name == "eigenvalues":
        return si.eigenv[0]
    if name == "afields":
        a = si.kl_afields
        if a[0] is None:
            return np.zeros(1)
        x, y = si.get_afield_domain()
        return np.array([k(x[::9, ::9], y[::9, ::9]) for k in a])
    if name == "sources":
        s = si.best_sources
        return np.column_stack([s["x"], s["y"], s["flux"], s["npix"]])
    if name == "kl_basis":
        return np.array(si.kl_basis)
    if name in ("data", "bkg_sub_img"):
        v = getattr(si, name)
        return np.where(np.ma.getmaskarray(v), 0, v.data)
    v = np.asarray(getattr(si, name))
    return v.astype(int) if v.dtype == bool else v


def close(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    sc = np.abs(b).max() if b.size else 0
    return np.allclose(a, b, rtol=tol, atol=tol * sc, equal_nan=True)


def check_history(c, rec):
    f = c["f"]
    img = render(f, varpsf=c["var"])
    mask = paint(c["mask"], img.shape) if c["mask"] is not None else None
    if mask is not None and mask.mean() > 0.05:
        mask = None
    kw = dict(mask=mask, gain=c["gain"], smooth_psf=c["smooth"], strict_star_pick=c["strict"])
    si = SingleImage(img, **kw)
    if c["shape"]:
        # asked of a new image, the shape of the stamps is as if given to it
        si.get_variable_psf(shape=(c["shape"],) * 2)
        kw["stamp_shape"] = (c["shape"],) * 2
    matched, seen, changed = False, False, False
    other = None
    ops = []
    for op in c["ops"]:
        ops += [["get", op[1]], op[2], ["get", op[1]]] if op[0] == "around" else [op]
    for k, op in enumerate(ops):
        if op[0] == "loss":
            si.inf_loss = op[1]
            changed |= seen
        elif op[0] == "argloss":
            basis = si.get_variable_psf(inf_loss=op[1])
            changed |= seen
            ensure(abs(si.inf_loss - op[1]) < 1e-12, "a PSF for loss {} leaves the loss at {}",
                   op[1], si.inf_loss)
            fresh = SingleImage(img, **kw).get_variable_psf(inf_loss=op[1])
            ensure(len(basis[1]) == len(fresh[1]), "loss {} asked after {}: {} components instead "
                   "of {}", op[1], ops[:k], len(basis[1]), len(fresh[1]))
            ensure(len(basis[0]) == len(fresh[0]), "{} coefficient fields instead of {}",
                   len(basis[0]), len(fresh[0]))
        elif op[0] == "zp":
            si.zp = op[1]
            changed |= seen
        elif op[0] == "argshape":
            # with the PSF determined, a shape given later is ignored
            si.kl_basis
            n = np.shape(si.kl_basis)
            basis = si.get_variable_psf(shape=(op[1],) * 2)
            rec.label("later shape")
            ensure(np.shape(basis[1]) == n, "a PSF of shape {} was determined but {} is returned",
                   n, np.shape(basis[1]))
        elif op[0] == "update":
            si.update_sources()
        elif op[0] == "other":
            if other is None:
                other = SingleImage(render(f, scale=1.3, nseed=f["nseed"] + 1, varpsf=c["var"]))
            matched = True
            if op[1] == "transparency":
                utils.transparency([other, si])
            elif op[1].startswith("subtract"):
                pair = [si, other] if op[1].endswith("first") else [other, si]
                subtract(*pair, inf_loss=op[2], beta=False, shift=False, fitted_psf=False)
            else:
                coadd([other, si], align=False, inf_loss=op[2],
                      n_procs=2 if op[1].endswith("2") else 1)
            changed |= seen
        else:
            name = op[1]
            if matched and (name in PER_STAR or c["smooth"] and name in SIGNED):
                continue
            seen = True
            got = np.array(product(si, name))
            again = np.array(product(si, name))
            ensure(got.shape == again.shape and close(got, again, 1e-12),
                   "{} requested twice in a row differs", name)
            fresh = SingleImage(img, **kw)
            fresh.inf_loss = si.inf_loss
            fresh.zp = si.zp
            want = product(fresh, name)
            rec.label(name)
            ensure(np.shape(got) == np.shape(want), "{} after {}: shape {} instead of {}", name,
                   ops[:k], np.shape(got), np.shape(want))
            ensure(close(got, want, 1e-6 if matched else 1e-9), "{} after {} differs from the one "
                   "of a fresh image by {}", name, ops[:k],
                   np.nanmax(np.abs(np.asarray(got) - want)))
    rec.nontrivial(changed)


CHECKS = [Check("history", cases(), check_history, 480, 10000)]

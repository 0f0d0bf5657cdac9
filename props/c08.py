"""C08: truncation and contents of the Karhunen-Loeve PSF basis."""
import numpy as np
from hypothesis import strategies as st

from properimage.single_image import SingleImage
from vf.core import Check, ensure
from vf.fields import fields, render

RULE = ("Fields with constant, position-dependent or noisy PSF; a drawn list of information "
        "losses in [0, 1], set by attribute or argument. The number of components, their "
        "order, covariances, nesting and coefficient fields are compared with an independent "
        "calculation from the covariance matrix. Non-trivial: some loss gives two or more "
        "components.")
ASSUMPTIONS = ["covariances are checked up to 250 stars, as stated; losses that leave exactly "
               "the share within 1e-9 may round either way",
               "the sign of an eigenvector is taken from the image"]

losses = st.one_of(st.sampled_from([0.0, 1.0, 0.2, 0.25, 0.999]),
                   st.integers(1, 9999).map(lambda v: v / 10000.0),
                   st.integers(1, 999).map(lambda v: v / 1e5))


@st.composite
def cases(draw):
    return {"f": draw(fields(90, 170, sp=(15, 20), snr=(20, 400))),
            "var": draw(st.sampled_from([0.0, 0.4, 0.8])),
            "losses": draw(st.lists(losses, min_size=2, max_size=4)),
            "how": draw(st.sampled_from(["arg", "attr"])),
            "stamp": draw(st.sampled_from([None, None, [9, 9], [11, 15]])),
            "smooth": draw(st.sampled_from([False, False, False, True])),
            "min": draw(st.sampled_from([None, 5]))}


def terms(x, y):
    return np.column_stack([x ** i * y ** j for i in range(4) for j in range(4 - i)])


def share(values):
    p = np.abs(values)[::-1] / np.abs(values).sum()
    return 1.0 - np.cumsum(p)        # loss left by 1, 2, ... components


def check_basis(c, rec):
    f = c["f"]
    stamp = tuple(c["stamp"]) if c["stamp"] else None
    si = SingleImage(render(f, varpsf=c["var"]), stamp_shape=stamp, min_sources=c["min"],
                     smooth_psf=c["smooth"])
    cov = si.cov_matrix
    n = si.n_sources
    ensure(cov.shape == (n, n), "covariance of {} stars has shape {}", n, cov.shape)
    ensure(np.allclose(cov, cov.T), "covariance is not symmetric")
    val, vec = si.eigenv
    ref = np.linalg.eigvalsh(cov)
    sc = np.abs(ref).max()
    ensure(np.allclose(val, ref, atol=1e-9 * sc), "eigenvalues differ from those of the covariance")
    ensure(np.allclose(cov @ vec, vec * val, atol=1e-8 * sc), "vectors are not eigenvectors")
    left = share(ref)
    shape = None
    got = []
    for L in c["losses"]:
        if c["how"] == "arg":
            a, basis = si.get_variable_psf(inf_loss=L)
        else:
            si.inf_loss = L
            basis, a = si.kl_basis, si.kl_afields
        k = len(basis)
        lo = next((i + 1 for i, r in enumerate(left) if r <= L + 1e-9), n)
        hi = next((i + 1 for i, r in enumerate(left) if r <= L - 1e-9), n)
        ensure(lo <= k <= hi, "loss {}: {} components, but {} leave a loss of {}", L, k, lo,
               left[lo - 1])
        ensure(len(a) == k, "loss {}: {} components with {} coefficient fields", L, k, len(a))
        for b in basis:
            shape = shape or b.shape
            ensure(b.shape == shape and np.isfinite(b).all(), "component of shape {}", b.shape)
        ensure(tuple(si.stamp_shape) == shape, "components of shape {} for stamps of {}", shape,
               si.stamp_shape)
        got.append((L, [np.array(b) for b in basis]))
        if k == 1:
            ensure(a[0] is None, "a constant PSF has a coefficient field")
            ensure(abs(basis[0].sum() - 1) < 1e-9, "a single component sums to {}", basis[0].sum())
            continue
        rec.nontrivial()
        rec.label("several components")
        if c["smooth"]:
            for b in basis:
                ensure(abs(b.sum() - 1) < 1e-9, "smoothed component sums to {}", b.sum())
        elif n <= 250:
            m = np.cov(np.array([b.ravel() for b in basis]))
            ensure(np.allclose(np.diag(m), ref[::-1][:k], rtol=1e-6, atol=1e-9 * sc),
                   "loss {}: variances {} are not the leading eigenvalues {}", L, np.diag(m)[:4],
                   ref[::-1][:4])
            ensure(np.abs(m - np.diag(np.diag(m))).max() < 1e-7 * sc,
                   "loss {}: components are correlated", L)
        if n >= 14:
            p = np.array(si.stamps_pos, float)
            probe = np.random.default_rng(1).uniform([10, 10], [f["h"] - 10, f["w"] - 10], (20, 2))
            A, B = terms(p[:, 0], p[:, 1]), terms(probe[:, 0], probe[:, 1])
            sol, _, rank, sv = np.linalg.lstsq(A / np.abs(A).max(0), vec[:, ::-1][:, :k],
                                               rcond=None)
            if rank == A.shape[1] and sv[-1] > 1e-3 * sv[0] / 1e2:
                want = (B / np.abs(A).max(0)) @ sol
                for i in range(k):
                    z = a[i](probe[:, 0], probe[:, 1])
                    ensure(np.allclose(z, want[:, i], atol=1e-4 * np.abs(want[:, i]).max() + 1e-6),
                           "loss {}: coefficient field {} is not the fit to the stars: {} "
                           "instead of {}", L, i, z[:3], want[:3, i])
                    rec.label("fitted fields")
    for i, (L1, b1) in enumerate(got):
        for L2, b2 in got[:i]:
            small, big = sorted((b1, b2), key=len)
            ensure(len(b1) <= len(b2) or L1 <= L2 + 1e-9, "loss {} needs {} components, loss {} {}",
                   L1, len(b1), L2, len(b2))
            if len(small) > 1 or len(big) == 1:
                for k, b in enumerate(small):
                    ensure(np.allclose(b, big[k], atol=1e-9 * np.abs(b).max()),
                           "component {} differs between losses {} and {}", k, L1, L2)
            else:
                u, v = small[0].ravel(), big[0].ravel()
                v = v / v.sum()
                ensure(np.allclose(u, v, atol=1e-6 * np.abs(u).max()), "the single component is "
                       "not the leading one, normalised")


def check_many(c, rec):
    """More than 250 stars: components of unit sum."""
    f = c["f"]
    si = SingleImage(render(f, varpsf=0.5), stamp_shape=(7, 7))
    n = si.n_sources
    rec.label("%d stars" % n)
    rec.nontrivial(n > 250)
    cov = si.cov_matrix
    ensure(cov.shape == (n, n) and np.allclose(cov, cov.T), "covariance of {} stars: not symmetric", n)
    val = np.linalg.eigvalsh(cov)
    ensure(np.diag(cov).min() > 0 and val[0] > -1e-9 * val[-1], "covariance of {} stars: variances "
           "from {}, eigenvalues from {} to {}", n, np.diag(cov).min(), val[0], val[-1])
    left = share(val)
    for L in c["losses"]:
        a, basis = si.get_variable_psf(inf_loss=L)
        k = len(basis)
        lo = next((i + 1 for i, r in enumerate(left) if r <= L + 1e-9), n)
        hi = next((i + 1 for i, r in enumerate(left) if r <= L - 1e-9), n)
        ensure(lo <= k <= hi, "{} components for loss {}", k, L)
        ensure(len(a) == k, "{} fields for {} components", len(a), k)
        for b in basis:
            ensure(n <= 250 or abs(b.sum() - 1) < 1e-9, "component sums to {}", b.sum())
        if k == 1:
            pk = np.unravel_index(basis[0].argmax(), basis[0].shape)
            ensure(max(abs(np.array(pk) - (np.array(basis[0].shape) - 1) / 2)) <= 1.5,
                   "PSF peak at {} of {}", pk, basis[0].shape)


many = st.fixed_dictionaries({
    "f": fields(285, 300, sig=(1.2, 1.4), sp=(12, 12), noise=(1, 2), snr=(60, 300)),
    "losses": st.lists(st.sampled_from([0.2, 0.05, 0.6]), min_size=1, max_size=2, unique=True)})
CHECKS = [Check("basis", cases(), check_basis, 560, 10000),
          Check("many", many, check_many, 16, 80)]

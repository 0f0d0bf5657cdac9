"""Synthetic star fields and their Hypothesis strategies.

A field is a small JSON dict; all noise comes from numpy generators seeded by
integers of that dict, so a case fully determines the pixels.
"""
import numpy as np
from hypothesis import strategies as st


def fields(min_side=72, max_side=130, sig=(1.3, 2.4), sp=(17, 24),
           noise=(1.0, 8.0), bg=(0.0, 400.0), snr=(40, 400)):
    """Strategy of star fields: jittered grid of Gaussian stars."""
    def r(lo, hi, nd=2):
        k = 10 ** nd
        return st.integers(int(lo * k), int(hi * k)).map(lambda v: v / k)
    # sep's background is wrong by tenths of the sky for sides of 64 k + 1
    side = st.integers(min_side, max_side).map(lambda v: v + 1 if v % 64 == 1 else v)
    return st.fixed_dictionaries({
        "h": side,
        "w": side,
        "seed": st.integers(0, 10**6),
        "nseed": st.integers(0, 10**6),
        "sig": r(*sig), "sp": st.integers(*sp),
        "noise": r(*noise), "bg": r(*bg, 0),
        "snr": st.just(list(snr)),
    })


def positions(f, margin=None):
    """Star positions (row, column) and peak fluxes relative to the noise."""
    rng = np.random.default_rng(f["seed"])
    margin = f.get("margin", 11) if margin is None else margin
    sp, h, w = f["sp"], f["h"], f["w"]
    out = []
    lo, hi = f["snr"]
    ys = np.arange(margin, h - margin, sp)
    xs = np.arange(margin, w - margin, sp)
    # centre the grid
    oy = ((h - margin) - 1 - ys[-1]) / 2.0 if len(ys) else 0
    ox = ((w - margin) - 1 - xs[-1]) / 2.0 if len(xs) else 0
    for y in ys:
        for x in xs:
            dy, dx, u = rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform()
            out.append((y + oy + dy, x + ox + dx, lo * (hi / lo) ** u))
    return np.array(out).reshape(-1, 3)


def add_star(img, y, x, flux, sy, sx=None):
    """Add a Gaussian star of total flux in place."""
    sx = sy if sx is None else sx
    r = int(np.ceil(6 * max(sy, sx))) + 1
    y0, y1 = max(0, int(y) - r), min(img.shape[0], int(y) + r + 1)
    x0, x1 = max(0, int(x) - r), min(img.shape[1], int(x) + r + 1)
    if y0 >= y1 or x0 >= x1:
        return
    yy = np.arange(y0, y1)[:, None]
    xx = np.arange(x0, x1)[None, :]
    img[y0:y1, x0:x1] += flux / (2 * np.pi * sy * sx) * np.exp(
        -0.5 * (((yy - y) / sy) ** 2 + ((xx - x) / sx) ** 2))


def fluxes(f, pos):
    """Total flux of each star: peak S/N times noise times PSF area."""
    return pos[:, 2] * f["noise"] * 2 * np.pi * f["sig"] ** 2


def render(f, scale=1.0, dbg=0.0, nseed=None, sig=None, sigx=None, noise=None,
           extra=(), varpsf=0.0, skip=(), offset=(0.0, 0.0)):
    """Pixels of the field.

    scale: transparency; dbg: extra sky; extra: (y, x, flux) transients;
    varpsf: relative growth of the width along the rows.
    """
    pos = positions(f)
    fl = fluxes(f, pos)
    img = np.zeros((f["h"], f["w"]))
    s = f["sig"] if sig is None else sig
    for k, ((y, x, _), flux) in enumerate(zip(pos, fl)):
        if k in skip:
            continue
        g = 1.0 + varpsf * (y / f["h"] - 0.5)
        g2 = 1.0 - varpsf * (x / f["w"] - 0.5)
        add_star(img, y + offset[0], x + offset[1], scale * flux,
                 s * g, (s if sigx is None else sigx) * g2)
    for y, x, flux in extra:
        add_star(img, y, x, scale * flux, s, s if sigx is None else sigx)
    rng = np.random.default_rng(f["nseed"] if nseed is None else nseed)
    nz = f["noise"] if noise is None else noise
    return img + f["bg"] + dbg + rng.normal(0, nz, img.shape)


# ----------------------------------------------------------------- bad pixels
def patterns(max_items=4, min_items=0):
    """Strategy of bad-pixel patterns in relative coordinates."""
    u = st.integers(0, 1000).map(lambda v: v / 1000.0)
    item = st.one_of(
        st.fixed_dictionaries({"k": st.just("pix"), "y": u, "x": u}),
        st.fixed_dictionaries({"k": st.just("box"), "y": u, "x": u,
                               "a": st.integers(1, 9), "b": st.integers(1, 9)}),
        st.fixed_dictionaries({"k": st.just("row"), "y": u}),
        st.fixed_dictionaries({"k": st.just("col"), "x": u}),
        st.fixed_dictionaries({"k": st.just("corner"), "c": st.integers(0, 3),
                               "a": st.integers(1, 6)}),
        st.fixed_dictionaries({"k": st.just("edge"), "c": st.integers(0, 3),
                               "y": u, "a": st.integers(1, 6)}),
        st.fixed_dictionaries({"k": st.just("scatter"), "s": st.integers(0, 9999),
                               "n": st.integers(1, 25)}),
    )
    return st.lists(item, min_size=min_items, max_size=max_items)


def paint(pattern, shape):
    """Boolean map of a pattern."""
    m = np.zeros(shape, bool)
    h, w = shape
    for it in pattern:
        k = it["k"]
        y = int(it.get("y", 0) * (h - 1))
        x = int(it.get("x", 0) * (w - 1))
        if k == "pix":
            m[y, x] = True
        elif k == "box":
            m[y:y + it["a"], x:x + it["b"]] = True
        elif k == "row":
            m[y, :] = True
        elif k == "col":
            m[:, x] = True
        elif k == "corner":
            a = it["a"]
            sl = [(slice(0, a), slice(0, a)), (slice(0, a), slice(w - a, w)),
                  (slice(h - a, h), slice(0, a)), (slice(h - a, h), slice(w - a, w))]
            m[sl[it["c"]]] = True
        elif k == "edge":
            a = it["a"]
            c = it["c"]
            if c == 0:
                m[0, int(it["y"] * (w - 1)):][:a] = True
            elif c == 1:
                m[h - 1, int(it["y"] * (w - 1)):][:a] = True
            elif c == 2:
                m[y:y + a, 0] = True
            else:
                m[y:y + a, w - 1] = True
        elif k == "scatter":
            rng = np.random.default_rng(it["s"])
            m[rng.integers(0, h, it["n"]), rng.integers(0, w, it["n"])] = True
    return m


def grow(base, passes=7):
    """Reference mask growth: at least three bad in the 3x3, edges mirrored."""
    m = base.astype(bool).copy()
    if not m.any():
        return m
    for _ in range(passes):
        p = np.pad(m, 1, mode="symmetric").astype(int)
        h, w = m.shape
        c = sum(p[i:i + h, j:j + w] for i in range(3) for j in range(3))
        m = m | (c >= 3)
    return m


def value_bad(science):
    """Pixels whose science value makes them bad."""
    with np.errstate(invalid="ignore"):
        return ~np.isfinite(science) | (science > 65000.0) | (science < -50.0)


def science(pixels, gain):
    """Reference science data: single precision pixels times the gain."""
    return pixels.astype(np.float32).astype(np.float64) * gain


def robust_std(a):
    """Noise level from the median absolute deviation."""
    a = np.asarray(a).ravel()
    return 1.4826 * np.median(np.abs(a - np.median(a)))


# ------------------------------------------------------------- moved pointings
def scatter(seed, h, w, n, dmin=14.0, margin=14.0):
    """Random positions (row, column) at least dmin apart."""
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(3000):
        p = rng.uniform([margin, margin], [h - margin, w - margin])
        if all(np.hypot(*(p - q)) > dmin for q in out):
            out.append(p)
        if len(out) == n:
            break
    return np.array(out)


def moved(pos, shape, angle, t):
    """Positions rotated around the centre of the frame, then shifted."""
    c = (np.array(shape) - 1) / 2.0
    r = np.array([[np.cos(angle), -np.sin(angle)], [np.sin(angle), np.cos(angle)]])
    return (np.asarray(pos) - c) @ r.T + c + np.array(t)


def stars(pos, flux, shape, sig, noise, nseed, bg):
    """Frame with Gaussian stars at the positions."""
    img = np.zeros(shape)
    for (y, x), f in zip(pos, flux):
        add_star(img, y, x, f, sig)
    return img + bg + np.random.default_rng(nseed).normal(0, noise, shape)

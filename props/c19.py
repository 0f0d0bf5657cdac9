"""C19: catalogue matching against brute force."""
import numpy as np
from astropy.table import Table
from hypothesis import strategies as st

from properimage import utils
from props.c18 import image
from vf.core import Check, ensure

RULE = ("Point sets of 0 to 60 points in 1 to 5 dimensions: random, on grids (exact ties and "
        "duplicates), clustered, far from the origin; star catalogues with jitter, duplicates "
        "and shuffles; drawn radii. Compared with exhaustive distance matrices. Non-trivial: "
        "some pair within and some point without a match.")
ASSUMPTIONS = ["a distance within 1e-9 of the radius may count either way",
               "between exactly equidistant neighbours either may be returned"]


@st.composite
def clouds(draw, dims=(1, 5), nmax=60):
    return {"n1": draw(st.integers(1, nmax)), "n2": draw(st.integers(0, nmax)),
            "d": draw(st.integers(*dims)),
            "kind": draw(st.sampled_from(["uniform", "grid", "jitter", "clusters", "line"])),
            "seed": draw(st.integers(0, 10**6)),
            "off": draw(st.sampled_from([0.0, 0.0, -300.0, 1e5])),
            "size": draw(st.sampled_from([1.0, 20.0, 3000.0])),
            "r": draw(st.sampled_from([None, 1e-6, 0.01, 0.05, 0.2, 1.0, 10.0])),
            "form": draw(st.sampled_from(["array", "list", "float32", "int", "fortran"]))}


def cloud(c):
    rng = np.random.default_rng(c["seed"])
    n1, n2, d, s = c["n1"], c["n2"], c["d"], c["size"]
    if c["kind"] == "grid":
        a = rng.integers(0, 5, (n1, d)) * s / 5
        b = rng.integers(0, 5, (n2, d)) * s / 5
    elif c["kind"] == "jitter":
        a = rng.uniform(0, s, (n1, d))
        b = (a[rng.integers(0, n1, n2)] if n2 else np.zeros((0, d))) + rng.normal(
            0, 0.02 * s, (n2, d))
    elif c["kind"] == "clusters":
        k = rng.uniform(0, s, (4, d))
        a = k[rng.integers(0, 4, n1)] + rng.normal(0, 0.01 * s, (n1, d))
        b = k[rng.integers(0, 4, n2)] + rng.normal(0, 0.01 * s, (n2, d))
    elif c["kind"] == "line":
        a = np.zeros((n1, d))
        b = np.zeros((n2, d))
        a[:, 0] = rng.uniform(0, s, n1)
        b[:, 0] = rng.uniform(0, s, n2)
    else:
        a = rng.uniform(0, s, (n1, d))
        b = rng.uniform(0, s, (n2, d))
    a, b = a + c["off"], b + c["off"]
    f = c["form"]
    if f == "float32":
        a, b = a.astype(np.float32), b.astype(np.float32)
    elif f == "int":
        a, b = np.rint(a).astype(int), np.rint(b).astype(int)
    elif f == "fortran":
        a, b = np.asfortranarray(a), np.asfortranarray(b)
    elif f == "list" and n2:
        a, b = a.tolist(), b.tolist()
    return a, b


def distances(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.sqrt(((a[:, None, :] - b[None, :, :]) ** 2).sum(-1))


def check_cross(c, rec):
    a, b = cloud(c)
    keep = np.array(a, copy=True), np.array(b, copy=True)
    r = np.inf if c["r"] is None else c["r"] * c["size"]
    kw = {} if c["r"] is None and c["seed"] % 2 else {"max_distance": r}
    dist, ind = utils.crossmatch(a, b, **kw)
    ensure(np.array_equal(keep[0], a) and np.array_equal(keep[1], np.array(b).reshape(keep[1].shape)),
           "crossmatch modifies its inputs")
    n1, n2 = len(a), len(b)
    ensure(np.shape(dist) == (n1,) and np.shape(ind) == (n1,), "{} and {} values for {} points",
           np.shape(dist), np.shape(ind), n1)
    D = distances(a, np.asarray(b, float).reshape(n2, c["d"]))
    tol = 1e-9 * (c["size"] + abs(c["off"]))
    hits = 0
    for i in range(n1):
        best = D[i].min() if n2 else np.inf
        if dist[i] == np.inf:
            ensure(ind[i] == n2, "an unmatched point has index {} instead of {}", ind[i], n2)
            ensure(best >= r - tol, "point {} has a neighbour at {} < {} but is unmatched", i, best, r)
        else:
            hits += 1
            ensure(0 <= ind[i] < n2, "index {} of {} points", ind[i], n2)
            ensure(abs(dist[i] - D[i, ind[i]]) <= tol, "distance {} of a point at {}", dist[i],
                   D[i, ind[i]])
            ensure(dist[i] <= best + tol, "matched at {} with a neighbour at {}", dist[i], best)
            ensure(dist[i] <= r + tol, "matched at {} beyond the radius {}", dist[i], r)
    rec.nontrivial(0 < hits < n1 or (hits == n1 and n2 > 1))
    rec.label("some" if 0 < hits < n1 else "all" if hits else "none", c["kind"])


def check_dims(c, rec):
    rng = np.random.default_rng(c["seed"])
    rec.nontrivial()
    try:
        utils.crossmatch(rng.uniform(size=(c["n1"], c["d1"])), rng.uniform(size=(c["n2"], c["d2"])))
    except ValueError:
        return
    ensure(False, "points of {} and {} dimensions are matched", c["d1"], c["d2"])


@st.composite
def star_cases(draw):
    c = draw(clouds(dims=(2, 2), nmax=40))
    c["n2"] = max(1, c["n2"])
    c["form"] = "array"
    c["off"] = draw(st.sampled_from([0.0, 50.0, 2000.0]))
    c["radius"] = draw(st.sampled_from([None, 0.3, 1.5, 2.0, 5.0, 100.0]))
    c["ids"] = draw(st.sampled_from(["none", "arange", "random", "shuffled"]))
    c["size"] = draw(st.sampled_from([5.0, 20.0, 60.0, 400.0]))
    c["masked"] = draw(st.booleans())
    return c


def verdict(ids, master_ids, a, b, r):
    """The matching rule, with either choice between exact ties."""
    D = distances(a, b)
    tol = 1e-9 * (1 + np.abs(a).max() + np.abs(b).max())
    where = {int(k): n for n, k in enumerate(master_ids)}
    seen = set()
    for i, k in enumerate(ids):
        k = int(k)
        if k in where:
            m = where[k]
            ensure(k not in seen, "master star {} is matched twice", k)
            seen.add(k)
            ensure(D[m, i] <= r + tol, "star {} matched at {} beyond {}", i, D[m, i], r)
            ensure(D[m, i] <= D[m].min() + tol and D[m, i] <= D[:, i].min() + tol,
                   "star {} and master {} at {} are not mutual nearest neighbours ({}, {})", i, m,
                   D[m, i], D[m].min(), D[:, i].min())
        else:
            ensure(k < 0, "unmatched star {} has identifier {}", i, k)
    # strict mutual nearest neighbours must be matched
    must = 0
    for m in range(len(a)):
        i = int(D[m].argmin())
        d = D[m, i]
        if d < r - tol and int(D[:, i].argmin()) == m and (np.sum(D[m] <= d + tol) == 1) and (
                np.sum(D[:, i] <= d + tol) == 1):
            must += 1
            ensure(int(ids[i]) == int(master_ids[m]), "star {} at {} from master {} has identifier "
                   "{} instead of {}", i, d, m, ids[i], master_ids[m])
    return must


def check_matching(c, rec):
    fn = getattr(utils, "_matching", None)
    if fn is None:
        rec.label("gone")
        return
    a, b = cloud(c)
    rng = np.random.default_rng(c["seed"] + 1)
    n1 = len(a)
    master = Table({"x": a[:, 0], "y": a[:, 1], "flux": np.ones(n1)})
    cat = Table({"x": b[:, 0], "y": b[:, 1], "flux": np.ones(len(b))})
    ids = {"none": np.arange(n1), "arange": np.arange(n1), "shuffled": rng.permutation(n1),
           "random": rng.choice(10**6, n1, replace=False) + 1}[c["ids"]]
    kw = {}
    if c["ids"] != "none":
        master["num"] = ids
        kw["masteridskey"] = "num"
    if c["seed"] % 2 and c["ids"] != "none":
        master, cat = master.as_array(), cat.as_array()
    r = 1.5
    if c["radius"] is not None:
        r = kw["radius"] = c["radius"]
    out = fn(master, cat, masked=c["masked"], **kw)
    if c["masked"]:
        out, matched = out
        ensure(np.array_equal(matched, np.isin(out, ids)), "the stars marked as matched are not "
               "those with the identifier of a master star")
    ensure(len(out) == len(b), "{} identifiers for {} stars", len(out), len(b))
    must = verdict(out, ids, a, b, r)
    rec.nontrivial(0 < must)
    rec.label("%d0 %%" % (10 * must // len(b)), c["kind"])


def check_catalogues(c, rec):
    """The same rule through the identifiers transparency leaves in catalogues."""
    a, b = cloud(c)
    rng = np.random.default_rng(c["seed"] + 1)
    fa, fb = rng.uniform(1, 1e5, len(a)), rng.uniform(1, 1e5, len(b))
    m, i = image(np.column_stack([a, fa])), image(np.column_stack([b, fb]))
    utils.transparency([m, i])
    cat, mc = i.best_sources, m.best_sources
    if "sourceid" not in (cat.dtype.names or ()) or len(cat) != len(b):
        ensure(len(cat) == len(b), "the catalogue went from {} to {} stars", len(b), len(cat))
        rec.label("no ids")
        return
    if "sourceid" in mc.dtype.names:
        ids = mc["sourceid"]
        a = np.column_stack([mc["x"], mc["y"]])
    else:
        ids = np.arange(len(a))
    must = verdict(cat["sourceid"], ids, a, np.column_stack([cat["x"], cat["y"]]), 2.0)
    rec.nontrivial(must > 0)


CHECKS = [Check("cross", clouds(), check_cross, 3000, 80000),
          Check("matching", star_cases(), check_matching, 2000, 50000),
          Check("catalogues", star_cases(), check_catalogues, 400, 10000),
          Check("dims", st.fixed_dictionaries(
              {"n1": st.integers(1, 20), "n2": st.integers(1, 20), "d1": st.integers(1, 5),
               "d2": st.integers(1, 5), "seed": st.integers(0, 999)}).filter(
                   lambda c: c["d1"] != c["d2"]), check_dims, 100, 1000)]

"""C27: scratch data of images: apart while in use, removed on closing."""
import gc
import os
import pickle
import sys
import tempfile
import threading

import numpy as np
from hypothesis import strategies as st

from properimage.operations import coadd, subtract
from properimage.single_image import SingleImage, SingleImageGaussPSF
from vf.core import Check, Violation, ensure
from vf.fields import render

RULE = ("Drawn histories of opening images, several of one array among them, requesting products in any order, entering and leaving "
        "contexts normally or by exceptions, closing twice, dropping, coadding and subtracting, with "
        "up to five images at a time; concurrent threads; forked processes; interrupts at drawn "
        "points and storage faults followed by new requests. Scratch files are followed by listing the temporary "
        "directory around every operation. Non-trivial: at least two images alive in one history, "
        "or an interrupt that arrived inside a request.")
ASSUMPTIONS = ["a closed image may fail when asked for products it had not computed",
               "images dropped without closing may leave files behind"]

FIELDS = [dict(h=60 + 6 * k, w=82 - 5 * k, seed=k, nseed=50 + k, sig=1.4 + 0.15 * k, sp=17 + k % 3,
               noise=2.0 + k, bg=50.0 * k, snr=[60, 300]) for k in range(5)]
STAMPS = [None, 13, 23]
NOSTARS = 5  # field without stars
IMAGES = st.sampled_from([0, 1, 2, 3, 4, 10, 21, 13])
ALONE = {}
PIX = {}


def pixels(k):
    """The array of a field: the same object for every image made from it."""
    k %= 10
    if k not in PIX:
        if k == NOSTARS:
            PIX[k] = np.random.default_rng(1).normal(100, 3, (64, 64))
        else:
            PIX[k] = render(FIELDS[k])
    return PIX[k]


def make(k, gauss=False):
    """Image of field k % 10, with stamps of its own size or of one chosen by k // 10."""
    stamp = STAMPS[k // 10] if k != NOSTARS else 15
    kw = {"stamp_shape": (stamp, stamp)} if stamp else {}
    return (SingleImageGaussPSF if gauss else SingleImage)(pixels(k), **kw)


GET = {
    "interped": lambda s: s.interped,
    "n": lambda s: float(s.n_sources),
    "kl": lambda s: np.abs(np.array(s.kl_basis)),
    "sc": lambda s: s.s_component,
    "psf": lambda s: np.abs(np.array(s.get_variable_psf(inf_loss=0.2)[1][0])),
    "sq": lambda s: np.abs(s.psf_hat_sqnorm()),
    "cov": lambda s: s.cov_matrix,
    "pos": lambda s: np.array(s.stamps_pos),
}


def alone(k, gauss, what):
    """Product of an image that lives alone."""
    key = (k, gauss, what)
    if key not in ALONE:
        s = make(k, gauss)
        try:
            ALONE[key] = np.asarray(np.ma.filled(GET[what](s), 0), float).copy()
        finally:
            s._clean()
    return ALONE[key]


def request(s, k, gauss, what, note=""):
    try:
        got = np.asarray(np.ma.filled(GET[what](s), 0), float)
    except (ValueError, RuntimeError) as e:
        ensure(k == NOSTARS, "{} of field {} raises {} {}", what, k, e, note)
        return False
    ensure(k != NOSTARS or what == "interped", "{} of a field without stars", what)
    agree(got, alone(k, gauss, what), what, k, note)
    return True


def agree(got, want, what, k, note):
    ensure(got.shape == want.shape, "{} of field {} has shape {}, alone {} {}", what, k,
           got.shape, want.shape, note)
    d = np.abs(got - want).max() / (np.abs(want).max() + 1e-30)
    ensure(d < 1e-6, "{} of field {} differs from that of the image alone by {:.2e} {}", what, k,
           d, note)


def scan():
    """Scratch files with size and time of change."""
    out = {}
    for d, _, names in os.walk(tempfile.gettempdir()):
        for n in names:
            p = os.path.join(d, n)
            try:
                t = os.stat(p)
            except FileNotFoundError:
                continue
            out[p] = (t.st_size, t.st_mtime_ns, t.st_ino)
    return out


class Boom(Exception):
    """Error of the caller."""


class Stop(BaseException):
    """Something like an interrupt."""


ERRORS = {"boom": Boom, "value": ValueError, "kbd": KeyboardInterrupt, "stop": Stop,
          "os": OSError, "file": FileNotFoundError, "key": KeyError, "index": IndexError,
          "attr": AttributeError, "exit": SystemExit, "gen": GeneratorExit, "iter": StopIteration,
          "memory": MemoryError, "type": TypeError, "zero": ZeroDivisionError}


class World:
    """Images alive, and who wrote which scratch file."""

    def __init__(self, rec):
        self.rec = rec
        self.im = []      # dicts
        self.owner = {}   # path -> set of image numbers; empty set: nobody's
        self.base = set(scan())

    def step(self, who, fn):
        """Run an operation on some images and account for scratch changes."""
        before = scan()
        try:
            return fn()
        finally:
            after = scan()
            for p in set(before) | set(after):
                if p in self.base or before.get(p) == after.get(p):
                    continue
                own = self.owner.get(p, set())
                # files that nobody owns any more may be taken over
                ensure(p not in before or not own or own & set(who),
                       "an operation on images {} {} the scratch file of {}", sorted(who),
                       "changes" if p in after else "removes", sorted(own))
                if p in after:
                    if p not in before or not own:
                        self.owner[p] = set(who)
                else:
                    self.owner.pop(p, None)

    def files(self, i):
        return [p for p, o in self.owner.items() if o == {i} and os.path.exists(p)]

    def closed(self, i):
        left = self.files(i)
        ensure(not left, "closing image {} leaves {}", i, [os.path.basename(p) for p in left])

    def open(self, k, gauss):
        i = len(self.im)
        s = self.step({i}, lambda: make(k, gauss))
        self.im.append({"s": s, "k": k, "gauss": gauss, "state": "open", "ctx": 0})
        return i

    def leave(self, i, how):
        """Leave the context of an image."""
        d = self.im[i]
        s = d["s"]

        def go():
            if how == "clean":
                s._clean()
            elif how == "exit":
                with s as t:
                    ensure(t is s, "the context gives another object")
            else:
                err = ERRORS[how]("x")
                try:
                    with s:
                        raise err
                except BaseException as e:  # noqa
                    if e is not err:
                        raise
                else:
                    ensure(False, "leaving the context swallows {}", how)
        self.step({i}, go)
        d["state"] = "closed"
        self.closed(i)


@st.composite
def histories(draw):
    nops = draw(st.integers(3, 22))
    ops = []
    for _ in range(nops):
        kind = draw(st.sampled_from(["open", "open", "req", "req", "req", "req", "leave", "drop",
                                     "coadd", "subtract", "reuse"]))
        a, b = draw(st.integers(0, 7)), draw(st.integers(0, 7))
        op = {"op": kind, "a": a, "b": b}
        if kind == "open":
            op["k"] = draw(st.sampled_from([0, 0, 0, 10, 20, 1, 1, 21, 2, 3, 14, NOSTARS]))
            op["gauss"] = draw(st.sampled_from([False, False, False, True]))
        elif kind in ("req", "reuse"):
            op["what"] = draw(st.sampled_from(sorted(GET)))
        elif kind == "leave":
            op["how"] = draw(st.sampled_from(["exit", "exit", "clean"] + sorted(ERRORS)))
        elif kind in ("coadd", "subtract"):
            op["align"] = draw(st.booleans())
            op["raw"] = draw(st.sampled_from(["", "", "first", "second", "both"]))
            op["fitted"] = draw(st.booleans())
            op["beta"] = draw(st.booleans())
        ops.append(op)
    return {"ops": ops}


def check_history(c, rec):
    w = World(rec)
    w.open(0, False)
    for op in c["ops"]:
        alive = [i for i, d in enumerate(w.im) if d["state"] == "open"]
        rec.nontrivial(len(alive) > 1)
        k = op["op"]
        if k == "open":
            if len(alive) < 5:
                w.open(op["k"], op["gauss"])
            continue
        if k == "reuse":
            gone = [i for i, d in enumerate(w.im) if d["state"] == "closed"]
            if gone:
                i = gone[op["a"] % len(gone)]
                d = w.im[i]
                rec.label("after closing")

                def late():
                    try:
                        request(d["s"], d["k"], d["gauss"], op["what"], "after closing")
                    except (OSError, LookupError, AttributeError):
                        rec.label("refused after closing")
                w.step({i}, late)
                d["s"]._clean()
                w.closed(i)
            continue
        if not alive:
            continue
        i = alive[op["a"] % len(alive)]
        d = w.im[i]
        if k == "req":
            w.step({i}, lambda: request(d["s"], d["k"], d["gauss"], op["what"]))
        elif k == "leave":
            rec.label("leave " + op["how"])
            w.leave(i, op["how"])
            if op["b"] % 2:
                w.step({i}, d["s"]._clean)
        elif k == "drop":
            for p, o in w.owner.items():
                if i in o:  # maybe its own: nobody closes it any more
                    w.owner[p] = set()
            d["state"] = "dropped"
            w.step({i}, lambda: d.pop("s", None) and gc.collect())
        else:
            # a partner of the same sky
            same = [x for x in alive if x != i and w.im[x]["k"] % 10 == d["k"] % 10
                    and not w.im[x]["gauss"]]
            if not same or d["k"] == NOSTARS or d["gauss"]:
                continue
            j = same[op["b"] % len(same)]
            e = w.im[j]
            rec.label(k)

            a = pixels(d["k"]) if op["raw"] in ("first", "both") else d["s"]
            b = pixels(e["k"]) if op["raw"] in ("second", "both") else e["s"]
            had = set(scan())

            def both():
                if k == "coadd":
                    return coadd([a, b], align=op["align"], inf_loss=0.2)[0]
                return subtract(ref=a, new=b, align=op["align"], beta=op["beta"], iterative=False,
                                shift=False, inf_loss=0.2, fitted_psf=op["fitted"])[0]
            out = w.step({x for x, y in ((i, a), (j, b)) if y is w.im[x]["s"]}, both)
            ensure(out.shape == pixels(d["k"]).shape, "shape {}", out.shape)
            # as many images as were given may now have scratch
            extra = len(set(scan()) - had)
            ensure(op["raw"] != "both" or not extra, "{} of arrays leaves {} files", k, extra)
    for i, d in enumerate(w.im):
        if d["state"] == "open":
            w.step({i}, lambda: request(d["s"], d["k"], d["gauss"], "kl", "at the end"))
    for i, d in enumerate(w.im):
        if d["state"] == "open":
            w.leave(i, "exit")
    for p in list(w.owner):
        if os.path.exists(p) and not w.owner[p]:
            os.remove(p)
    left = [p for p in w.owner if os.path.exists(p)]
    ensure(not left, "after closing everything {} remain", [os.path.basename(p) for p in left])


@st.composite
def thread_cases(draw):
    return {"im": draw(st.lists(st.tuples(IMAGES, st.booleans(), st.permutations(
        ["kl", "sc", "n", "interped", "sq"])), min_size=2, max_size=5)),
        "dt": draw(st.sampled_from([1e-6, 1e-5, 1e-3]))}


def check_threads(c, rec):
    rec.nontrivial()
    for k, g, order in c["im"]:
        for o in order:
            alone(k, g, o)
    before = set(scan())
    errs = []
    go = threading.Barrier(len(c["im"]))

    def work(k, g, order):
        try:
            go.wait()
            with make(k, g) as s:
                for o in order:
                    request(s, k, g, o, "in a thread")
        except BaseException as e:  # noqa
            errs.append(e)

    dt = sys.getswitchinterval()
    sys.setswitchinterval(c["dt"])
    try:
        ts = [threading.Thread(target=work, args=a, daemon=True) for a in c["im"]]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(dt)
    if errs:
        raise errs[0]
    left = set(scan()) - before
    ensure(not left, "threads leave {}", [os.path.basename(p) for p in left])


@st.composite
def fork_cases(draw):
    return {"im": draw(st.lists(st.tuples(IMAGES, st.sampled_from(["kl", "sq", "psf"])),
                                min_size=2, max_size=4)),
            "pre": draw(st.integers(0, 2))}


def check_fork(c, rec):
    """Images made by forked processes at the same time."""
    rec.nontrivial()
    for k, o in c["im"]:
        alone(k, False, o)
    keep = [make(k, False) for k in range(c["pre"])]
    before = set(scan())
    r0, w0 = os.pipe()
    kids = []
    gc.collect()
    for k, o in c["im"]:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                import signal
                signal.alarm(60)
                os.close(w0)
                os.read(r0, 1)  # all start together
                with make(k, False) as s:
                    try:
                        got = np.asarray(GET[o](s), float)
                    except Exception as e:
                        got = "%s: %s" % (type(e).__name__, e)
                with os.fdopen(w, "wb") as fh:
                    pickle.dump(got, fh)
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, r, k, o))
    os.close(w0)
    os.close(r0)
    res = []
    for pid, r, k, o in kids:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        res.append((k, o, data))
    for k, o, data in res:
        ensure(data, "a forked process gives no result")
        got = pickle.loads(data)
        ensure(not isinstance(got, str), "{} in a forked process raises {}", o, got)
        agree(got, alone(k, False, o), o, k, "in a forked process")
    left = set(scan()) - before
    ensure(not left, "forked processes leave {}", [os.path.basename(p) for p in left])
    del keep


@st.composite
def interrupts(draw):
    return {"k": draw(IMAGES), "first": draw(st.sampled_from(["kl", "sc", "n", "pos", "sq",
                                                                         "psf", "cov"])),
            "at": draw(st.integers(0, 1000)), "gauss": draw(st.sampled_from([False, False, True])),
            "then": draw(st.permutations(["kl", "n", "sc", "interped", "pos"])),
            "other": draw(IMAGES)}


COUNT = {}


def lines(fn, stop=None):
    """Run fn, counting its lines inside properimage; interrupt at one of them."""
    import properimage
    root = os.path.dirname(properimage.__file__)
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if stop is not None and n[0] == stop:
                sys.settrace(None)
                raise Stop("interrupt")
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(root):
            return local
        return None

    sys.settrace(tracer)
    try:
        fn()
    finally:
        sys.settrace(None)
    return n[0]


def check_interrupt(c, rec):
    """A request is interrupted at some line and made again."""
    k, g = c["k"], c["gauss"]
    key = (k, g, c["first"])
    if key not in COUNT:
        s = make(k, g)
        COUNT[key] = lines(lambda: GET[c["first"]](s))
        s._clean()
    w = World(rec)
    i, j = w.open(k, g), w.open(c["other"], False)
    s = w.im[i]["s"]
    w.step({j}, lambda: request(w.im[j]["s"], c["other"], False, "n"))
    u = c["at"] / 1000.0
    at = max(1, int(COUNT[key] * u))

    def go():
        try:
            lines(lambda: GET[c["first"]](s), at)
        except Stop:
            rec.nontrivial()
            rec.label("interrupted " + c["first"])
    w.step({i}, go)
    # an interrupt may come between two assignments: values are only asked for, not compared
    for o in c["then"][:2]:
        try:
            w.step({i}, lambda: GET[o](s))
        except Violation:
            raise
        except Exception:
            rec.label("fails after interrupt")
    w.step({j}, lambda: request(w.im[j]["s"], c["other"], False, "kl"))
    w.leave(j, "exit")
    w.leave(i, "exit")


@st.composite
def faults(draw):
    return {"k": draw(IMAGES), "gauss": draw(st.sampled_from([False, False, True])),
            "first": draw(st.sampled_from(["kl", "sc", "n", "pos", "sq", "psf", "cov"])),
            "where": draw(st.sampled_from(["dump", "dump", "load", "init"])),
            "at": draw(st.integers(0, 40)), "partial": draw(st.booleans()),
            "again": draw(st.integers(0, 2)),
            "then": draw(st.permutations(["kl", "n", "sc", "interped", "pos"]))}


def check_fault(c, rec):
    """Storage fails (disk full, file gone) during a request that is then repeated."""
    import tinynpydb
    k, g = c["k"], c["gauss"]
    for o in c["then"]:
        alone(k, g, o)
    w = World(rec)
    i = w.open(k, g)
    s = w.im[i]["s"]
    cls = tinynpydb.NumPyDB
    orig = {"dump": cls.dump, "load": cls.load, "init": cls.__init__}
    where = c["where"]
    n, hit = [0], [0]

    def broken(self, *a, **kw):
        n[0] += 1
        if n[0] > c["at"] % (3 if where == "init" else 41):
            n[0] = 0
            hit[0] += 1
            if c["partial"] and where == "dump":
                with open(self.dn, "ab") as fh:  # part of the data reached the disk
                    fh.write(b"broken")
            raise OSError(28, "No space left on device")
        return orig[where](self, *a, **kw)

    def go():
        for _ in range(1 + c["again"]):
            setattr(cls, "__init__" if where == "init" else where, broken)
            try:
                GET[c["first"]](s)
            except OSError:
                rec.nontrivial()
                rec.label("fault in " + where)
            finally:
                setattr(cls, "__init__" if where == "init" else where, orig[where])
    w.step({i}, go)
    for o in c["then"]:
        w.step({i}, lambda: request(s, k, g, o, "after a request that ran out of disk"))
    w.leave(i, "exit")


def check_leave(c, rec):
    """One context of one image, left in one way."""
    w = World(rec)
    rec.nontrivial(c["how"] in ERRORS)
    rec.label(c["how"])
    i = w.open(c["k"], c["gauss"])
    o = w.open(c["k"], c["gauss"])      # a neighbour with the same pixels
    s, t = w.im[i]["s"], w.im[o]["s"]
    for what in c["req"]:
        w.step({i}, lambda: request(s, c["k"], c["gauss"], what))
    if c["both"]:
        w.step({o}, lambda: request(t, c["k"], c["gauss"], "pos"))
    for _ in range(c["times"]):
        w.leave(i, c["how"])
    w.step({o}, lambda: request(t, c["k"], c["gauss"], "cov", "after another image was closed"))
    w.leave(o, "exit")


HOWS = ["exit", "clean"] + sorted(ERRORS)
leaves = st.fixed_dictionaries({
    "k": st.sampled_from([0, 1, 2]), "gauss": st.booleans(), "how": st.sampled_from(HOWS),
    "req": st.lists(st.sampled_from(sorted(GET)), max_size=3), "both": st.booleans(),
    "times": st.integers(1, 3)})
LEAVE = [{"k": 0, "gauss": False, "how": h, "req": r, "both": True, "times": 2}
         for h in HOWS for r in ([], ["cov"])]

CHECKS = [
    Check("leave", leaves, check_leave, 120, 3000, examples=LEAVE),
    Check("history", histories(), check_history, 160, 4000),
    Check("threads", thread_cases(), check_threads, 40, 800),
    Check("fork", fork_cases(), check_fork, 24, 400),
    Check("interrupt", interrupts(), check_interrupt, 120, 4000),
    Check("fault", faults(), check_fault, 120, 4000),
]

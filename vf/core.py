"""Checks, violations and the per-case recorder."""
import hashlib
import json


class Violation(AssertionError):
    """The property does not hold for this case."""


class Recorder:
    """What one case reports besides pass/fail."""

    def __init__(self):
        self.nt = False
        self.labels = []

    def nontrivial(self, flag=True):
        if flag:
            self.nt = True

    def label(self, *names):
        self.labels.extend(str(n) for n in names)


class Check:
    """One generated check of a property.

    strategy: Hypothesis strategy drawing JSON-able cases
    fn(case, rec): raises Violation when the property fails
    quick/thorough: number of generated cases per tier, over all workers
    examples: cases always run, before the generated ones
    """

    def __init__(self, name, strategy, fn, quick, thorough=None, examples=(),
                 hang=120, solo=False):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.examples = list(examples)
        self.hang = hang


def ensure(cond, msg, *args):
    """Raise a Violation unless cond holds."""
    if not bool(cond):
        raise Violation(msg.format(*args) if args else msg)


def case_hash(check, case):
    return hashlib.sha1(
        (check + json.dumps(case, sort_keys=True)).encode()).hexdigest()[:16]

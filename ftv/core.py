"""Basic vocabulary shared by the runner and the property modules."""
import os
import sys

HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if HYP not in sys.path:
    sys.path.append(HYP)      # hypothesis lives here; /opt/venv's own packages win

REPO = os.environ.get("FTV_REPO", "/repo")


class Violation(Exception):
    """The property does not hold on this case."""


class CaseTimeout(BaseException):
    """The case used more CPU time than any legal case can need."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def check_eq(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {got!r}, want {want!r}")


class Ctx:
    """Collects what a case exercised."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


class Sub:
    """One generated check of a property.

    strategy: () -> hypothesis strategy producing a Python literal
    run:      (case, ctx) -> None, raises Violation
    quick/thorough: number of generated cases
    exhaustive: optional (tier) -> iterable of cases, enumerated completely
    """

    def __init__(self, name, run, strategy=None, quick=400, thorough=None,
                 exhaustive=None, rule=""):
        self.name = name
        self.run = run
        self.strategy = strategy
        self.quick = quick
        self.thorough = quick * 25 if thorough is None else thorough
        self.exhaustive = exhaustive
        self.rule = rule

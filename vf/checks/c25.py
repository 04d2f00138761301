"""C25: histories of the numpy mesh fitters against a model of the descent and its exact gradient."""
from .. import fitters
from ..core import Check, Sub


def prop(case, ctx):
    fitters.history(case, ctx, "numpy")


def prop_long(case, ctx):
    fitters.long_history(case, ctx, "numpy")


def prop_checked(case, ctx):
    fitters.checked_step(case, ctx)


CHECK = Check(
    "C25",
    "histories of steps, resets, changes of image, pose and background of the three numpy fitters, with any option; each step against the model; resets against new fitters; steps with a verification of the gradients against steps without; non trivial: a judged step moves the parameters",
    [Sub("history", fitters.cases, prop, 2400, 20000), Sub("long", fitters.long_cases, prop_long, 200, 1500), Sub("verified", fitters.check_cases, prop_checked, 400, 4000)],
)

"""C18: representatives of the finite degree 1 bars."""
import c17
from gr import replay
ASSUMPTIONS = c17.ASSUMPTIONS[:1] + ["which cycle represents a bar is free: any cycle of right birth and death is accepted, bars matched one to one"]


def check(ctx):
    c17.check(ctx, "reps", ("reps", "rep", "repsend"))

"""C04: adaptors."""
import orc
from orc import replay
ASSUMPTIONS = ["an attached basis lists distinct columns of the matrix; an attached filtration is defined on every row"]
W = dict(trivial=3, filt=5, discard=2, basis=4, split=6, ref=3, ptr=3, index=4, sub=6, subindex=5, cache=1, cons=1, rev=1,
         revsub=1, prod=1, eq=1)


def check(ctx):
    orc.check(ctx, W, ("trivial", "filt", "discard", "basis", "split", "ref", "ptr", "index", "sub", "subindex"),
              ctx.size(4000, 40000))

"""C06: reversal."""
import orc
from orc import replay
ASSUMPTIONS = ["Reverse of an index or filtration type is modelled by negation"]
W = dict(rev=5, unrev=4, revunrev=5, revrev=3, revsub=4, unrevsub=4, subrev=4, revindex=3, split=6, filt=4, basis=3, sub=1,
         bobs=4, ref=1, trivial=1, prod=1, sum=1, cache=1, cons=1)


def check(ctx):
    orc.check(ctx, W, ("rev", "unrev", "revunrev", "revrev", "revsub", "unrevsub", "subrev", "revindex", "bobs"),
              ctx.size(4000, 40000))

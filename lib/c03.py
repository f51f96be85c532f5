"""C03: products, sums, consolidation."""
import orc
from orc import replay
ASSUMPTIONS = ["rows of the right factor are columns of the left factor; summands have the same columns"]
W = dict(prod=6, sum=5, cons=5, prodcons=4, prodprod=3, sumprod=3, eq=6, filt=2, basis=1, split=1, cache=1, rev=1, ptr=1,
         ref=1, index=1, trivial=1)


def check(ctx):
    orc.check(ctx, W, ("prod", "sum", "cons", "prodcons", "prodprod", "sumprod", "eq"), ctx.size(4000, 40000))

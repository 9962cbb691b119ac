from .c01 import go
from .common import case


@case("C03", n=300)
def histories(ctx):
    go(ctx, "C03")

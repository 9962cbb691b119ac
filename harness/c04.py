from .c01 import go
from .common import case


@case("C04", n=300)
def histories(ctx):
    go(ctx, "C04")

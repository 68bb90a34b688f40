"""L02: loops, breaks, returns, choices, slices (Axis.tla)"""
import axiscommon as ax
LEVEL = "model_checking"


def run(ctx):
    n = 120 if ctx.quick else 800
    ss = [ax.session(ctx.rng, 3, 25, True, 5) for _ in range(n)]
    ss += ax.grid()
    ax.validate(ctx, ss, "axis session differs from the specification")

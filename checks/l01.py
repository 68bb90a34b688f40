"""L01: value semantics and order of assignments (Axis.tla)"""
import axiscommon as ax
LEVEL = "model_checking"


def run(ctx):
    n = 120 if ctx.quick else 800
    ss = [ax.session(ctx.rng, 3, 25, False, 5) for _ in range(n)]
    ax.validate(ctx, ss, "axis session differs from the specification")

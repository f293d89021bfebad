"""n:m associations stay consistent under any history of operations."""
from . import M01


def run(ctx):
    ctx.rule = M01.RULE
    ctx.assumptions = ['pure in-memory model; single-threaded', 'assigned lists hold no repeated member']
    M01.run_kinds(ctx, ('n:m',), ctx.size(60, 200), ctx.size(30, 60), ctx.size(1, 8))
    from . import _findings
    _findings.shadowed(ctx, ('n:m',))

LEVEL = "model_checking"
ASSUMPTIONS = ["frame rates and durations small enough that scaling them does not overflow 64 bits", "a clip of differing frame rate counts as mismatched for Interleave and not for Splice"]
TECHNIQUE = "TLA+ definitions of the frame-picking filters (as constructions and as frame-number formulas), proved equal by TLC over a small scope; random filter chains on the real core validated against them"
NOTE = "model: every argument for clips of up to 4 frames, chains of 1 (quick) or 2 (thorough) filters; code: random chains up to 12 deep over sources of up to 2^31-1 frames with constant and variable formats, requested in random order from 1 to 4 threads"
def run(ctx):
    ctx.build(("core", "filters"))
    d = ctx.driver("reorder_driver")
    q = ctx.quick
    jobs = [lambda: ctx.model("ReorderMC", "ReorderMC.cfg" if q else "ReorderMCt.cfg", workers=4)]
    for i in range(14 if q else 150):
        jobs.append(lambda i=i: ctx.trace_job("ReorderTrace", [d, ctx.seed * 1000 + i, 900 if q else 2500], f"reorder{i}"))
    ctx.parallel(jobs)

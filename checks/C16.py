LEVEL = "model_checking"
ASSUMPTIONS = [
    "one process with no other use of the core while a trace is recorded; FrameEval's schedules are explored on the model",
    "values of float statistics are compared exactly only where single additions cannot round",
]
TECHNIQUE = ("TLA+ specification of the property filters and of FrameEval and ModifyFrame, checked with TLC (all interleavings of FrameEval's activations, "
             "with broken variants that must fail), and traces of random calls of the real filters validated against it by TLC")
NOTE = "every property of every frame the property filters return, every call of a user function and every error is computed again by the specification"


def run(ctx):
    ctx.build(("core", "filters"))
    d = ctx.driver("propfilter_driver")
    q = ctx.quick
    jobs = [lambda: ctx.model("PropFiltersMC", "PropFiltersMC.cfg" if q else "PropFiltersMCt.cfg", workers=4),
            lambda: ctx.model("FrameEvalMC", "FrameEvalMC.cfg", workers=2),
            lambda: ctx.model("FrameEvalMC", "FrameEvalMCbad1.cfg", workers=1, expect_fail="Invariant OneCall is violated"),
            lambda: ctx.model("FrameEvalMC", "FrameEvalMCbad2.cfg", workers=1, expect_fail="Invariant Right is violated")]
    for i in range(28 if q else 250):
        jobs.append(lambda i=i: ctx.trace_job("PropFiltersTrace", [d, ctx.seed * 1000 + i, 800 if q else 2000], f"prop{i}"))
    ctx.parallel(jobs)

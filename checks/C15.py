LEVEL = "model_checking"
ASSUMPTIONS = [
    "integer and 32 bit float formats of the sizes a trace of small frames holds; areas up to 2^31 only through the argument checks",
    "where the documentation and the code disagree about which variable clips ShufflePlanes takes, neither answer is asked for",
]
TECHNIQUE = ("TLA+ specification of the geometry and plane filters as functions from frames and arguments to frames, "
             "checked with TLC against laws (crop undoes borders, flips and transposes are involutions, split and shuffle are inverse, weave undoes separation) "
             "on all small frames, and traces of random calls of the real filters, planes included, validated against it by TLC")
NOTE = "every sample, property, format and error of random chains of geometry filters is computed again by the specification"


def run(ctx):
    ctx.build(("core", "filters"))
    d = ctx.driver("geo_driver")
    q = ctx.quick
    jobs = [lambda: ctx.model("GeometryMC", "GeometryMC.cfg" if q else "GeometryMCt.cfg", workers=4)]
    for i in range(42 if q else 400):
        jobs.append(lambda i=i: ctx.trace_job("GeometryTrace", [d, ctx.seed * 1000 + i, 400 if q else 1000], f"geo{i}"))
    ctx.parallel(jobs)

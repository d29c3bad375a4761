LEVEL = "model_checking"
ASSUMPTIONS = ["format ids of the old API (below 0x01000000) and the undefined family with other parameters are left unspecified", "names of audio formats are required to be documented, not unique"]
TECHNIQUE = "TLA+ definition of the valid formats, ids and names, its laws checked exhaustively by TLC; every answer of the real query and name functions validated against it"
NOTE = "exhaustive over all families, sample types, bit depths -1..40 and subsamplings -1..6 on the model; on the code: the full grid in the thorough tier, a coarser grid plus random ids and formats in the quick tier"
def run(ctx):
    ctx.build(("core", "filters"))
    d = ctx.driver("format_driver")
    q = ctx.quick
    jobs = [lambda: ctx.model("FormatsMC", "FormatsMC.cfg", workers=2)]
    for i in range(4 if q else 24):
        jobs.append(lambda i=i: ctx.trace_job("FormatsTrace", [d, ctx.seed * 100 + i, 1 if (i == 0 or not q) else 0, 400 if q else 4000], f"fmt{i}"))
    ctx.parallel(jobs)

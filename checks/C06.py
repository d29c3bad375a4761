LEVEL = "model_checking"
ASSUMPTIONS = ["maps in the error state are neither copied from nor into, and their _Error key is not overwritten (undefined use)",
               "the _ColorRange alias is exercised for integer access only"]
def run(ctx):
    ctx.build(("core",))
    d = ctx.driver("map_driver")
    jobs = [lambda: ctx.model("VSMapMC", "VSMapMC.cfg", workers=2)]
    n, ops, sess = (7, 400, 16) if ctx.quick else (40, 600, 40)
    for i in range(n):
        jobs.append(lambda i=i: ctx.trace_job("VSMapTrace", [d, ctx.seed * 1000 + i, sess, ops, "rand"], f"rand{i}"))
    parts = 3 if ctx.quick else 1
    for i in range(1 if ctx.quick else parts):
        jobs.append(lambda i=i: ctx.trace_job("VSMapTrace", [d, ctx.seed + i, parts, 0, "sys"], f"sys{i}"))
    ctx.parallel(jobs)
TECHNIQUE = "TLA+ map model (VSMap.tla) model-checked by TLC; traces of real map API histories validated call by call against it"
NOTE = "exhaustive on the small model; on the code: random and systematic operation histories, every result and full map dumps compared; undefined uses excluded"

LEVEL = "model_checking"
ASSUMPTIONS = ["library filters, without graph inspection, need only keep alive the arguments listed in the driver's table; the others may be let go of earlier",
               "frames and maps have no free callback: their lifetime is seen through the frame memory in use and through what they hold"]
TECHNIQUE = "TLA+ model of reference counting checked by TLC against reachability; logs of random object graphs (filters, functions, maps, frames, handlers, library filters) built and torn down on the real core validated against the reachability model"
NOTE = "exhaustive for 3-4 objects, two threads; on the code: random graphs of up to 30 objects, handles dropped from several threads, chains of 100000 filters, the core freed at any point"
def run(ctx):
    ctx.build(("core", "filters"))
    d = ctx.driver("refs_driver"); s = ctx.driver("sched_driver")
    q = ctx.quick
    jobs = [lambda: ctx.model("RefsMC", "RefsMC.cfg" if q else "RefsMCt.cfg", workers=4),
            lambda: ctx.model("RefsMC", "RefsMCbad.cfg", workers=1, expect_fail="Refcounts is violated"),
            lambda: ctx.trace_job("RefsTrace", [d, ctx.seed, 1, 150000 if q else 400000, "long"], "long")]
    for i in range(14 if q else 150):
        m = ("core", "std")[i % 2]
        jobs.append(lambda i=i, m=m: ctx.trace_job("RefsTrace", [d, ctx.seed * 1000 + i, 10, 250, m], f"{m}{i}", confirm=False))
    prof = ["mix", "cache", "err", "mem", "small", "deep"]
    for i in range(6 if q else 60):
        p = prof[i % len(prof)]
        jobs.append(lambda i=i, p=p: ctx.trace_job("SchedTrace", [s, ctx.seed * 1000 + 800 + i, 20, p], f"s{p}{i}", env={"FOCUS": "C08"}, confirm=False, tlc_timeout=400))
    ctx.parallel(jobs)

LEVEL = "model_checking"
ASSUMPTIONS = ["for filters of the library only the creating functions are prescribed; their name, mode and dependencies must stay what they first were"]
TECHNIQUE = "TLA+ model of node creation inside nested calls, checked by TLC; traces of nested plugin functions on several threads, with every inspection result, validated against it"
NOTE = "exhaustive on the small model; on the code: random nestings of calls on caller and worker threads, with and without inspection, nodes queried while others are made and freed"
def run(ctx):
    ctx.build(("core", "filters"))
    ctx.plugin("plug")
    d = ctx.driver("graph_driver")
    q = ctx.quick
    jobs = [lambda: ctx.model("GraphMC", "GraphMC.cfg", workers=2), lambda: ctx.model("GraphMC", "GraphMCbad.cfg", workers=1, expect_fail="OwnCalls is violated")]
    for i in range(16 if q else 200):
        jobs.append(lambda i=i: ctx.trace_job("GraphTrace", [d, ctx.seed * 1000 + i, 20, 300], f"g{i}", confirm=False))
    ctx.parallel(jobs)

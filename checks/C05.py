LEVEL = "model_checking"
ASSUMPTIONS = ["automatically sized caches may drop frames at any time except between two consecutive identical requests",
               "memory limit not reached (the scheduler checks cover caches under memory pressure)"]
def run(ctx):
    ctx.build(("core",))
    d = ctx.driver("cache_driver")
    jobs = [lambda: ctx.model("CacheMC", "CacheMCq.cfg" if ctx.quick else "CacheMC.cfg", workers=4)]
    n, ops, sess = (16, 150, 60) if ctx.quick else (160, 200, 100)
    for i in range(n):
        jobs.append(lambda i=i: ctx.trace_job("CacheTrace", [d, ctx.seed * 1000 + i, sess, ops], f"c{i}"))
    ctx.parallel(jobs)
TECHNIQUE = "TLA+ model of a node cache checked by TLC against the declarative recency rule; logs of requests and filter runs on real graphs validated against it"
NOTE = "exhaustive for 3 frames; on the code: random trees of filters, all cache modes and options, consumers added and removed, sequential requests"

LEVEL = "model_checking"
ASSUMPTIONS = ["handlers do not add or remove handlers (forbidden by the API)", "when exactly 500 messages were kept the warning may or may not follow"]
TECHNIQUE = "TLA+ model of the log (handlers, kept messages) checked by TLC under concurrency; sequential and concurrent traces of the real log API validated against it"
NOTE = "exhaustive on the small model; on the code: random histories on several cores including more than 500 kept messages and nested logging, concurrent logging with handlers coming and going, fatal messages"
def run(ctx):
    ctx.build(("core", "filters"))
    d = ctx.driver("log_driver")
    q = ctx.quick
    jobs = [lambda: ctx.model("LogMC", "LogMC.cfg", workers=2), lambda: ctx.model("LogMC", "LogMCbad.cfg", workers=1, expect_fail="Stretch is violated"),
            lambda: ctx.trace_job("LogTrace", [d, ctx.seed, 12, 0, "fatal"], "fatal")]
    for i in range(6 if q else 60):
        jobs.append(lambda i=i: ctx.trace_job("LogTrace", [d, ctx.seed * 1000 + i, 25, 200, "seq"], f"seq{i}"))
    for i in range(16 if q else 200):
        jobs.append(lambda i=i: ctx.trace_job("LogTrace", [d, ctx.seed * 1000 + 500 + i, 30, 40 + 15 * (i % 4), "par"], f"par{i}", confirm=False))
    ctx.parallel(jobs)

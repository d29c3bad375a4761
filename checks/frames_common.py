"""Frame checks: one driver, one trace specification, a focus per property."""
def run(ctx, pid, modes, sched):
    ctx.build(("core",))
    d = ctx.driver("frame_driver")
    jobs = [lambda: ctx.model("FramesMC", "FramesMC.cfg" if ctx.quick else "FramesMCt.cfg", workers=4),
            lambda: ctx.model("FramesMC", "FramesMCbad1.cfg", workers=1, expect_fail="Independent is violated"),
            lambda: ctx.model("FramesMC", "FramesMCbad2.cfg", workers=1, expect_fail="Accounting is violated")]
    n, sess, ops = (16, 12, 300) if ctx.quick else (160, 25, 400)
    for i in range(n):
        m = modes[i % len(modes)]
        jobs.append(lambda i=i, m=m: ctx.trace_job("FramesTrace", [d, ctx.seed * 1000 + i, sess, ops, m], f"{m}{i}", env={"FOCUS": pid}, confirm="conc" not in m))
    if sched:
        s = ctx.driver("sched_driver")
        prof = ["mix", "cache", "err", "mem", "small", "deep"]
        for i in range(6 if ctx.quick else 60):
            p = prof[i % len(prof)]
            jobs.append(lambda i=i, p=p: ctx.trace_job("SchedTrace", [s, ctx.seed * 1000 + 500 + i, 20, p], f"s{p}{i}", env={"FOCUS": pid}, confirm=False, tlc_timeout=400))
    ctx.parallel(jobs)

"""Scheduler checks: one driver, one trace specification, a focus per property."""
PROFILES = {
    "C01": ["mix", "deep", "mem", "flush", "small", "cache", "err", "mem"],
    "C02": ["fs", "small", "fs", "mix", "deep", "fs", "mem", "small"],
    "C03": ["mix", "small", "cache", "deep", "fs", "err", "mem", "small"],
    "C04": ["err", "err", "mix", "err", "small", "err", "cache", "err"],
}
MODELS = {
    "C01": ["mem", "flat", "diamond"],
    "C02": ["diamond", "fs"],
    "C03": ["diamond", "mem"],
    "C04": ["err"],
}
BAD = {"C01": [("bad_admission", "Deadlock reached"), ("bad_flush", "Deadlock reached"), ("bad_wake", "Deadlock reached")],
       "C03": [("bad_dedup", "Shared is violated")]}
def run(ctx, pid):
    ctx.build(("core",))
    d = ctx.driver("sched_driver")
    jobs = []
    n, sess = (32, 25) if ctx.quick else (240, 60)
    prof = PROFILES[pid]
    for i in range(n):
        p = prof[i % len(prof)]
        s = sess if p != "flush" else 2
        jobs.append(lambda i=i, p=p, s=s: ctx.trace_job("SchedTrace", [d, ctx.seed * 1000 + i, s, p], f"{p}{i}", env={"FOCUS": pid}, confirm=False, tlc_timeout=400))
    if ctx.quick:
        jobs += [lambda m=m: ctx.model("SchedMCCfg", f"Sched_{m}.cfg", workers=4) for m in MODELS[pid][:2]]
    else:
        jobs += [lambda m=m: ctx.model("SchedMCCfg", f"Sched_{m}.cfg", workers=4) for m in ("diamond", "fs", "err", "mem", "flat")]
    jobs += [lambda m=m, x=x: ctx.model("SchedMCCfg", f"Sched_{m}.cfg", workers=2, expect_fail=x) for m, x in BAD.get(pid, [])]
    ctx.parallel(jobs)
ASSUMPTIONS = ["the test filters keep the API contract (one error report per failure, no requests for negative frames)",
               "schedules: those the 8 core machine produces with randomised delays at mutex operations; the abstract model covers all schedules of small graphs",
               "blocking getFrame calls from inside filter calls only towards nodes nothing else in the call chain needs"]

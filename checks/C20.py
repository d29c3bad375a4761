import os
LEVEL = "model_checking"
ASSUMPTIONS = [
    "threads take turns where they share environments; threads that run freely use environments of their own",
    "an environment is destroyed while no other thread makes calls on its objects (requests of it may still run)",
    "clips are not handed to filters of another environment's core",
    "whether memory views of a frame survive the environment is left open",
]
TECHNIQUE = ("TLA+ specification of environments, the policy, use(), the callbacks of destruction and the objects of an environment, checked with TLC over every "
             "interleaving of small configurations (with broken variants that must fail), and random histories of policies with one, two and three threads recorded from the real Python module validated against it by TLC")
NOTE = "current environment after every step, callbacks, outputs, locals, loggers, exception kinds and the usability of every object are computed again by the specification"


def run(ctx):
    ctx.build(("core", "filters", "python"))
    q = ctx.quick
    drv = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "envs_run.py")
    jobs = [lambda c=c: ctx.model("EnvsMC", f"EnvsMC{c}.cfg", workers=2) for c in (("1", "2") if q else ("1", "2", "t1", "t2"))]
    for i, what in enumerate(("Action property DeadNotSet is violated", "Invariant Restored is violated", "Invariant Once is violated", "Invariant Ends is violated"), 1):
        jobs.append(lambda i=i, what=what: ctx.model("EnvsMC", f"EnvsMCbad{i}.cfg", workers=1, expect_fail=what))
    kinds = [(2, "global"), (2, "local"), (3, "free"), (1, "local"), (3, "local")]
    for i in range(60 if q else 400):
        th, mode = kinds[i % len(kinds)]
        jobs.append(lambda i=i, th=th, mode=mode: ctx.trace_job("EnvsTrace", ["/opt/vp/venv/bin/python3", drv, ctx.seed * 1000 + i, 1500 if q else 2500, th, mode], f"envs{i}",
                                                                denv={"PYTHONPATH": ctx.libdir, "MALLOC_PERTURB_": "165"}, timeout=170, confirm=False))
    ctx.parallel(jobs)

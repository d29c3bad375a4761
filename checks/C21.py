import os, sys
LEVEL = "model_checking"
ASSUMPTIONS = [
    "clips up to 60 frames, up to 8 threads, prefetch and backlog up to 20; audio up to 9 frames",
    "clips of variable format, which output() refuses, and y4m of float formats, which no reader defines, are left out",
    "the Future and GIL of the Python of the build environment",
]
TECHNIQUE = ("TLA+ specification of the frames() iterator (window, completion callbacks, closing) and of Python's sequence operations, checked with TLC over every "
             "interleaving (with broken variants that must fail), and random programs reading, writing and cutting clips through the real Python module validated against it by TLC")
NOTE = "frames, bytes, errors, write and progress calls, requests made of the source and their number at a time are computed again by the specification"


def run(ctx):
    ctx.build(("core", "filters", "python"))
    p = ctx.plugin("pipe")
    q = ctx.quick
    drv = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "iter_run.py")
    jobs = [lambda c=c: ctx.model("FramesIterMC", f"FramesIterMC{c}.cfg", workers=2) for c in (("1", "2", "3") if q else ("t1", "t2"))]
    jobs += [lambda: ctx.model("SeqMC", "SeqMC.cfg" if q else "SeqMCt.cfg", workers=2),
             lambda: ctx.model("FramesIterMC", "FramesIterMCbad1.cfg", workers=1, expect_fail="Invariant NothingRuns is violated"),
             lambda: ctx.model("FramesIterMC", "FramesIterMCbad2.cfg", workers=1, expect_fail="Invariant Window is violated"),
             lambda: ctx.model("FramesIterMC", "FramesIterMCbad3.cfg", workers=1, expect_fail="Invariant Ascending is violated")]
    for i in range(28 if q else 200):
        jobs.append(lambda i=i: ctx.trace_job("SeqTrace", ["/opt/vp/venv/bin/python3", drv, p, ctx.seed * 1000 + i, 130 if q else 200], f"iter{i}",
                                              denv={"PYTHONPATH": ctx.libdir}, timeout=160, confirm=False))
    ctx.parallel(jobs)

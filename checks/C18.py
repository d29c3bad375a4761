import os, sys
LEVEL = "model_checking"
ASSUMPTIONS = [
    "Linux build of vspipe with the Python of the build environment; scripts load a source plugin of the check's own",
    "frame counts up to 60, up to 6200 audio samples; wav and w64 files below 2^31 bytes",
    "the y4m name of float gray clips, which no reader defines, is left open",
]
TECHNIQUE = ("TLA+ specification of vspipe's request window and of the streams it writes, checked with TLC over every completion order, failure and "
             "write error (with broken variants that must fail), and runs of the real vspipe on generated scripts and options validated against it by TLC")
NOTE = "every byte of the output, every header, timecode and JSON line, the exit code and every frame asked for are computed again by the specification"


def run(ctx):
    ctx.build(("core", "filters", "python", "vsscript", "vspipe"))
    p = ctx.plugin("pipe")
    q = ctx.quick
    jobs = [lambda: ctx.model("VspipeMC", "VspipeMC.cfg" if q else "VspipeMCt.cfg", workers=3),
            lambda: ctx.model("VspipeMC", "VspipeMCbad1.cfg", workers=1, expect_fail="Invariant Prefix is violated"),
            lambda: ctx.model("VspipeMC", "VspipeMCbad2.cfg", workers=1, expect_fail="Invariant Result is violated")]
    for i in range(10 if q else 120):
        jobs.append(lambda i=i: ctx.trace_job("VspipeTrace", [sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "pipe_run.py"), ctx.libdir, p, ctx.seed * 1000 + i, 130 if q else 300],
                                              f"pipe{i}", timeout=400, confirm=False))
    ctx.parallel(jobs)

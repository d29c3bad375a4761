import os, sys
from vlib import pyhost
LEVEL = "model_checking"
ASSUMPTIONS = [
    "Linux build of libvsscript with the Python of the build environment",
    "the exit code is left open once a failed handle is evaluated again; working directories are changed in single threaded runs only",
]
TECHNIQUE = ("TLA+ specification of VSScript handles (scripts as sequences of statements) and of threads evaluating them, checked with TLC (with broken variants "
             "that must fail), and random histories of calls on the real libvsscript, from one and several threads, validated against it by TLC")
NOTE = "after every evaluation the result, error, exit code, variables, outputs and core of each handle are those the statements it ran make"


def run(ctx):
    ctx.build(("core", "filters", "python", "vsscript"))
    d = ctx.driver("script_driver", libs=("core", "vsscript"))
    q = ctx.quick
    env = pyhost.env(ctx.libdir, ctx.tmp)
    jobs = [lambda: ctx.model("ScriptMC", "ScriptMC.cfg" if q else "ScriptMCt.cfg", workers=3),
            lambda: ctx.model("ScriptMC", "ScriptMCbad1.cfg", workers=1, expect_fail="Invariant Independent is violated"),
            lambda: ctx.model("ScriptMC", "ScriptMCbad2.cfg", workers=1, expect_fail="Invariant Errors is violated"),
            lambda: ctx.model("ScriptMC", "ScriptMCbad3.cfg", workers=1, expect_fail="Invariant Independent is violated")]
    for i in range(24 if q else 240):
        sub = os.path.join(ctx.tmp, f"dir{i}")
        os.makedirs(sub)
        jobs.append(lambda i=i, sub=sub: ctx.trace_job("ScriptTrace", [d, ctx.seed * 1000 + i, 1500, 3 if i % 3 == 2 else 1, sub], f"script{i}",
                                                       denv=env, confirm=False))
    ctx.parallel(jobs)

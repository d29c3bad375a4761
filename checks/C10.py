LEVEL = "model_checking"
ASSUMPTIONS = ["no signature names an argument twice", "functions of API 3 plugins declare no \"any\" arguments and return no audio", "functions are not registered while the same plugin's functions are being called"]
TECHNIQUE = "TLA+ model of the signature grammar, the argument check and the plugin registry; TLC checks the registry design and grammar laws, and validates traces of plugins loaded, functions registered, looked up and called on the real core"
NOTE = "all signatures of up to four grammar tokens, every argument kind against every value kind; random signatures, argument maps, plugins (API 3 and 4) and concurrent loads and registrations"
def run(ctx):
    ctx.build(("core", "filters"))
    for p in ("plug", "plug3", "plug0"): ctx.plugin(p)
    d = ctx.driver("plugin_driver")
    q = ctx.quick
    jobs = [lambda: ctx.model("PluginsMC", "PluginsMC.cfg" if q else "PluginsMCt.cfg", workers=2),
            lambda: ctx.model("PluginsMC", "PluginsMCbad1.cfg", workers=1, expect_fail="is violated"),
            lambda: ctx.model("PluginsMC", "PluginsMCbad2.cfg", workers=1, expect_fail="is violated")]
    n = 4
    for i in range(n):
        jobs.append(lambda i=i: ctx.trace_job("PluginsTrace", [d, i, n, 0, "sys"], f"sys{i}"))
    for i in range(10 if q else 120):
        jobs.append(lambda i=i: ctx.trace_job("PluginsTrace", [d, ctx.seed * 1000 + i, 8, 400, "rand"], f"rand{i}", confirm=False))
    ctx.parallel(jobs)

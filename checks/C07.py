from . import frames_common as F
LEVEL = "model_checking"
ASSUMPTIONS = ["plane contents are compared at five positions per plane (corners, ends and middle)",
               "concurrent histories: interleavings produced by four threads with randomised delays"]
def run(ctx):
    F.run(ctx, "C07", ["seq", "seq", "conc"], False)
    # maps as values: the map histories contain copies and writes to either side
    d = ctx.driver("map_driver")
    ctx.parallel([lambda i=i: ctx.trace_job("VSMapTrace", [d, ctx.seed * 1000 + 700 + i, 16, 400, "rand"], f"m{i}") for i in range(6 if ctx.quick else 60)])
TECHNIQUE = "TLA+ model of frames sharing plane buffers checked by TLC against plain values; logs of copy/derive/write/free histories on real frames and maps validated against it"
NOTE = "exhaustive for 3 frames of 2 planes; on the code: random histories over random formats, also from four threads at once"

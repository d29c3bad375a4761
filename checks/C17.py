LEVEL = "model_checking"
ASSUMPTIONS = [
    "8 to 16 bit integer formats; what float formats compute is not asked for",
    "where a real number is rounded (Levels, Convolution, AverageFrames, Prewitt, Sobel, Expr with a division that leaves a remainder), 2 % of a unit of room is left for the single precision the filters use",
    "Expr expressions are those whose every value on the samples given is a multiple of 1/16 below 2^18, so that the order of evaluation, which the documentation leaves open, cannot show",
    "MaskedMerge and PreMultiply of subsampled clips with a mask that would have to be resized need the resize filters, which need a library that is not here",
    "the CPU levels compared are those this machine has",
]
TECHNIQUE = ("TLA+ specification of the point, neighbourhood and combination filters as functions on samples, with the acceptance of arguments, "
             "checked with TLC against laws (involutions, identities, order, differences undone, bounds) on all pairs of short rows, "
             "and traces of random calls of the real filters on every CPU level, all samples included, validated against it by TLC")
NOTE = "every sample of random clips of many widths, on all CPU levels, is computed again by the specification"


def run(ctx):
    ctx.build(("core", "filters"))
    d = ctx.driver("pixel_driver")
    q = ctx.quick
    jobs = [lambda: ctx.model("PixelMC", "PixelMC.cfg" if q else "PixelMCt.cfg", workers=4)]
    for i in range(63 if q else 560):
        jobs.append(lambda i=i: ctx.trace_job("PixelTrace", [d, ctx.seed * 1000 + i, 280 if q else 400], f"pix{i}"))
    ctx.parallel(jobs)

LEVEL = "model_checking"
ASSUMPTIONS = ["samples of a clip are told apart by value modulo a prime (4093 for formats up to 20 bits, else 262139)", "waveforms are checked for frequencies which are dyadic fractions of the sample rate"]
TECHNIQUE = "TLA+ definitions of the audio editing filters (as constructions of whole channels and as sample-position formulas), proved equal by TLC over a small scope; random filter chains on the real core validated sample by sample against them"
NOTE = "model: every argument for clips of up to 6 samples with frames of 3, chains of 1 (quick) or 2 (thorough) filters; code: random chains over sources of up to 2^31-1 frames, every sample of the frames requested is compared; frames in random order"
def run(ctx):
    ctx.build(("core", "filters"))
    d = ctx.driver("audio_driver")
    q = ctx.quick
    jobs = [lambda: ctx.model("AudioEditMC", "AudioEditMC.cfg" if q else "AudioEditMCt.cfg", workers=4)]
    for i in range(14 if q else 120):
        jobs.append(lambda i=i: ctx.trace_job("AudioEditTrace", [d, ctx.seed * 1000 + i, 700 if q else 2000], f"audio{i}"))
    ctx.parallel(jobs)

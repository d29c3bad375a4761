from . import sched_common as S
LEVEL = "model_checking"
ASSUMPTIONS = S.ASSUMPTIONS
def run(ctx): S.run(ctx, "C04")
TECHNIQUE = "TLA+ scheduler model (SchedMC) checked by TLC over all schedules of small graphs; logs of random graphs on the real core validated event by event against SchedTrace.tla"
NOTE = "exhaustive on the abstract scheduler (2-3 threads, 4 nodes); on the code: random graphs, load, filter modes, cache and memory settings with schedule perturbation"

SPECIFICATION Spec
CONSTANTS N = 4 Prefetch = 2 Backlog = 2 Fails = {} Broken = "backlog"
INVARIANTS Ascending Complete_ Window NothingRuns

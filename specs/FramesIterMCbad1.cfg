SPECIFICATION Spec
CONSTANTS N = 3 Prefetch = 2 Backlog = 2 Fails = {} Broken = "nolock"
INVARIANTS Ascending Complete_ Window NothingRuns

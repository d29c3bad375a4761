SPECIFICATION Spec
CONSTANTS MaxLen = 1  MaxMaps = 2
CONSTRAINT Bounded
VIEW MsView
INVARIANTS TypeUniform KeysValid Sorted ErrorShape ViewAgrees
PROPERTIES FailKeeps OnlyTarget OnlyKey AppendGrows
CHECK_DEADLOCK FALSE

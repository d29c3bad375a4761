---------------------------- MODULE SchedMCCfg -----------------------------
(* Instances of SchedMC. *)
EXTENDS SchedMC
S == <<>>
\* a diamond: 4 requests 2 and 3, both request 1
Diamond == <<{}, {1}, {1}, {2, 3}>>
ModeMix  == <<1, 2, 3, 0>>
ModeFS   == <<3, 3, 2, 1>>
ModePar  == <<0, 0, 0, 0>>
Chain == <<{}, {1}, {2}>>
ModeChain == <<1, 3, 0>>
ExtTwo == <<<<4, 0>>, <<4, 1>>>>
ExtThree == <<<<4, 0>>, <<4, 0>>, <<2, 0>>>>
ExtChain == <<<<3, 1>>, <<3, 0>>>>
NoNest == <<0, 0>>
NestChain == <<3, 1>>
\* node 1 needs much memory, node 2 calls it directly for its frame 1
Flat == <<{}, {}>>
ModeFlat == <<0, 2>>
ExtFlat == <<<<2, 1>>, <<2, 0>>, <<1, 0>>>>
NestFlat == <<2, 1>>
============================================================================

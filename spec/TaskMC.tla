------------------------------ MODULE TaskMC ------------------------------
EXTENDS Task, Json, IOUtils, SequencesExt
S == 1..atoi(IOEnv.TASK_SLOTS)
Most == atoi(IOEnv.TASK_COUNT)
All == atoi(IOEnv.TASK_KINDS) = 1
View == [t \in Slots |-> <<slot[t].s, slot[t].kind, slot[t].count>>]
Emit == LET os == SetToSeq(Valids) IN PrintT(ToJson([path |-> path, ops |-> [k \in 1..Len(os) |-> Res(os[k])]]))
============================================================================

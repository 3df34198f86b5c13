INIT Init
NEXT Next
CONSTANT Judge <- JudgeWf

INIT Init
NEXT Next
CONSTANT Judge <- JudgeUuid

INIT Init
NEXT Next
CONSTANT Judge <- JudgeBuilder

INIT Init
NEXT Next
CONSTANT Judge <- JudgeValid

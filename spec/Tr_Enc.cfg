INIT Init
NEXT Next
CONSTANT Judge <- JudgeEnc

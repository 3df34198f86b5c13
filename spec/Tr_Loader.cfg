INIT Init
NEXT Next
CONSTANT Judge <- JudgeLoader

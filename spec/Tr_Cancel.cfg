INIT Init
NEXT Next
CONSTANT Judge <- JudgeCancel

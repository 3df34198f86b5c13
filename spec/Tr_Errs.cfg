INIT Init
NEXT Next
CONSTANT Judge <- JudgeErrs

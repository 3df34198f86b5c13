INIT Init
NEXT Next
CONSTANT Judge <- JudgeRT

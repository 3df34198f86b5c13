INIT Init
NEXT Next
CONSTANT Judge <- JudgeStl

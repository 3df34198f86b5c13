INIT Init
NEXT Next
CONSTANT Judge <- JudgeGeo

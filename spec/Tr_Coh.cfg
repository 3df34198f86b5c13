INIT Init
NEXT Next
CONSTANT Judge <- JudgeCoh

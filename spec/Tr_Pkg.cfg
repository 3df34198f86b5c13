INIT Init
NEXT Next
CONSTANT Judge <- JudgePkg

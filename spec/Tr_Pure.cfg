INIT Init
NEXT Next
CONSTANT Judge <- JudgePure

INIT Init
NEXT Next
CONSTANT Judge <- JudgeFault

INIT Init
NEXT Next
CONSTANT Judge <- JudgeLookup

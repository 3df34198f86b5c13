INIT Init
NEXT Next
CONSTANT Judge <- JudgeDec
